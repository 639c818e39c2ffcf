#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/graph_ensembles/"
SPARK, DENSE, DG = S + "spark/models.py", S + "models.py", S + "graphs.py"
SG, SOLV, LIB = S + "sparse/graphs.py", S + "solver.py", S + "lib.py"
ENS, FIT, INV = (S + "sparse/models/%s.py" % n for n in ("ensembles", "fitness", "invariant"))
RND, CND = (S + "sparse/models/%s.py" % n for n in ("random", "conditional"))

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                "mechanism": [{"name": a, "where": b} for a, b in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Distributed expectations equal the exact sums over all pairs",
    "For every ensemble evaluated on Spark, the expected number of links, the expected total, out and in degrees, their per label versions and the neighbour averages equal the sums of the ensemble's pair probabilities over all ordered pairs of vertices, self loops included only when allowed, a pair linked in both directions counting once in the total degree. This holds for every number of blocks and executors, every task order, every task retry, executor loss, cached block eviction and speculative duplicate, and every order of queries.",
    ["schedules", "fault_sequences", "inputs", "configurations"],
    "all ensembles (random, fitness, scale invariant, with or without labels), all block counts, all cluster sizes, task schedules and recoverable cluster faults, all query sequences",
    "The tests run one local[*] Spark with a handful of small graphs and the default schedule: no retry, loss, eviction or duplicate ever happens and most block counts are never used.",
    [SPARK, FIT, INV, RND, ENS],
    [
        ("upper triangular blocks of properties parallelised as an RDD", SPARK),
        ("fold / reduce / aggregate of per block results", SPARK),
    ],
    ["return values of the expectation methods of the Spark ensembles"],
    [("p_iter_rdd", "distributed blocks of the pair matrix", SPARK)],
)
prop(
    "C02",
    "Distributed likelihoods and confusion counts are exact",
    "On Spark, the log likelihood of an observed graph equals the sum over all admissible ordered pairs (and labels, when layers are given) of log p for the links present and log(1-p) for those absent, minus infinity if a link is impossible or a certain link is missing, and does not depend on link weights or on the form in which the graph is passed. The confusion counts at each threshold classify every admissible pair exactly once, by whether it is linked and whether its probability reaches the threshold. Both hold for every partition, schedule and recoverable cluster fault.",
    ["schedules", "fault_sequences", "inputs"],
    "all ensembles, observed graphs in every accepted form, thresholds, partitions, schedules and recoverable faults",
    "Tests score a few fixed adjacency matrices on one partition layout with no fault; double counting under retries or merging, or block boundary mistakes, are not exercised.",
    [SPARK, ENS],
    [("per block likelihood and confusion kernels merged by the driver", SPARK)],
    ["log_likelihood", "confusion_matrix"],
)
prop(
    "C03",
    "Distributed calibration reaches its target and reports it truthfully",
    "Fitting an ensemble on Spark to any attainable expected number of links (in total, or for each label) terminates within its iteration limit, leaves a non negative parameter whose exact expectation matches every target within the requested tolerances, and the ensemble then answers with that expectation. If it stops before reaching the target it says so with a warning and in its solver report, and it never reports convergence otherwise. Its arguments are left unchanged.",
    ["schedules", "fault_sequences", "inputs", "configurations"],
    "all ensembles and targets from 0.1% to 99% of the attainable maximum, all starting points, tolerances and iteration limits, under all schedules and recoverable faults",
    "Tests fit a few graphs from the default starting point; they do not vary target, start, tolerance, label structure, partition or faults.",
    [SPARK, SOLV],
    [("monotonic Newton iteration with bracketing", SOLV), ("distributed objective and derivative", SPARK)],
    ["fit", "param", "solver_output", "warnings", "expected_num_edges"],
)
prop(
    "C04",
    "Distributed samples decide every pair exactly once, with its own probability",
    "A sample drawn on Spark contains each ordered pair (per label) at most once, linked with exactly the probability the ensemble assigns to it, independently of the other pairs; links with probability zero, or self loops when excluded, never appear and certain links always do. Weighted samples give each link a weight whose mean follows the requested rule (strength product over probability, or the random weight law). This holds for every partition, executor assignment, retry, loss, eviction and duplicate attempt.",
    ["schedules", "fault_sequences", "inputs", "configurations"],
    "all ensembles, sampling options and reference graphs, all partitions, schedules and recoverable faults, all executor random streams",
    "Tests compare the average of a few samples on a fixed layout with wide tolerances; they cannot separate a biased, duplicated or correlated pair, nor provoke a retried sampling task.",
    [SPARK, ENS],
    [("sampling kernel per block and its collection by the driver", SPARK)],
    ["sample"],
)
prop(
    "C05",
    "A failed or interrupted query leaves the ensemble as if it was never asked",
    "If computing an expectation, likelihood, confusion count or sample is cut short at any point - a job aborted after repeated task failures, a user interrupt, an out of memory condition - the exception reaches the caller and the ensemble keeps working. Every later query, repeated or different, gives exactly what it would have given had the failed call never been made, and the ensemble's parameters, properties and targets are unchanged.",
    ["crash_points", "fault_sequences", "histories"],
    "all queries of all ensembles (in memory dense and sparse, conditional, Spark), all points at which they can be cut short, all later histories",
    "No test interrupts a query; the caches that make later answers depend on earlier calls are only ever filled by complete ones.",
    [DENSE, ENS, FIT, CND, SPARK],
    [("results cached on the object after being computed", ENS)],
    ["all query methods, before and after the failed call"],
    [("cached expectations", "per object memo of expectations", ENS)],
)
prop(
    "C06",
    "A failed or interrupted fit leaves a consistent ensemble",
    "If a fit is cut short at any point, the ensemble afterwards is either exactly as before the call (same parameters, same answers) or exactly as after a successful one. In particular an ensemble with one parameter per label never ends with some labels fitted and others not, no query answers with a mix of old and new parameters, and a later undisturbed fit succeeds as if nothing had happened.",
    ["crash_points", "fault_sequences", "histories"],
    "all fits of all ensembles (dense, sparse, conditional, Spark), all points at which they can be cut short, all later histories",
    "No test interrupts a fit or queries the ensemble after a failed one.",
    [DENSE, FIT, INV, CND, SPARK, ENS],
    [("parameters assigned after the solver returns; cached expectations discarded", FIT)],
    ["fit", "param", "expectation methods"],
    [("param", "the fitted parameters", FIT)],
)
prop(
    "C07",
    "Graph construction and queries are all or nothing and never touch caller data",
    "Building a graph, or asking a graph any question, never modifies the data frames, arrays or graphs the caller passed in, also when it fails or is interrupted half way. A graph query cut short at any point leaves the graph answering every later question exactly as if the interrupted call had never been made.",
    ["crash_points", "fault_sequences", "histories", "inputs"],
    "all graph classes of both back ends, all queries and constructor options, all points at which they can be cut short",
    "Tests look at results of complete calls on fixed inputs; none interrupts a call or compares the inputs before and after.",
    [DG, SG, LIB],
    [("lazily cached degrees, strengths and adjacency derived measures", DG)],
    ["graph constructors", "graph query methods", "the caller's data frames"],
)
prop(
    "C08",
    "Answers do not depend on what was asked before",
    "Every answer of an ensemble, in memory dense or sparse, conditional or on Spark, equals the value defined by its current parameters, whatever queries, recomputations, samples or fits came before it and in whatever order. After a new fit or a recomputation no stale value is ever returned, and the three back ends agree with one another.",
    ["histories", "inputs", "configurations"],
    "all finite histories of queries, samples and fits on all ensembles of all back ends",
    "Tests call each method once or twice on a fresh object in a fixed order; interactions between cached results need particular sequences of options.",
    [DENSE, ENS, FIT, INV, RND, CND, SPARK],
    [("cached expectations keyed by option and discarded on fit", ENS)],
    ["all query methods"],
    [("cached expectations", "per object memo of expectations", ENS)],
)
prop(
    "C09",
    "Concurrent callers of one ensemble or graph get the sequential answers",
    "When several threads ask questions of, or draw samples from, the same ensemble or graph at once, every call returns what it would have returned alone, whatever the interleaving, and the object afterwards answers as if the calls had been made one after the other.",
    ["schedules", "histories"],
    "all interleavings of queries and samples from two or three threads on one object, for all ensembles and graph classes",
    "All tests are single threaded.",
    [DENSE, ENS, FIT, CND, SPARK, DG, SG],
    [("order in which related cached results are published", ENS)],
    ["return values of every thread", "later answers of the object"],
    [("cached expectations", "per object memo of expectations", ENS)],
)
prop(
    "C10",
    "Every sample respects the ensemble, whatever the random stream",
    "Whatever numbers the random generator delivers, a sample drawn from an in memory ensemble contains each pair at most once per label, no impossible link, no excluded self loop and every certain link, has finite non negative weights, carries the vertices, groups and labels of the ensemble or of the reference graph, answers graph queries consistently with the links it lists, and has a finite log likelihood under the ensemble that produced it.",
    ["inputs", "fault_sequences", "configurations"],
    "all ensembles (dense and sparse), sampling options, reference graphs and random streams including extreme ones",
    "Tests draw a few samples from the default stream and look at averages; boundary draws have probability near zero.",
    [DENSE, ENS, FIT, RND, DG, SG],
    [("comparison of uniform draws with pair probabilities; construction of the sampled graph", ENS)],
    ["sample", "the sampled graph", "log_likelihood of the sample"],
)
prop(
    "C11",
    "Samples have the ensemble's link probabilities, independence and weight law",
    "Over repeated samples of an in memory ensemble, every pair and label is linked with exactly the probability that its expectations and likelihood use, independently across pairs, directions, labels and successive samples, with the self loop option of the call. Weights given the links have the exact law requested (exponential or geometric, with the mean set by strengths over probability, or by the fitted weight parameter).",
    ["inputs", "configurations", "histories"],
    "all ensembles (dense and sparse), sampling options and seeds",
    "Tests average a small number of samples of fixed graphs with wide tolerances and never test independence or the weight law.",
    [DENSE, ENS, FIT, RND],
    [("sampling kernels", ENS)],
    ["sample"],
)
prop(
    "C12",
    "Conditional samples reproduce the observed group graph exactly",
    "Every micro graph sampled from the conditional ensemble, whatever the random stream, has a link between two groups exactly where the observed group level graph has one, respects the self loop option, and when weights are aggregated from the group level reproduces the total weight of every group link. Each pair is linked with exactly its probability given the observed group graph, and the expected links, degrees, neighbour averages and likelihood are those of that conditional distribution, whatever the sparsity of the ensemble and the form in which the group graph was given.",
    ["inputs", "fault_sequences", "configurations", "histories"],
    "all conditional ensembles (fitness, groups, group graphs), sampling options and random streams including extreme ones",
    "Tests check the group graph on a few samples of one graph and the expectation on a fixed instance; draws in the tail or rare group structures are not reached.",
    [CND, INV],
    [("inverse transform of the first link of each group pair", CND)],
    ["sample, fit and expectation methods of the conditional ensemble"],
)
prop(
    "C13",
    "Sampling is read only and reproducible",
    "Drawing a sample never changes the ensemble, the strengths, reference graph or other arguments passed, and never changes any later answer. With the random generator in the same state, the same ensemble gives the same sample, whatever queries were made before or between the draws.",
    ["histories", "inputs", "configurations"],
    "all ensembles of all back ends, all sampling options, all histories of queries and samples",
    "Tests never compare an ensemble before and after sampling, nor two samples from one generator state.",
    [DENSE, ENS, FIT, RND, CND, SPARK],
    [("sampling uses only the ensemble's parameters and the global generator", ENS)],
    ["sample", "query methods", "arguments after the call"],
)
prop(
    "C14",
    "In memory calibration makes bounded progress and reports truthfully",
    "Fitting any in memory ensemble (dense, sparse, conditional; from targets or from an observed graph) to any attainable target evaluates its objective a bounded number of times, stays within its iteration limit, and ends with a non negative parameter whose exact expectation matches the target within tolerance. The solver reports convergence exactly when the target is met, warns otherwise, never accepts a starting point outside its bracket silently, and passes errors of the objective to the caller. The arguments of a fit are left unchanged.",
    ["inputs", "fault_sequences", "configurations"],
    "all ensembles, attainable targets, starting points, tolerances and iteration limits; all strictly monotonic objectives of the solver with a root inside a finite bracket, and evaluation errors at any call",
    "Tests fit a handful of graphs from default settings.",
    [SOLV, DENSE, FIT, INV, CND, RND],
    [("monotonic Newton iteration with bracketing", SOLV)],
    ["fit", "param", "solver_output", "warnings"],
)
prop(
    "C15",
    "Graphs answer every query like the edge list they were built from",
    "For every vertex and edge list, a graph of any class answers degrees, strengths, counts per label and per group, neighbour averages, adjacency matrices and tensors and its networkx version with the values computed directly from the list, in any order of queries, options and recomputations, for any number of vertices, labels and groups including those where identifiers outgrow their storage type. Weights of repeated links are summed, unweighted graphs have strengths equal to their degrees, dense and sparse versions agree, and invalid lists (repeated vertices, unknown endpoints, weights that are not positive) are refused.",
    ["histories", "inputs", "configurations"],
    "all four graph classes of both back ends, all edge lists and options, all histories of queries",
    "Tests use one five vertex graph and call most methods once with default options.",
    [DG, SG, LIB],
    [("identifier dictionaries and minimal integer types; lazily cached measures", DG)],
    ["graph constructors and query methods"],
)
prop(
    "C16",
    "Page ranks and trophic depths are those of the graph",
    "The page rank of a graph is the distribution reached from the uniform one by following links with probability proportional to their weight (or with equal probability when weights are ignored), starting again anywhere from vertices without links and with the damping probability; the trophic depth of a vertex is one plus the average depth of where its weight goes, the final demand having depth zero. Each call ends within its iteration limit, returning the first iterate that moved by less than the tolerance or the last one allowed, reports truthfully which of the two it was, sums labels, and conserves total rank. Neither the graph nor the arguments change, also when the call is interrupted at any point or made from several threads at once, and later calls and questions are unaffected.",
    ["inputs", "crash_points", "histories", "schedules"],
    "all sparse graphs (built from lists or sampled), weights, options and final demands, all points of interruption and interleavings",
    "There are no tests of these functions at all.",
    [LIB, SG],
    [("row normalisation and propagation kernels iterated to a tolerance", LIB)],
    ["lib.pagerank", "lib.trophic_depth"],
)

NOT_CLAIMED = {}

NA_EXTRA = []

T = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": T + "seeded schedules and faults on a simulated Spark cluster, refinement against a pair-sum reference",
    "C02": T + "seeded schedules and faults on a simulated Spark cluster, refinement and conservation of counts",
    "C03": T + "seeded fits on a simulated faulty Spark cluster, bounded progress and exact target oracle",
    "C04": T + "seeded samples on a simulated faulty Spark cluster, structural and exact-probability history checks",
    "C05": T + "seeded crash points (interrupt, memory, job abort) in queries, answers afterwards against a reference",
    "C06": T + "seeded crash points in fits, atomicity oracle over parameters and later answers",
    "C07": T + "seeded crash points in graph construction and queries, before/after comparison and reference",
    "C08": T + "seeded query/fit/sample histories against a reference model",
    "C09": T + "seeded interleavings of real threads at line granularity, linearizability against a reference",
    "C10": T + "seeded and adversarial random streams behind a generator seam, structural invariants",
    "C11": T + "seeded random streams, exact-bound tests over the recorded sample history",
    "C12": T + "seeded and adversarial random streams, macro graph invariant and exact conditional reference",
    "C13": T + "seeded histories with controlled generator state, non-interference and repeatability",
    "C14": T + "seeded fits and faulty objectives, bounded progress and exact target oracle",
    "C15": T + "seeded query histories against an edge list reference model",
    "C16": T + "seeded crash points, thread switches and call histories, refinement against dense iterates",
}
NOTE = {
    "spark": "Bounded seeded exploration. Assumes the simulated scheduler over-approximates Spark's task semantics (results and cached blocks of an attempt are all that survive it); the JVM, network and real processes are stubbed, the library, pyspark RDD algebra and closure serialisation are real. Kernels run interpreted in most runs and compiled in a share of them.",
    "mem": "Bounded seeded exploration of the real in-process code; random generators, interrupts, allocation failures and (where used) thread switches are controlled by the seed. Kernels run interpreted in most runs and compiled in a share of them; trusts the independent reference formulas.",
}


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(ROOT, "sim", "props", p["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in claimed + NA_EXTRA:
            f.write(json.dumps(p) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "./check %s quick" % p["id"],
                "thorough_cmd": "./check %s thorough" % p["id"],
                "technique": CHECKS[p["id"]],
                "level": "exploration",
                "level_note": NOTE["spark" if p["id"] in ("C01", "C02", "C03", "C04") else "mem"],
            }
            for p in claimed
        ],
        "not_applicable": [{"property": p["id"], "reason": NOT_CLAIMED[p["id"]]} for p in NA_EXTRA],
        "notes": "No hooks in /repo: every seam used (SparkContext, numpy/numba generators, sys.settrace) already exists. Repairs of genuine defects are listed in known_findings.json.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
