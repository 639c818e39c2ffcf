"""SimSpark: a deterministic, fault-injecting Spark runtime in one process.

Real code: the library, pyspark's RDD algebra (map/fold/reduce/aggregate/
treeAggregate/... are the real pyspark methods), pyspark's cloudpickle for
every closure, pickle for every block and result.
Stub: the JVM, the network, the executors' processes and the clock.  Tasks run
in simulated executors under a seeded scheduler with simulated time.

Faults: task failure before / after its computation, executor loss (running
attempts and cached blocks die, generator restarts), cached block eviction,
stragglers with speculative duplicate attempts, late duplicate results,
out-of-order completion, job abort (task failed 4 times), driver interrupt.
"""
import pickle
import re

from pyspark import SparkContext, cloudpickle
from pyspark.rdd import RDD
from pyspark.accumulators import Accumulator, _accumulatorRegistry
import pyspark.accumulators as _pacc
from py4j.protocol import Py4JError

from .core import StepBudget, Unsupported
from . import faults, rngseam


class SimJobAborted(Py4JError):
    """What the driver sees when a task has failed too many times."""


def packed(x):
    """As pyspark's serializer, which refuses the same values."""
    try:
        return pickle.dumps(x, protocol=5)
    except Exception as e:
        raise SimClosureError("cannot be sent between processes: %s" % e)


class SimClosureError(Exception):
    """What the driver sees when a closure cannot be shipped."""


class _Conf:
    def get(self, key, default=None):
        return default

    def contains(self, key):
        return False


def _load(b):
    return pickle.loads(b)


class SimBroadcast:
    def __init__(self, data):
        self._data = data
        self._value = None
        self._has = False

    @property
    def value(self):
        if not self._has:
            self._value = pickle.loads(self._data)
            self._has = True
        return self._value

    def unpersist(self, blocking=False):
        pass

    def destroy(self, blocking=False):
        pass

    def __reduce__(self):
        return SimBroadcast, (self._data,)


class SimRDD(RDD):
    """An RDD whose actions run on the simulated cluster."""

    def __init__(self, ctx, data=None, prev=None, func=None, shuffle=None):
        self.ctx = ctx
        self.is_cached = False
        self.is_checkpointed = False
        self.has_resource_profile = False
        self.partitioner = None
        self._id = ctx._next_id()
        self._data = data
        self._prev = prev
        self._func = func
        self._shuffle = shuffle
        self._cmd = None
        self._name = None
        self.func = func
        self.prev = prev
        self._jrdd_deserializer = ctx.serializer

    @property
    def _jrdd(self):
        raise Unsupported("JVM access to an RDD")

    def id(self):
        return self._id

    def __repr__(self):
        return "SimRDD[%d]" % self._id

    def setName(self, name):
        self._name = name
        return self

    def name(self):
        return self._name

    def persist(self, storageLevel=None):
        self.is_cached = True
        return self

    def cache(self):
        return self.persist()

    def unpersist(self, blocking=False):
        self.is_cached = False
        self.ctx._drop(self._id)
        return self

    def checkpoint(self):
        self.is_cached = True

    localCheckpoint = checkpoint

    def isCheckpointed(self):
        return False

    def getNumPartitions(self):
        if self._data is not None:
            return len(self._data)
        if self._shuffle is not None:
            return self._shuffle[1]
        return self._prev.getNumPartitions()

    def mapPartitionsWithIndex(self, f, preservesPartitioning=False):
        r = SimRDD(self.ctx, prev=self, func=f)
        if preservesPartitioning:
            r.partitioner = self.partitioner
        return r

    def partitionBy(self, numPartitions=None, partitionFunc=None):
        from pyspark.rdd import portable_hash

        n = int(numPartitions or self.getNumPartitions())
        return SimRDD(self.ctx, shuffle=(self, n, partitionFunc or portable_hash))

    def union(self, other):
        parts = self.ctx._run(self, None) + other.ctx._run(other, None)
        return SimRDD(self.ctx, data=[pickle.dumps(p) for p in parts])

    def coalesce(self, numPartitions, shuffle=False):
        parts = self.ctx._run(self, None)
        n = max(1, min(int(numPartitions), len(parts)) if not shuffle else int(numPartitions))
        items = [x for p in parts for x in p]
        return self.ctx.parallelize(items, n)

    def repartition(self, numPartitions):
        return self.coalesce(numPartitions, shuffle=True)

    def zip(self, other):
        a = self.ctx._run(self, None)
        b = other.ctx._run(other, None)
        return SimRDD(
            self.ctx, data=[pickle.dumps(list(zip(x, y))) for x, y in zip(a, b)]
        )

    def cartesian(self, other):
        a = self.ctx._run(self, None)
        b = other.ctx._run(other, None)
        return SimRDD(
            self.ctx,
            data=[pickle.dumps([(i, j) for i in x for j in y]) for x in a for y in b],
        )

    def _reserialize(self, serializer=None):
        return self

    def _is_barrier(self):
        return False

    def collect(self):
        return [x for part in self.ctx._run(self, None) for x in part]

    def collectWithJobGroup(self, *a, **k):
        return self.collect()

    def toLocalIterator(self, prefetchPartitions=False):
        for p in range(self.getNumPartitions()):
            for x in self.ctx._run(self, [p])[0]:
                yield x

    def _command(self):
        # like pyspark: the closure is serialised once per RDD, at first use
        if self._cmd is None:
            try:
                self._cmd = cloudpickle.dumps(self._func)
            except Exception as e:
                raise SimClosureError("closure cannot be serialised: %s" % e) from e
        return self._cmd


class Executor:
    def __init__(self, eid, k):
        self.eid = eid
        self.stream = rngseam.Stream(k)
        self.free_at = 0.0


class Attempt:
    def __init__(self, part, no, ex, finish, outcome):
        self.part, self.no, self.ex = part, no, ex
        self.finish, self.outcome = finish, outcome
        self.dead = False


class SimSparkContext(SparkContext):
    """isinstance(SparkContext) holds; the JVM is never touched."""

    def __init__(self, ctl, profile=None, name="sc"):
        self._ctl = ctl
        self._ids = 0
        self._blocks = {}
        self._shuffled = {}
        self._profile = {
            "executors": 1,
            "task_fail": 0.0,
            "exec_loss": 0.0,
            "evict": 0.0,
            "straggle": 0.0,
            "dup": 0.0,
            "abort_job": None,  # job number that aborts
            "interrupt_job": None,
            "max_jobs": 5000,
        }
        if profile:
            self._profile.update(profile)
        self._conf = _Conf()
        self._acc = {}
        self.environment = {}
        self.jobs = 0
        self.tasks = 0
        self.now = 0.0
        self._execs = []
        self._next_ex = 0
        self._seedbase = ctl.seed32()
        for _ in range(max(1, int(self._profile["executors"]))):
            self._add_exec()
        self.serializer = None
        self.task_hook = None

    # -- SparkContext surface -------------------------------------------
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("SparkContext." + name)

    @property
    def defaultParallelism(self):
        return len(self._execs)

    @property
    def defaultMinPartitions(self):
        return min(2, len(self._execs))

    @property
    def version(self):
        return "sim"

    @property
    def applicationId(self):
        return "sim"

    def __repr__(self):
        return "<SimSparkContext>"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def stop(self):
        self._blocks.clear()

    def setLogLevel(self, level):
        pass

    def setJobGroup(self, *a, **k):
        pass

    def setJobDescription(self, *a):
        pass

    def setLocalProperty(self, *a):
        pass

    def getLocalProperty(self, *a):
        return None

    def cancelAllJobs(self):
        pass

    def getConf(self):
        return self._conf

    def _next_id(self):
        self._ids += 1
        return self._ids

    def parallelize(self, c, numSlices=None):
        c = list(c)
        n = int(numSlices) if numSlices is not None else self.defaultParallelism
        n = max(1, n)
        data = []
        for i in range(n):
            lo, hi = (i * len(c)) // n, ((i + 1) * len(c)) // n
            data.append(packed(c[lo:hi]))
        return SimRDD(self, data=data)

    def emptyRDD(self):
        return self.parallelize([], 1)

    def range(self, start, end=None, step=1, numSlices=None):
        if end is None:
            start, end = 0, start
        return self.parallelize(range(start, end, step), numSlices)

    def union(self, rdds):
        r = rdds[0]
        for x in rdds[1:]:
            r = r.union(x)
        return r

    def broadcast(self, value):
        return SimBroadcast(cloudpickle.dumps(value))

    def accumulator(self, value, accum_param=None):
        if accum_param is None:
            if isinstance(value, complex):
                accum_param = _pacc.COMPLEX_ACCUMULATOR_PARAM
            elif isinstance(value, int):
                accum_param = _pacc.INT_ACCUMULATOR_PARAM
            elif isinstance(value, float):
                accum_param = _pacc.FLOAT_ACCUMULATOR_PARAM
            else:
                raise TypeError("no default accumulator param")
        aid = self._next_id()
        a = Accumulator(aid, value, accum_param)
        self._acc[aid] = a
        return a

    def runJob(self, rdd, partitionFunc, partitions=None, allowLocal=False):
        r = rdd.mapPartitions(partitionFunc)
        parts = self._run(r, None if partitions is None else list(partitions))
        return [x for p in parts for x in p]

    # -- cluster ---------------------------------------------------------
    def _add_exec(self):
        self._execs.append(
            Executor(self._next_ex, (self._seedbase * 31 + self._next_ex * 9973) & 0x7FFFFFFF)
        )
        self._execs[-1].free_at = self.now
        self._next_ex += 1

    def _drop(self, rdd_id):
        for k in [k for k in self._blocks if k[0] == rdd_id]:
            del self._blocks[k]

    def _iter(self, rdd, part, ex):
        """Records of one partition, from cache or lineage, on executor ex."""
        key = (rdd._id, part)
        if rdd.is_cached and key in self._blocks:
            return iter(pickle.loads(self._blocks[key][1]))
        if rdd._data is not None:
            out = pickle.loads(rdd._data[part])
        elif rdd._shuffle is not None:
            out = self._shuffle_read(rdd, part)
        else:
            f = pickle.loads(rdd._command())
            out = f(part, self._iter(rdd._prev, part, ex))
        if rdd.is_cached:
            b = packed(list(out))
            self._blocks[key] = (ex.eid, b)
            out = pickle.loads(b)
        return iter(out)

    def _shuffle_read(self, rdd, part):
        if rdd._id not in self._shuffled:
            parent, n, fn = rdd._shuffle
            buckets = [[] for _ in range(n)]
            for p in range(parent.getNumPartitions()):
                for kv in self._iter(parent, p, self._execs[0]):
                    buckets[fn(kv[0]) % n].append(kv)
            self._shuffled[rdd._id] = [pickle.dumps(b) for b in buckets]
        return pickle.loads(self._shuffled[rdd._id][part])

    def _attempt(self, rdd, part, ex):
        """Run one task attempt on ex; returns (result bytes, acc updates)."""
        self.tasks += 1
        _accumulatorRegistry.clear()
        with rngseam.Saved():
            ex.stream.enter()
            faults.SUSPENDED += 1  # what happens in a task is another process
            try:
                if self.task_hook is not None:
                    self.task_hook(self, rdd, part, ex)
                out = packed(list(self._iter(rdd, part, ex)))
            finally:
                faults.SUSPENDED -= 1
                ex.stream.leave()
        upd = [(aid, pickle.dumps(a._value)) for aid, a in _accumulatorRegistry.items()]
        _accumulatorRegistry.clear()
        return out, upd

    def _run(self, rdd, partitions):
        """Run a job: one task per partition; returns lists in order."""
        ctl, pf = self._ctl, self._profile
        self.jobs += 1
        if self.jobs > pf["max_jobs"]:
            raise StepBudget("more than %d jobs" % pf["max_jobs"])
        parts = list(range(rdd.getNumPartitions())) if partitions is None else partitions
        # closures are serialised on the driver before anything runs
        r = rdd
        while r is not None:
            if r._func is not None:
                r._command()
            r = r._prev
        job = self.jobs
        pending = list(range(len(parts)))
        tries = {i: 0 for i in pending}
        done, results, running = set(), {}, []
        abort = pf["abort_job"] is not None and job == pf["abort_job"]
        intr = pf["interrupt_job"] is not None and job == pf["interrupt_job"]
        trip_after = ctl.choose(len(parts) + 1) if (abort or intr) else None
        faulty = any(pf[k] for k in ("task_fail", "exec_loss", "evict", "straggle", "dup"))
        guard = 0
        while len(done) < len(parts):
            guard += 1
            if guard > 60 * (len(parts) + 4):
                raise StepBudget("scheduler did not finish job %d" % job)
            if trip_after is not None and len(done) >= trip_after:
                if abort:
                    ctl.fault("job_abort", "job", job, "after", len(done), "tasks")
                    raise SimJobAborted("Job aborted due to stage failure: job %d" % job)
                ctl.fault("driver_interrupt", "job", job, "after", len(done), "tasks")
                raise KeyboardInterrupt()
            # cached block eviction
            if pf["evict"] and self._blocks and ctl.flag(pf["evict"]):
                keys = sorted(self._blocks)
                k = ctl.pick(keys)
                del self._blocks[k]
                ctl.fault("cache_evict", "rdd", k[0], "part", k[1])
            # launch
            idle = [e for e in self._execs if not any(a.ex is e for a in running)]
            if pending and idle:
                ti = pending.pop(ctl.choose(len(pending)))
                ex = idle[ctl.choose(len(idle))]
                self._launch(ti, tries, ex, running, job)
                continue
            if (
                pf["dup"]
                and idle
                and running
                and ctl.flag(pf["dup"])
            ):
                a = ctl.pick(running)
                if a.part not in done and sum(b.part == a.part for b in running) < 2:
                    ctl.fault("speculative_copy", "job", job, "task", a.part)
                    self._launch(a.part, tries, ctl.pick(idle), running, job)
                    continue
            if not running:
                pending = [i for i in range(len(parts)) if i not in done]
                continue
            # executor loss
            if pf["exec_loss"] and ctl.flag(pf["exec_loss"]):
                lost = ctl.pick(self._execs)
                ctl.fault("executor_loss", "job", job, "exec", lost.eid)
                ctl.step("loss", lost.eid)
                # half of the in-flight attempts had already computed
                for a in [a for a in running if a.ex is lost]:
                    if ctl.choose(2):
                        self._attempt(rdd, parts[a.part], a.ex)
                    running.remove(a)
                    if a.part not in done and not any(b.part == a.part for b in running):
                        pending.append(a.part)
                for k in [k for k, v in self._blocks.items() if v[0] == lost.eid]:
                    del self._blocks[k]
                self._execs.remove(lost)
                self._add_exec()
                continue
            # next completion in simulated time
            a = min(running, key=lambda b: (b.finish, b.no, b.ex.eid))
            running.remove(a)
            self.now = max(self.now, a.finish)
            ctl.step("run", a.part, a.ex.eid, a.outcome)
            if a.outcome == "fail_before":
                if a.part not in done:
                    pending.append(a.part)
                continue
            out, upd = self._attempt(rdd, parts[a.part], a.ex)
            if a.outcome == "fail_after":
                if a.part not in done:
                    pending.append(a.part)
                continue
            if a.part in done:
                ctl.fault("late_duplicate_result", "job", job, "task", a.part)
                continue
            done.add(a.part)
            results[a.part] = out
            for aid, v in upd:
                acc = self._acc.get(aid)
                if acc is not None:
                    acc += pickle.loads(v)
        # speculative losers that already started may still run to the end
        for a in running:
            if faulty and ctl.choose(2):
                self._attempt(rdd, parts[a.part], a.ex)
                ctl.fault("late_duplicate_result", "job", job, "task", a.part)
        if len(parts) > 1 and len(self._execs) > 1:
            ctl.nontrivial = True
        return [pickle.loads(results[i]) for i in range(len(parts))]

    def _launch(self, ti, tries, ex, running, job):
        ctl, pf = self._ctl, self._profile
        outcome = "ok"
        # at most 3 injected failures per task: the 4th would abort the job
        if pf["task_fail"] and tries[ti] < 3 and ctl.flag(pf["task_fail"]):
            outcome = "fail_after" if ctl.choose(2) else "fail_before"
            tries[ti] += 1
            ctl.fault("task_" + outcome, "job", job, "task", ti, "exec", ex.eid)
        dur = 1.0 + ctl.choose(8) * 0.25
        if pf["straggle"] and ctl.flag(pf["straggle"]):
            dur *= 20
            ctl.fault("straggler", "job", job, "task", ti)
        ctl.step("launch", ti, ex.eid)
        running.append(Attempt(ti, len(running), ex, max(self.now, ex.free_at) + dur, outcome))
        ctl.sim_time = max(ctl.sim_time, self.now + dur)


def cluster(ctl, faults=True, **over):
    """A simulated cluster with a seeded fault profile."""
    prof = {"executors": 1 + ctl.choose(4)}
    if faults:
        prof["task_fail"] = ctl.pick([0.0, 0.1, 0.3])
        prof["exec_loss"] = ctl.pick([0.0, 0.05, 0.15])
        prof["evict"] = ctl.pick([0.0, 0.1, 0.3])
        prof["straggle"] = ctl.pick([0.0, 0.1])
        prof["dup"] = ctl.pick([0.0, 0.3])
    prof.update(over)
    return SimSparkContext(ctl, prof)
