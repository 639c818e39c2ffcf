"""mut.py SEED COUNT OUT [filefilter]: seeded random mutants, run the checks' workers on them."""
import tempfile, ast, random, sys, os, shutil, subprocess, json, concurrent.futures as cf
SRC='/repo/src/graph_ensembles'
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS={'spark/models.py':['C02','C01','C04','C03','C08','C05','C13','C06'],
 'models.py':['C08','C10','C11','C14','C13','C05','C06','C09'],
 'graphs.py':['C15','C10','C07','C09','C13'],
 'sparse/graphs.py':['C15','C10','C07','C16','C12','C04','C09'],
 'solver.py':['C14','C03'],
 'lib.py':['C16'],
 'sparse/models/ensembles.py':['C08','C10','C11','C14','C13','C01','C02','C05','C06','C09'],
 'sparse/models/fitness.py':['C08','C10','C11','C14','C13','C01','C03','C05','C06','C09'],
 'sparse/models/invariant.py':['C08','C10','C11','C14','C13','C01','C03'],
 'sparse/models/random.py':['C08','C10','C11','C14','C13','C01'],
 'sparse/models/conditional.py':['C12','C08','C14','C10','C05','C06']}
RUNS={'C01':500,'C02':500,'C03':250,'C04':250,'C05':250,'C06':200,'C07':300,'C08':600,'C09':250,'C10':400,'C11':60,'C12':250,'C13':300,'C14':500,'C15':600,'C16':250}
SW={ast.Lt:[ast.LtE],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE],ast.GtE:[ast.Gt],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is]}
BS={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Div,ast.Div:ast.Mult}
def isval(node):  # validation code
    return isinstance(node,(ast.Raise,ast.Assert)) or (isinstance(node,ast.If) and any(isinstance(x,(ast.Raise,)) for x in node.body) )
def sites(tree):
    out=[]
    def walk(n,infn):
        if isval(n): return
        if isinstance(n,(ast.FunctionDef,)):
            for d in n.body: walk(d,True)
            return
        if infn:
            if isinstance(n,ast.Compare) and type(n.ops[0]) in SW: out.append(('cmp',n))
            if isinstance(n,ast.BinOp) and type(n.op) in BS and not (isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)): out.append(('bin',n))
            if isinstance(n,ast.BoolOp): out.append(('bool',n))
            if isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.Not,ast.USub)): out.append(('un',n))
            if isinstance(n,ast.Constant) and (n.value is True or n.value is False or (isinstance(n.value,(int,float)) and n.value in (0,1,2))): out.append(('const',n))
            if isinstance(n,(ast.Assign,ast.AugAssign)) or (isinstance(n,ast.Expr) and isinstance(n.value,ast.Call)): out.append(('del',n))
            if isinstance(n,ast.Name) and n.id in PAIRS: out.append(('name',n))
            if isinstance(n,ast.Attribute) and n.attr in PAIRS: out.append(('attr',n))
            if isinstance(n,ast.Constant) and isinstance(n.value,str) and n.value in ('out','in','out-in'): out.append(('str',n))
        for c in ast.iter_child_nodes(n): walk(c,infn)
    walk(tree,False)
    return out
PAIRS={'prop_out':'prop_in','prop_in':'prop_out','i':'j','j':'i','exp_out_d':'exp_in_d','p_ij':'p_ji','p_ji':'p_ij','src':'dst','dst':'src','out_strength':'in_strength','in_strength':'out_strength','s_out':'s_in','s_in':'s_out'}
def mutate(src,rnd):
    tree=ast.parse(src); ss=sites(tree); kind,n=rnd.choice(ss)
    seg=ast.get_source_segment(src,n)
    if kind=='cmp': n.ops[0]=rnd.choice(SW[type(n.ops[0])])()
    elif kind=='bin': n.op=BS[type(n.op)]()
    elif kind=='bool': n.op=ast.And() if isinstance(n.op,ast.Or) else ast.Or()
    elif kind=='un':
        n2=n.operand; n.op=ast.UAdd() if isinstance(n.op,ast.USub) else n.op
        if isinstance(n.op,ast.Not): n.operand=ast.UnaryOp(ast.Not(),n2)
    elif kind=='const':
        n.value=(not n.value) if isinstance(n.value,bool) else n.value+1
    elif kind=='name': n.id=PAIRS[n.id]
    elif kind=='attr': n.attr=PAIRS[n.attr]
    elif kind=='str': n.value=rnd.choice([x for x in ('out','in','out-in') if x!=n.value])
    new=None
    if kind=='del': new='pass'
    else: new=ast.unparse(n)
    # splice textually
    lines=src.split('\n'); 
    def off(l,c): return sum(len(x)+1 for x in lines[:l-1])+len(lines[l-1].encode()[:c].decode())
    a,b=off(n.lineno,n.col_offset),off(n.end_lineno,n.end_col_offset)
    if kind in('cmp','bin','bool','un'): new='('+new+')'
    out=src[:a]+new+src[b:]
    try: ast.parse(out)
    except SyntaxError: return None
    return out,kind,n.lineno,seg,new
def job(args):
    k,seed,filt=args
    rnd=random.Random(seed*100003+k)
    files=[f for f in PROPS if filt in f] if filt else list(PROPS)
    w=[len(open(os.path.join(SRC,f)).read()) for f in files]
    f=rnd.choices(files,w)[0]
    src=open(os.path.join(SRC,f)).read()
    m=None
    while m is None: m=mutate(src,rnd)
    out,kind,line,old,new=m
    d=os.path.join(tempfile.gettempdir(),'ge-mutant-%d-%d'%(seed,k))
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/src')
    shutil.copytree(SRC,d+'/src/graph_ensembles',ignore=shutil.ignore_patterns('__pycache__'))
    open(d+'/src/graph_ensembles/'+f,'w').write(out)
    res={'k':k,'file':f,'line':line,'kind':kind,'old':old,'new':new,'by':None}
    env=dict(os.environ,GE_SIM_REPO=d,NUMBA_DISABLE_JIT='1',PYTHONHASHSEED='0',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1')
    errs=[]
    for p in PROPS[f]:
        o=d+'/o.json'
        try:
            r=subprocess.run(['/opt/venv/bin/python','-B',V+'/check.py','--worker',p,'int',str(900000+k*1000),str(RUNS[p]),'1',o,'120'],cwd=V,env=env,capture_output=True,text=True,timeout=240)
        except subprocess.TimeoutExpired:
            res['by']=p+':timeout'; break
        try: j=json.load(open(o))
        except Exception: errs.append(p+':'+r.stderr[-300:]); continue
        finally:
            if os.path.exists(o): os.unlink(o)
        if j['violation']: res['by']=p; res['why']=j['violation']['detail'][:160]; break
        if j['errors']: errs.append(p+':'+str(j['errors'][0]['error'])[-300:])
    if errs: res['errs']=errs
    if res['by'] is not None or True: shutil.rmtree(d,ignore_errors=True)
    return res
if __name__=='__main__':
    seed,count,outp=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]; filt=sys.argv[4] if len(sys.argv)>4 else ''
    with cf.ThreadPoolExecutor(8) as ex, open(outp,'a') as fo:
        for r in ex.map(job,[(k,seed,filt) for k in range(count)]):
            fo.write(json.dumps(r)+'\n'); fo.flush()
