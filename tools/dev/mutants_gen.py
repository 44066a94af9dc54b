"""Generate mutants: json list of {file, line, start, end, new, kind, func}."""
import ast, json, sys, random, subprocess
FILES=["ocbpy/_boundary.py","ocbpy/cycle_boundary.py","ocbpy/ocb_time.py","ocbpy/ocb_correction.py","ocbpy/ocb_scaling.py","ocbpy/vectors.py","ocbpy/boundaries/files.py","ocbpy/boundaries/dmsp_ssj_files.py","ocbpy/instruments/general.py","ocbpy/instruments/supermag.py","ocbpy/instruments/vort.py","ocbpy/instruments/pysat_instruments.py"]
out=[]
for f in FILES:
    src=open('/repo/'+f).read(); tree=ast.parse(src)
    lines=src.splitlines(True); offs=[0]
    for l in lines: offs.append(offs[-1]+len(l))
    blame=subprocess.check_output(['git','-C','/repo','blame','-s','8a93b1d..HEAD','--',f],text=True).splitlines()
    orig=[b.startswith('^') for b in blame]
    pos=lambda l,c: offs[l-1]+c
    seg=lambda n: src[pos(n.lineno,n.col_offset):pos(n.end_lineno,n.end_col_offset)]
    skip=set()
    def add(n,new,kind,func):
        out.append(dict(file=f,line=n.lineno,start=pos(n.lineno,n.col_offset),end=pos(n.end_lineno,n.end_col_offset),old=seg(n),new=new,kind=kind,func=func,orig=orig[n.lineno-1]))
    CMP={ast.Lt:['<=','>='],ast.LtE:['<','>'],ast.Gt:['>=','<='],ast.GtE:['>','<'],ast.Eq:['!='],ast.NotEq:['=='],ast.Is:['is not'],ast.IsNot:['is'],ast.In:['not in'],ast.NotIn:['in']}
    BIN={ast.Add:['-'],ast.Sub:['+'],ast.Mult:['/'],ast.Div:['*'],ast.BitAnd:['|'],ast.BitOr:['&'],ast.Pow:['*'],ast.FloorDiv:['/'],ast.Mod:['*']}
    NAMES={'any':'all','all':'any','nanmax':'nanmin','nanmin':'nanmax','less':'less_equal','less_equal':'less','greater':'greater_equal','greater_equal':'greater','cos':'sin','sin':'cos','min':'max','max':'min','array':'asarray','unique':'array'}
    def walk(n,func,depth=0):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef)):
            func=(func+'.' if func else '')+n.name
        if isinstance(n,ast.Raise): return
        if isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and isinstance(n.func.value,ast.Name) and n.func.value.id=='logger': return
        if isinstance(n,ast.Call) and seg(n.func).endswith(('logger.warning','logger.info','logger.error')): return
        if isinstance(n,(ast.Import,ast.ImportFrom)): return
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): return
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            l,r=seg(n.left),seg(n.comparators[0])
            for op in CMP.get(type(n.ops[0]),[]):
                add(n,'(%s %s %s)'%(l,op,r),'cmp',func)
        if isinstance(n,ast.BinOp) and not (isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)):
            for op in BIN.get(type(n.op),[]):
                add(n,'((%s) %s (%s))'%(seg(n.left),op,seg(n.right)),'bin',func)
        if isinstance(n,ast.BoolOp):
            op=' or ' if isinstance(n.op,ast.And) else ' and '
            add(n,'('+op.join('(%s)'%seg(v) for v in n.values)+')','bool',func)
            for i in range(len(n.values)):
                o2=' and ' if isinstance(n.op,ast.And) else ' or '
                rest=[v for j,v in enumerate(n.values) if j!=i]
                add(n,'('+o2.join('(%s)'%seg(v) for v in rest)+')','booldrop',func)
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.Not,ast.Invert,ast.USub)):
            add(n,'(%s)'%seg(n.operand),'unary',func)
        if isinstance(n,ast.Constant) and func:
            v=n.value
            if isinstance(v,bool): add(n,str(not v),'const',func)
            elif isinstance(v,int): add(n,str(v+1),'const',func)
            elif isinstance(v,float): add(n,repr(v*1.01+0.01 if v else 1.0),'const',func)
        if isinstance(n,ast.Call):
            fn=n.func
            nm=fn.attr if isinstance(fn,ast.Attribute) else fn.id if isinstance(fn,ast.Name) else ''
            if nm in NAMES and isinstance(fn,ast.Attribute) and isinstance(fn.value,ast.Name) and fn.value.id=='np':
                add(fn,'np.'+NAMES[nm],'name',func)
            elif nm in ('min','max') and isinstance(fn,ast.Name): add(fn,NAMES[nm],'name',func)
            if nm in ('abs','float','lower','upper','strip','int','sorted','list','dict') and len(n.args)==1 and isinstance(fn,ast.Name):
                add(n,'(%s)'%seg(n.args[0]),'unwrap',func)
            if nm in ('lower','upper','strip','flatten','copy') and isinstance(fn,ast.Attribute) and not n.args:
                add(n,'(%s)'%seg(fn.value),'unwrap',func)
            for k in n.keywords:
                if k.arg and func and nm not in('format','dict'):
                    # drop the keyword
                    parts=[seg(a) for a in n.args]+['%s%s'%((q.arg+'=') if q.arg else '**',seg(q.value)) for q in n.keywords if q is not k]
                    add(n,'%s(%s)'%(seg(fn),', '.join(parts)),'kwdrop',func)
        if isinstance(n,ast.IfExp):
            add(n,'(%s)'%seg(n.body),'ifexp',func); add(n,'(%s)'%seg(n.orelse),'ifexp',func)
        if isinstance(n,ast.If):
            add(n.test,'True','if',func); add(n.test,'False','if',func)
        if isinstance(n,(ast.Assign,ast.AugAssign)) and func and '.' not in func*0:
            add(n,'pass','delstmt',func)
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call): add(n,'pass','delstmt',func)
        if isinstance(n,(ast.Break,ast.Continue)): add(n,'pass','delstmt',func)
        for c in ast.iter_child_nodes(n): walk(c,func)
    walk(tree,'')
# drop duplicates / no-change
seen=set(); res=[]
for m in out:
    k=(m['file'],m['start'],m['end'],m['new'])
    if k in seen or m['old']==m['new']: continue
    seen.add(k); res.append(m)
ok=[]
for m in res:
    src=open('/repo/'+m['file']).read(); new=src[:m['start']]+m['new']+src[m['end']:]
    try: compile(new,'x','exec'); ok.append(m)
    except SyntaxError: pass
random.Random(5).shuffle(ok)
for i,m in enumerate(ok): m['id']=i
json.dump(ok,open('/tmp/mt/mutants.json','w'))
from collections import Counter
print(len(ok),sum(m['orig'] for m in ok),Counter(m['file'] for m in ok),Counter(m['kind'] for m in ok))
