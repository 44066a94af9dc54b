"""Automatic behaviour-preserving rewriting of every function."""
import ast,sys,glob,os
class Fn(ast.NodeTransformer):
    def __init__(s): s.n=0
    def tmp(s): s.n+=1; return '_t%d'%s.n
    def visit_If(s,node):
        s.generic_visit(node)
        if node.orelse and not (len(node.orelse)==1 and isinstance(node.orelse[0],ast.If)):
            return ast.If(test=ast.UnaryOp(ast.Not(),node.test),body=node.orelse,orelse=node.body)
        t=s.tmp()
        # hoist the test only if not an elif (handled by parent: elif nodes have orelse chain)
        return node
    def visit_Return(s,node):
        s.generic_visit(node)
        if node.value is None or isinstance(node.value,(ast.Name,ast.Constant)): return node
        t=s.tmp()
        return [ast.Assign(targets=[ast.Name(t,ast.Store())],value=node.value),ast.Return(ast.Name(t,ast.Load()))]
    def visit_For(s,node):
        s.generic_visit(node)
        t=s.tmp()
        return [ast.Assign(targets=[ast.Name(t,ast.Store())],value=node.iter),ast.For(target=node.target,iter=ast.Name(t,ast.Load()),body=node.body,orelse=node.orelse)]
    def visit_Compare(s,node):
        s.generic_visit(node)
        m={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE}
        if len(node.ops)==1 and type(node.ops[0]) in m and simple(node.left) and simple(node.comparators[0]):
            return ast.Compare(left=node.comparators[0],ops=[m[type(node.ops[0])]()],comparators=[node.left])
        return node
    def visit_FunctionDef(s,node):
        if node.name.startswith('__') : return node
        s.generic_visit(node)
        return node
    def visit_Lambda(s,node): return node
    def visit_ListComp(s,node): return node
    def visit_GeneratorExp(s,node): return node
def simple(n): return not any(isinstance(x,(ast.Call,ast.Lambda)) for x in ast.walk(n))
class Rename(ast.NodeTransformer):
    def visit_FunctionDef(s,node):
        nested=any(isinstance(x,(ast.FunctionDef,ast.Lambda,ast.ListComp,ast.DictComp,ast.GeneratorExp,ast.SetComp)) for b in node.body for x in ast.walk(b) if isinstance(x,(ast.FunctionDef,ast.Lambda)))
        uses=any(isinstance(x,ast.Name) and x.id in('locals','eval','exec') for x in ast.walk(node))
        glob_=any(isinstance(x,(ast.Global,ast.Nonlocal)) for x in ast.walk(node))
        if nested or uses or glob_:
            return node
        args={a.arg for a in node.args.args+node.args.kwonlyargs+node.args.posonlyargs}
        if node.args.vararg: args.add(node.args.vararg.arg)
        if node.args.kwarg: args.add(node.args.kwarg.arg)
        loc={x.id for b in node.body for x in ast.walk(b) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}-args
        imp={(a.asname or a.name).split('.')[0] for b in node.body for x in ast.walk(b) if isinstance(x,(ast.Import,ast.ImportFrom)) for a in x.names}
        exc={x.name for b in node.body for x in ast.walk(b) if isinstance(x,ast.ExceptHandler) and x.name}
        loc-=imp|exc
        class R(ast.NodeTransformer):
            def visit_Name(r,n):
                if n.id in loc: n.id='loc_'+n.id
                return n
        node.body=[R().visit(b) for b in node.body]
        return node
d=sys.argv[1]
for f in glob.glob(d+'/ocbpy/**/*.py',recursive=True):
    if '/tests/' in f or f.endswith('__init__.py'): continue
    t=ast.parse(open(f).read())
    t=Rename().visit(Fn().visit(t))
    ast.fix_missing_locations(t)
    open(f,'w').write(ast.unparse(t)+'\n')
