import ast,sys,glob
class F(ast.NodeTransformer):
    def visit_BinOp(s,n):
        s.generic_visit(n)
        # (a*b)/c -> a*(b/c)
        if isinstance(n.op,ast.Div) and isinstance(n.left,ast.BinOp) and isinstance(n.left.op,ast.Mult):
            return ast.BinOp(n.left.left,ast.Mult(),ast.BinOp(n.left.right,ast.Div(),n.right))
        if isinstance(n.op,ast.Div) and isinstance(n.right,ast.Constant) and isinstance(n.right.value,(int,float)):
            return ast.BinOp(n.left,ast.Mult(),ast.Constant(1.0/n.right.value))
        # a+b+c -> a+(b+c)
        if isinstance(n.op,(ast.Add,)) and isinstance(n.left,ast.BinOp) and isinstance(n.left.op,ast.Add) and not any(isinstance(x,ast.Constant) and isinstance(x.value,str) for x in ast.walk(n)):
            return ast.BinOp(n.left.left,ast.Add(),ast.BinOp(n.left.right,ast.Add(),n.right))
        return n
    def visit_Call(s,n):
        s.generic_visit(n)
        if isinstance(n.func,ast.Attribute) and n.func.attr=='radians' and isinstance(n.func.value,ast.Name) and n.func.value.id=='np':
            return ast.parse('(%s)*(np.pi/180.0)'%ast.unparse(n.args[0]),mode='eval').body
        if isinstance(n.func,ast.Attribute) and n.func.attr=='degrees' and isinstance(n.func.value,ast.Name) and n.func.value.id=='np':
            return ast.parse('(%s)*(180.0/np.pi)'%ast.unparse(n.args[0]),mode='eval').body
        return n
d=sys.argv[1]
for f in glob.glob(d+'/ocbpy/**/*.py',recursive=True):
    if '/tests/' in f or f.endswith('__init__.py'): continue
    t=F().visit(ast.parse(open(f).read())); ast.fix_missing_locations(t)
    open(f,'w').write(ast.unparse(t)+'\n')
