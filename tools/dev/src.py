import sys,subprocess,re
f=sys.argv[1]; a,b=(list(map(int,sys.argv[2].split(','))) if len(sys.argv)>2 else (1,10**6))
L=subprocess.check_output(['git','blame','-s','8a93b1d..HEAD','--',f],text=True).splitlines()
import ast
src=open(f).read(); doc=set()
for n in ast.walk(ast.parse(src)):
    if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
        doc|=set(range(n.body[0].lineno,n.body[0].end_lineno+1))
for i,l in enumerate(L,1):
    if i in doc or not(a<=i<=b): continue
    code=re.sub(r'^\S+\s+(?:\S+\s+)?\d+\)\s?','',l)
    if code.strip()=='' : continue
    print(i,'' if l.startswith('^') else 'FIX',code)
