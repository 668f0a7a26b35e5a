import sys,ast
for f in sys.argv[1:]:
    src=open(f).read(); lines=src.split('\n'); t=ast.parse(src)
    kill=set()
    for n in ast.walk(t):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
            for i in range(n.body[0].lineno,n.body[0].end_lineno+1): kill.add(i)
    print('#####',f)
    for i,l in enumerate(lines,1):
        if i in kill or not l.strip() or l.strip().startswith('#'): continue
        print(i,l)
