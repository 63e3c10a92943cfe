import ast,sys,io,tokenize
for f in sys.argv[1:]:
    src=open(f).read(); t=ast.parse(src); drop=set()
    for n in ast.walk(t):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module,ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
            drop.update(range(n.body[0].lineno,n.body[0].end_lineno+1))
    print('=====',f)
    for i,l in enumerate(src.split('\n'),1):
        if i in drop or not l.strip() or l.strip().startswith('#'): continue
        print(i,l)
