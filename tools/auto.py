"""auto.py FILE N SEED CHECKS -> prints list of (id, checks, file, old, new, nth)"""
import ast, random, sys, re
F, N, SEED, CHECKS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
src = open('/repo/'+F).read(); lines = src.split('\n')
cands = []
if F.endswith('.py'):
    tree = ast.parse(src)
    offs=[0]
    for l in lines: offs.append(offs[-1]+len(l.encode())+1)
    bsrc = src.encode()
    def pos(n, end=False): return offs[(n.end_lineno if end else n.lineno)-1] + (n.end_col_offset if end else n.col_offset)
    CMP={ast.Lt:['<='],ast.LtE:['<'],ast.Gt:['>='],ast.GtE:['>'],ast.Eq:['!='],ast.NotEq:['=='],ast.In:['not in']}
    BIN={ast.Add:'-',ast.Sub:'+',ast.Mult:'/',ast.Div:'*',ast.FloorDiv:'/',ast.Mod:'*'}
    infn=[]
    def visit(n, inf, skip=False):
        if isinstance(n,(ast.FunctionDef,)): inf=True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.Raise): return
        if isinstance(n, ast.Call) and (('print' in ast.unparse(n.func)) or 'click' in ast.unparse(n.func) or 'write' in ast.unparse(n.func)): return
        if inf:
            if isinstance(n, ast.Compare) and len(n.ops)==1 and type(n.ops[0]) in CMP:
                a,b=pos(n.left,True),pos(n.comparators[0])
                for o in CMP[type(n.ops[0])]: 
                    mid=bsrc[a:b]
                    t={'Lt':b'<','LtE':b'<=','Gt':b'>','GtE':b'>=','Eq':b'==','NotEq':b'!=','In':b' in '}[type(n.ops[0]).__name__]
                    if t in mid: cands.append((a,b,mid.replace(t,(b' not in ' if o=='not in' else o.encode()),1)))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or (isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left,ast.Constant) and isinstance(n.left.value,str))):
                a,b=pos(n.left,True),pos(n.right); mid=bsrc[a:b]
                t={'Add':b'+','Sub':b'-','Mult':b'*','Div':b'/','FloorDiv':b'//','Mod':b'%'}[type(n.op).__name__]
                if t in mid and b'%' not in mid: cands.append((a,b,mid.replace(t,BIN[type(n.op)].encode(),1)))
            elif isinstance(n, ast.BoolOp):
                a,b=pos(n.values[0],True),pos(n.values[1]); mid=bsrc[a:b]
                if b' and ' in mid: cands.append((a,b,mid.replace(b' and ',b' or ',1)))
                elif b' or ' in mid: cands.append((a,b,mid.replace(b' or ',b' and ',1)))
            elif isinstance(n, ast.Constant) and type(n.value) in (int,float):
                a,b=pos(n),pos(n,True)
                cands.append((a,b,repr(n.value+1).encode()))
                if n.value>0: cands.append((a,b,repr(n.value-1).encode()))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                cands.append((pos(n),pos(n,True),str(not n.value).encode()))
            elif isinstance(n,(ast.If,)):
                a,b=pos(n.test),pos(n.test,True); cands.append((a,b,b'not ('+bsrc[a:b]+b')'))
            elif isinstance(n,(ast.Assign,ast.AugAssign,)) and not isinstance(n, ast.Return) or (isinstance(n,ast.Expr) and isinstance(n.value,ast.Call)):
                a,b=pos(n),pos(n,True)
                if b'\n' not in bsrc[a:b] and (isinstance(n,ast.AugAssign) or isinstance(n,ast.Expr) or any(not isinstance(t,ast.Name) for t in n.targets)): cands.append((a,b,b'pass'))
        for c in ast.iter_child_nodes(n): visit(c,inf)
    visit(tree,False)
else:
    bsrc=src.encode()
    body = re.compile(rb'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|#[^\n]*', re.S)
    mask = body.sub(lambda m: b' '*len(m.group()), bsrc)
    for m in re.finditer(rb'(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>|\+|-|&&|\|\|)(?![=<>+\-&|])', mask):
        t=m.group(1); 
        alt={b'<=':b'<',b'>=':b'>',b'<':b'<=',b'>':b'>=',b'==':b'!=',b'!=':b'==',b'+':b'-',b'-':b'+',b'&&':b'||',b'||':b'&&'}[t]
        cands.append((m.start(1),m.end(1),alt))
    for m in re.finditer(rb'(?<![\w.])(\d+)(?![\w.])', mask):
        cands.append((m.start(1),m.end(1),str(int(m.group(1))+1).encode()))
        if int(m.group(1))>0: cands.append((m.start(1),m.end(1),str(int(m.group(1))-1).encode()))
    for m in re.finditer(rb'\n[ \t]+([\w\[\]\->.*+ ]+\s*(?:=|\+=)[^=;\n][^;\n]*);', mask):
        cands.append((m.start(1),m.end(1),b''))
    rng=None
random.seed(SEED)
lo=int(sys.argv[5]) if len(sys.argv)>5 else 1; hi=int(sys.argv[6]) if len(sys.argv)>6 else 10**9
cands=[c for c in cands if lo<=bsrc[:c[0]].count(b'\n')+1<=hi]
random.shuffle(cands)
out=[]; seen=set()
for a,b,new in cands:
    ln=bsrc[:a].count(b'\n')+1
    if ln in seen: continue
    seen.add(ln)
    la=bsrc.rfind(b'\n',0,a)+1; lb=bsrc.find(b'\n',b)
    old=bsrc[la:lb].decode(); nw=(bsrc[la:a]+new+bsrc[b:lb]).decode()
    if 'printf' in old or 'logger' in old or 'sleep' in old or 'ERROR' in old or 'free' in old or 'malloc' in old or 'RETURN_ERROR' in old: continue
    nth=-ln
    out.append(('%s-%d'%(F.split('/')[-1].split('.')[0][:6],ln),CHECKS,F,old,nw,nth))
    if len(out)>=N: break
print('MUTANTS='+repr(out))
