"""List mutants: python mutgen.py FILE -> list of (line, col, endline, endcol, new, desc, func)"""
import ast,sys,random,json
def gen(path):
    src=open(path).read(); tree=ast.parse(src); lines=src.split('\n')
    offs=[0]
    for l in lines: offs.append(offs[-1]+len(l.encode())+1)
    b=src.encode()
    out=[]
    def seg(n): return (offs[n.lineno-1]+n.col_offset, offs[n.end_lineno-1]+n.end_col_offset)
    def txt(n): s,e=seg(n); return b[s:e].decode()
    def add(s,e,new,desc,n,fn): out.append((s,e,new,desc,n.lineno,fn))
    def islog(n):
        t=txt(n)
        return t.startswith('log.') or t.startswith('print') or t.startswith('sys.stdout')
    def visit(n,fn):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef)):
            fn=(fn+'.' if fn else '')+n.name
        if isinstance(n,ast.Expr):
            if isinstance(n.value,ast.Constant) or islog(n): return
            if isinstance(n.value,ast.Call) and fn:
                s,e=seg(n); add(s,e,'pass','del call: '+txt(n)[:60],n,fn)
        if isinstance(n,(ast.Assign,ast.AugAssign)) and fn:
            t=n.targets[0] if isinstance(n,ast.Assign) else n.target
            if isinstance(t,(ast.Attribute,ast.Subscript)) or isinstance(n,ast.AugAssign):
                s,e=seg(n); add(s,e,'pass','del assign: '+txt(n)[:60],n,fn)
        if isinstance(n,ast.Raise): return
        if fn:
            if isinstance(n,ast.Compare) and len(n.ops)==1:
                op=type(n.ops[0]); m={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.Is:'is not',ast.IsNot:'is'}
                if op in m:
                    s=seg(n.left)[1]; e=seg(n.comparators[0])[0]
                    # keep parens
                    mid=b[s:e].decode()
                    o={ast.Lt:'<',ast.LtE:'<=',ast.Gt:'>',ast.GtE:'>=',ast.Eq:'==',ast.NotEq:'!=',ast.Is:'is',ast.IsNot:'is not'}[op]
                    add(s,e,mid.replace(o,m[op],1),'cmp '+txt(n)[:50]+' -> '+m[op],n,fn)
            if isinstance(n,ast.BinOp):
                m={ast.Add:('+','-'),ast.Sub:('-','+'),ast.Mult:('*','/'),ast.Div:('/','*'),ast.Mod:('%','+'),ast.FloorDiv:('//','/')}
                if type(n.op) in m and not (isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)):
                    o,w=m[type(n.op)]
                    s=seg(n.left)[1]; e=seg(n.right)[0]; mid=b[s:e].decode()
                    if o in mid: add(s,e,mid.replace(o,w,1),'bin '+txt(n)[:50]+' '+o+'->'+w,n,fn)
            if isinstance(n,ast.BoolOp):
                o,w=('and','or') if isinstance(n.op,ast.And) else ('or','and')
                s=seg(n.values[0])[1]; e=seg(n.values[1])[0]; mid=b[s:e].decode()
                if o in mid: add(s,e,mid.replace(o,w,1),'bool '+txt(n)[:50],n,fn)
            if isinstance(n,(ast.If,ast.IfExp,ast.While)) and not (isinstance(n.test,ast.Name) and n.test.id in('print_progress','sanity_checks')):
                s,e=seg(n.test); add(s,e,'(not (%s))'%txt(n.test),'not '+txt(n.test)[:50],n,fn)
            if isinstance(n,ast.Constant):
                v=n.value; s,e=seg(n)
                if v is True: add(s,e,'False','True->False',n,fn)
                elif v is False: add(s,e,'True','False->True',n,fn)
                elif isinstance(v,int): add(s,e,str(v+1),'%d->%d'%(v,v+1),n,fn)
                elif isinstance(v,float) and abs(v)>1e-4: add(s,e,repr(v*2 if v else 1.0),'%g*2'%v,n,fn)
            if isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.USub,ast.Not)):
                s,e=seg(n); add(s,e,'('+txt(n.operand)+')','drop '+txt(n)[:40],n,fn)
            if isinstance(n,ast.Call):
                f=txt(n.func)
                s,e=seg(n)
                if f in('m.H','H') and len(n.args)>=1: add(s,e,'('+txt(n.args[0])+')','drop H: '+txt(n)[:50],n,fn)
                elif isinstance(n.func,ast.Attribute) and n.func.attr in('conj','conjugate','copy','ravel') and not n.args: add(s,e,'('+txt(n.func.value)+')','drop .%s: '%n.func.attr+txt(n)[:50],n,fn)
                elif isinstance(n.func,ast.Attribute) and n.func.attr=='T': pass
                elif len(n.args)>=2 and f not in('range','isinstance','log.warning','log.info','log.debug','sp.zeros','sp.empty','np.zeros','np.empty','setattr','getattr','hasattr'):
                    a0,a1=n.args[0],n.args[1]
                    t0,t1=txt(a0),txt(a1)
                    if t0!=t1 and not isinstance(a0,ast.Starred) and not isinstance(a1,ast.Starred):
                        s0,_=seg(a0);_,e1=seg(a1)
                        add(s0,e1,t1+', '+t0,'swap args: '+txt(n)[:60],n,fn)
                if isinstance(n.func,ast.Name) and n.func.id=='range' and len(n.args)==2:
                    s,e=seg(n.args[1]); add(s,e,'('+txt(n.args[1])+') - 1','range end-1: '+txt(n)[:50],n,fn)
            if isinstance(n,ast.Attribute) and n.attr=='T' and isinstance(n.ctx,ast.Load):
                s,e=seg(n); add(s,e,'('+txt(n.value)+')','drop .T '+txt(n)[:50],n,fn)
        for fld,val in ast.iter_fields(n):
            if fld in('decorator_list','returns'): continue
            for c in (val if isinstance(val,list) else [val]):
                if isinstance(c,ast.AST): visit(c,fn)
    visit(tree,'')
    return b,out
def pick(path,perfn,seed=1):
    b,out=gen(path)
    by={}
    for m in out: by.setdefault(m[5],[]).append(m)
    r=random.Random(seed)
    res=[]
    for fn in by:
        ms=by[fn]; k=min(len(ms),max(2,int(len(ms)*perfn)))
        res+=sorted(r.sample(ms,k))
    return b,res
if __name__=='__main__':
    b,o=gen(sys.argv[1]); print(len(o))
