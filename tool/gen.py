"""Build one Verus file for a set of functions from the current sources."""
import os, sys, glob, re, json
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from ctypes_ import *
import ctypes_ as CT
import xlate, specs
from xlate import AST, Translator, FnTrans, fn_body, fn_sig, kids

VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('LHF_REPO','/repo')

def struct_fields(ast,file,name):
    """fields of a plain struct/class as declared in the sources"""
    for o in ast.load(file,name):
        if o.get('kind')=='CXXRecordDecl' and o.get('name')==name and o.get('completeDefinition'):
            return o
    raise Unsupported('record %s not found'%name)

SITES={}
def base_sites():
    p=os.path.join(VERIF,'contracts','sites.json')
    if not SITES and '--shapes' not in sys.argv and os.path.exists(p): SITES.update(json.load(open(p)))
    return SITES

class Gen:
    def __init__(self, repo=REPO):
        CT.OWNED_PTR.clear(); CT.HEAP.clear(); CT.SPVAL.clear(); CT.TYPEDEFS.clear(); CT.DYN.clear(); CT.FNPTR.clear()
        self.repo=repo; CT.RESOLVE.clear()
        self.scan_aliases(); 
        incs=[os.path.join(repo,d) for d in('Utils','Complex','Pipes','Preprocessing')]+['/usr/lib/x86_64-linux-gnu/mpi/include','/usr/lib/x86_64-linux-gnu/openmpi/include']
        self.ast=AST(repo,'/tmp',[i for i in incs if os.path.isdir(i)])
        self.specs=[]
        for f in sorted(glob.glob(VERIF+'/contracts/*.vc')): self.specs+=specs.load(f)
        self.by={s.rust:s for s in self.specs}
        self.T=Translator(self.ast,self.specs,{})
        T=self.T
        T.drop_methods={'writeLog','writeDebug','writeError','outputData','print2DVector','print1DVector','print1DSet'}
        T.extra_drop_types={'utils','basePipe_drop','ofstream','basic_ofstream'}
        T.globals={};T.bases={};T.dyn={};T.virtuals={};T.externs={};T.newcls={};T.rust2cxx={};T.called=set();T.heap_expr='HEAP';T.inject={}
        T.ret_type=self.ret_type; T.callee_decl=self.callee_decl; T.callee_ret=self.callee_ret; T.global_type=self.global_type; T.inline_decl=self.inline_decl
        T.cls_of=lambda s: s.cxx.split('::')[0]
        self._d={}
        CT.RESOLVE.append(self.alias)
        for s in self.specs:
            if s.extra.get('sigtxt') is not None: s.sig=[parse(x) for x in s.extra['sigtxt'].split(';') if x.strip()]
    def callee_decl(self,spec):
        if spec.rust not in self._d: self._d[spec.rust]=self.T.find_decl(spec.file,spec.cxx,spec.sig)
        return self._d[spec.rust]
    def callee_ret(self,spec):
        return self.ret_type(spec.file,self.callee_decl(spec)) if spec.selfmode!='ctor' else Ty('struct',name=spec.cxx.split('::')[0])
    def scan_aliases(self):
        """names introduced by using/typedef in the sources (text scan; the meaning comes from the AST)"""
        self.alias_files={}
        for d in('Utils','Complex','Pipes','Preprocessing'):
            for f in sorted(glob.glob('%s/%s/*'%(self.repo,d))):
                if not f.endswith(('.hpp','.cpp')): continue
                for m in re.finditer(r'\busing\s+(\w+)\s*=|\btypedef\b[^;]*?\b(\w+)\s*;',open(f,errors='replace').read()):
                    c=f if f.endswith('.cpp') else f[:-4]+'.cpp'
                    if os.path.exists(c): self.alias_files.setdefault(m.group(1) or m.group(2),set()).add(os.path.relpath(c,self.repo))
    def alias(self,name):
        r=set()
        for f in sorted(self.alias_files.get(name,[])):
            for o in self.ast.load(f,name):
                if o.get('kind') in('TypedefDecl','TypeAliasDecl') and o.get('name')==name: r.add(o['type'].get('desugaredQualType') or o['type']['qualType'])
        if not r: return None
        if len({repr(parse(x)) for x in r})>1: raise Unsupported('ambiguous type alias '+name)
        return sorted(r)[0]
    def global_decl(self,file,name):
        for o in self.ast.load(file,name):
            if o.get('kind')=='VarDecl' and o.get('name')==name and o.get('init'): return o
        raise Unsupported('global %s not found'%name)
    def global_file(self,file,name):
        """source file that defines a global: the function's own one, else the first that mentions it and defines it"""
        c=[file]
        for d in('Utils','Complex','Pipes','Preprocessing'):
            for f in sorted(glob.glob('%s/%s/*.cpp'%(self.repo,d))):
                if re.search(r'\b%s\b'%re.escape(name),open(f,errors='replace').read()): c.append(os.path.relpath(f,self.repo))
        for f in c:
            try: self.global_decl(f,name); return f
            except Unsupported: pass
        raise Unsupported('global %s not found'%name)
    def global_type(self,file,name):
        if name=='disk':
            from ctypes_ import Ty
            return Ty('disk')
        return ty_of(self.global_decl(self.global_file(file,name),name)).base()
    def global_init(self,file,name):
        """spec-level value of a global std::map<string,string>, from its initialiser"""
        lits=[]
        def walk(n):
            if n.get('kind')=='StringLiteral': lits.append(n['value'])
            elif n.get('kind') in('CallExpr','CXXMemberCallExpr','ConditionalOperator','BinaryOperator'): raise Unsupported('initialiser of '+name)
            for c in n.get('inner',[]):
                if c: walk(c)
        o=self.global_decl(self.global_file(file,name),name); walk(o)
        if self.global_type(file,name).rust()!='CMap<CStr,CStr>' or len(lits)%2: raise Unsupported('initialiser of '+name)
        t='Map::<CStr,CStr>::empty()'
        for i in range(len(lits)-2,-1,-2): t+='.insert(lit(%s), lit(%s))'%(lits[i],lits[i+1])   # the first of two equal keys is kept
        return 'pub open spec fn init_%s() -> Map<CStr,CStr> { %s }'%(name,t)
    def ret_type(self,file,d):
        if d['kind']=='CXXConstructorDecl': return Ty('void')
        q=d['type']['qualType'].split('(')[0].strip()
        if d['kind']=='CXXConversionDecl' and not q: q=d['type']['qualType']
        t=parse(q)
        return t
    def inline_decl(self,spec,cls,name,argn):
        """definition of a helper that has no contract (same file, else the shared utilities)"""
        if not name or (name.startswith('operator') and not name.startswith('operator ')) or name.startswith('_'): return None
        for f in [spec.file,'Utils/utils.cpp','Preprocessing/streamingUtils.cpp','Complex/simplexBase.cpp']:
            if not os.path.exists(os.path.join(self.repo,f)): continue
            c=[]
            for o in self.ast.load(f,name):
                if o.get('kind') in('CXXMethodDecl','FunctionDecl','CXXConversionDecl') and o.get('name')==name and fn_body(o):
                    loc=json.dumps(o.get('loc',{}))
                    if len([p for p in o.get('inner',[]) if p.get('kind')=='ParmVarDecl'])==len(argn) and '/usr/' not in loc: c.append(o)
            if len(c)==1: return c[0]
            if len(c)>1:
                c2=[]
                for o in c:
                    try:
                        if all(x.base()==ty_of(y).base() for x,y in zip(fn_sig(o),argn)): c2.append(o)
                    except Unsupported: pass
                return c2[0] if c2 else c[0]
        return None
    def member_init(self,f,t):
        """default member initialiser, when it is a literal"""
        k=kids(f)
        if not f.get('hasInClassInitializer') or not k: return None
        try:
            ft=FnTrans(self.T,specs.FnSpec(),f); v=ft.ex(k[0])
            return ft.conv(v,t)
        except Exception: return None
    def load_struct(self,file,name,only=None,rust=None):
        """fields of a class, base classes first"""
        fs=[];drop=[]
        def add(nm):
            o=struct_fields(self.ast,file,nm)
            for bs in o.get('bases',[]): 
                bn=bs['type'].get('desugaredQualType') or bs['type']['qualType']
                self.T.bases.setdefault(nm,[]).append(bn); add(bn)
            for f in o['inner']:
                if f.get('kind')!='FieldDecl': continue
                try:
                    t=ty_of(f); r=t.rust()
                    if t.k=='struct' and (t.name in self.T.extra_drop_types or t.name not in self.T.structs): raise Unsupported('')
                    if t.k in('iter','riter'): raise Unsupported('')
                    if only is not None and f['name'] not in only: raise Unsupported('')
                    fs[:]=[x for x in fs if x[0]!=f['name']]
                    fs.append((f['name'],t.base(),self.member_init(f,t)))
                except Unsupported: drop.append(f['name'])
        add(name)
        fs+=self.T.inject.get(name,[])
        if drop: self.T.notes.add('fields of %s not modelled: %s'%(name,', '.join(drop)))
        self.T.structs[name]=fs
        r=rust or cap(name); self.T.rust2cxx[r]=name
        return ['pub struct %s {'%r]+['    pub %s: %s,'%(xlate.rid(n),t.rust()) for n,t,_ in fs]+['}']
    def build(self, roots, libs, structs, out, extra_text='', setup=None):
        """emit the functions `roots` and, transitively, every contracted callee"""
        T=self.T; lines=[]; stext=[]
        if setup: setup(self)
        for s in structs: stext+=self.load_struct(*s)
        done={};todo=list(roots);order=[];fails={};stubs=[];ft=None
        while todo:
            r=todo.pop(0)
            if r in done: continue
            done[r]=None; ft=None
            s=self.by[r]
            try:
                ft,lines=self.translate(T,s,r); txt=[y for x in lines for y in x.split('\n')]
                done[r]=(txt,ft); order.append(r)
            except Unsupported as e:
                fails[r]=str(e)
                try: done[r]=(ft.stub(),ft); stubs.append(r)
                except Exception: pass
                continue
            for a,b in sorted(T.called):
                if a==r and b not in done: todo.append(b)
        L=['#![allow(unused,nonstandard_style,deprecated)]','#[path="%s/lib/stl.rs"] mod stl;'%VERIF,'use stl::*;','use vstd::prelude::*;','use vstd::seq_lib::*;','use vstd::set_lib::*;','use vstd::multiset::*;','verus! {','broadcast use stl_axioms;']
        for l in libs:
            L+=['// ---- %s'%l]+open(os.path.join(VERIF,'contracts',l)).read().split('\n')
        L+=stext
        L+=extra_text.split('\n')
        gs=set()
        for r in order+stubs:
            for gname in self.by[r].extra.get('globals',[]):
                if gname!='disk': gs.add((self.global_file(self.by[r].file,gname),gname))
        for f,gname in sorted(gs):
            L.append(self.global_init(f,gname))
        spans={}
        for r in stubs: L+=['// ---- contract only (body not extracted): %s'%self.by[r].cxx]+done[r][0]+['']
        for r in order:
            a=len(L)+1
            L+=['// ---- extracted from %s: %s'%(self.by[r].file,self.by[r].cxx)]+done[r][0]+['']
            spans[r]=(a,len(L))
        if any('ax_lits()' in x for x in L):
            # string literals with different texts are different values
            ls=sorted({m for x in L for m in re.findall(r'\blit\(("[^"\\]*")\)',x)})
            L+=['pub uninterp spec fn lit_id(c: CStr) -> int;','pub axiom fn ax_lits() ensures '+', '.join('lit_id(lit(%s)) == %d'%(x,i) for i,x in enumerate(ls))+';']
        L+=['}','fn main(){}','']
        open(out,'w').write('\n'.join(L))
        return order,spans,fails,{r:done[r][1] for r in order}

    def translate(self,T,s,r):
        d=self.callee_decl(s); err=None
        ft=FnTrans(T,s,d)
        try: out=ft.run()
        except Unsupported as e: err=e
        rm=specs.align(base_sites().get(r),ft.sites)
        if rm and any(k.startswith(('if.','return.')) for k in s.anch):
            f2=FnTrans(T,s,d); f2.remap=rm
            try: return f2,f2.run()
            except Unsupported: pass
        if err: raise err
        return ft,out
    def vacuity(self, order, fts, gpath, out, spans):
        """copy of the generated file in which every contracted function must prove `false`"""
        L=open(gpath).read().split('\n')
        self.vacspans={}
        names=[]
        while L[-1].strip() in ('','fn main(){}'): L.pop()
        assert L[-1]=='}'; L.pop()
        for r in order:
            a,b=spans[r]
            c=L[a-1:b]
            for i in range(len(c)):
                if c[i].startswith('pub fn %s('%r):
                    c[i]=c[i].replace('pub fn %s('%r,'pub fn vac_%s('%r,1)
                    j=i+1
                    while c[j].strip()!='ensures' and c[j]!='{' and not c[j].startswith('    decreases'): j+=1
                    if c[j].strip()=='ensures':
                        k=j+1
                        while c[k]!='{' and not c[k].startswith('    decreases'): k+=1
                        c[j:k]=['    ensures false,']
                    else: c[j:j]=['    ensures false,']
                    names.append(r); break
            self.vacspans[r]=(len(L)+1,len(L)+len(c))
            L+=c
        L+=['}','fn main(){}','']
        open(out,'w').write('\n'.join(L))
        return names

if __name__=='__main__':
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument('roots',nargs='*'); ap.add_argument('-o',default='/tmp/vt/out.rs'); ap.add_argument('-l',default='base.rs'); ap.add_argument('-s',default='')
    ap.add_argument('-p',default='')
    ap.add_argument('--shapes',action='store_true',help='record the loop structure of every contracted function of the registered properties')
    a=ap.parse_args()
    if a.shapes:
        import props
        r={}; st={}; SITES.clear()
        for p,c in props.PROPS.items():
            if not c.get('roots'): continue
            g=Gen(); o,sp,f,ft=g.build(c['roots'],c.get('libs',['base.rs']),c.get('structs',[]),'/tmp/shapes.rs',c.get('extra',''),setup=c.get('setup'))
            if f: print(p,f)
            for k in o: r[k]=ft[k].shape_str(); st[k]={a:[t for n,t in sorted(b)] for a,b in ft[k].sites.items()}
        os.remove('/tmp/shapes.rs')
        json.dump(st,open(VERIF+'/contracts/sites.json','w'),indent=0,sort_keys=True)
        json.dump(r,open(VERIF+'/contracts/shapes.json','w'),indent=0,sort_keys=True); print(len(r)); sys.exit(0)
    if a.p:
        import props
        c=props.PROPS[a.p]; g=Gen(); o,sp,f,_=g.build(a.roots or c['roots'],c.get('libs',['base.rs']),c.get('structs',[]),a.o,c.get('extra',''),setup=c.get('setup'))
        for k,v in f.items(): print('FAIL',k,v)
        print(o); print('notes',g.T.notes,g.T.dropped); sys.exit(0)
    g=Gen()
    structs=[tuple(x.split(':')) for x in a.s.split(',') if x]
    o,sp,f,_=g.build(a.roots,a.l.split(','),structs,a.o)
    for k,v in f.items(): print('FAIL',k,v)
    print(o); print('notes',g.T.notes,g.T.dropped)
