"""Mechanical extraction: clang JSON AST of the current /repo sources -> Verus exec functions.

Everything that is dropped or modelled is recorded in Translator.notes, so that the
evidence can state it.  Anything outside the supported subset raises Unsupported."""
import json, os, subprocess, re, hashlib
from ctypes_ import *
import ctypes_ as CT

RUST_KW={'as','box','break','const','continue','crate','else','enum','extern','false','fn','for','if','impl','in','let','loop','match','mod','move','mut','pub','ref','return','self','Self','static','struct','super','trait','true','type','unsafe','use','where','while','async','await','dyn','abstract','become','do','final','macro','override','priv','typeof','unsized','virtual','yield','try','requires','ensures','invariant','decreases','assert','assume','forall','exists','choose','spec','proof','exec','ghost','tracked','nat','int','real','old','is','matches','has','hasnt','cp','lit','ceq','clt','this'}
def rid(n):
    return n+'_' if n in RUST_KW else n

def ind(lines,k=1):
    return ['    '*k+l for l in lines]

class Val:
    __slots__=('code','ty','place','w','kv')
    def __init__(s,code,ty,place=False,w=None,kv=None):
        s.code=code;s.ty=ty;s.place=place;s.w=w if w is not None else code;s.kv=kv
class IterV:
    def __init__(s,cont,pos,rev=False,ins=False,key=None):
        s.cont=cont;s.pos=pos;s.rev=rev;s.ty=Ty('iter',[cont.ty]);s.ins=ins
        s.key=key      # expression of type Option<key>: the iterator is known by the key it points at (std::map only)

# ------------------------------------------------------------------ AST access
class AST:
    def __init__(self, repo, cachedir, incs, std='c++14'):
        self.repo=repo;self.cache=cachedir;self.incs=incs;self.std=std
        self.mem={}
        os.makedirs(cachedir,exist_ok=True)
    def srchash(self):
        h=hashlib.sha256()
        for d,_,fs in sorted(os.walk(self.repo)):
            if '.git' in d or 'build' in d: continue
            for f in sorted(fs):
                if f.endswith(('.cpp','.hpp','.h')):
                    p=os.path.join(d,f)
                    h.update(p.encode()); h.update(open(p,'rb').read())
        return h.hexdigest()[:16]
    def load(self, file, filt):
        k=(file,filt)
        if k in self.mem: return self.mem[k]
        cmd=['clang++','-std='+self.std,'-fsyntax-only','-w']+['-I'+i for i in self.incs]+['-Xclang','-ast-dump=json','-Xclang','-ast-dump-filter='+filt,os.path.join(self.repo,file)]
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE)
        s=p.stdout.decode('utf8','replace')
        err=p.stderr.decode('utf8','replace')
        errs=[l for l in err.splitlines() if ' error: ' in l and "'auto' not allowed in function prototype" not in l]
        if errs: raise Unsupported('clang: '+errs[0])
        out=[];i=0;d=json.JSONDecoder();n=len(s)
        while i<n:
            while i<n and s[i].isspace(): i+=1
            if i>=n: break
            if s[i]!='{':
                j=s.find('\n',i); i=n if j<0 else j; continue
            o,i=d.raw_decode(s,i); out.append(o)
        self.mem[k]=out
        return out

def kids(n): return [c for c in n.get('inner',[]) if c and c.get('kind') and not c['kind'].endswith('Comment') and not c['kind'].endswith('Attr')]
def fn_sig(node):
    """parameter type list of a function decl"""
    return [parse(p['type'].get('desugaredQualType') or p['type']['qualType']) for p in node.get('inner',[]) if p.get('kind')=='ParmVarDecl']
def fn_body(node):
    b=[c for c in node.get('inner',[]) if c.get('kind')=='CompoundStmt']
    return b[0] if b else None
def strip(n):
    while n['kind'] in ('ImplicitCastExpr','ParenExpr','ExprWithCleanups','MaterializeTemporaryExpr','CXXBindTemporaryExpr','ConstantExpr','CXXFunctionalCastExpr','CXXStaticCastExpr','CStyleCastExpr') and n.get('castKind') in (None,'NoOp','LValueToRValue','FunctionToPointerDecay','DerivedToBase','UncheckedDerivedToBase','ConstructorConversion','UserDefinedConversion'):
        k=kids(n)
        if not k: break
        n=k[0]
    return n

def specify(c):
    """spec-mode text of an exec place expression, or None"""
    out='';i=0
    while i<len(c):
        m=re.compile(r'cast_\w+\(|\.at\(|(\w+)\(').match(c,i)
        if m and not (i and re.match(r'\w',c[i-1]) and not c[i]=='.'):
            d=1;j=m.end()
            while d:
                if j>=len(c): return None
                d+= c[j]=='('; d-= c[j]==')'; j+=1
            inner=specify(c[m.end():j-1])
            if inner is None: return None
            if m.group(0).startswith('cast_'): out+='('+inner+')'
            elif m.group(0)=='.at(': out+='@['+inner+' as int]'
            else: return None
            i=j; continue
        out+=c[i]; i+=1
    out=re.sub(r' as (usize|u32|i32|i64|u64)\b','',out)
    return re.sub(r'\(\*(?!\w+\))','(',out)

MUTATORS={'push_back','emplace_back','insert','erase','clear','resize','pop_back','assign','emplace','push_front','pop_front','swap','remove','sort','unique','reverse','operator=','operator+=','splice','merge'}

class FnSpec:
    """One function under contract."""
    def __init__(s):
        s.rust=None;s.cxx=None;s.file=None;s.sig=None;s.selfmode='none';s.params=None
        s.requires='';s.ensures='';s.anch={};s.loops={};s.attrs=[];s.cls=None;s.extra={};s.ext=False
        s.lambdas={}; s.decreases=''; s.props=[]; s.retname='ret'; s.src=None

class Translator:
    def __init__(self, ast, specs, structs):
        self.ast=ast; self.specs=specs; self.structs=structs  # structs: name -> {'fields':[(name,Ty)],'rust':...}
        self.notes=set(); self.dropped=set(); self.models=set(); self.inlined=set()
        self.bycxx={}
        for s in specs: self.bycxx.setdefault(s.cxx,[]).append(s)
        self.spec_of={}
    def find_decl(self, file, qual, sig=None):
        objs=self.ast.load(file,qual)
        name=qual.split('::')[-1]; c=[]
        for o in objs:
            if o.get('kind') in('CXXMethodDecl','FunctionDecl','CXXConstructorDecl','CXXDestructorDecl','CXXConversionDecl') and o.get('name')==name and fn_body(o):
                c.append(o)
        if sig is not None:
            c2=[]
            for o in c:
                try:
                    if [t.base() for t in fn_sig(o)]==[t.base() for t in sig]: c2.append(o)
                except Unsupported: pass
            c=c2
        if not c: raise Unsupported('function %s not found in %s'%(qual,file))
        # dedupe by location
        return c[0]
    def emit(self, spec):
        node=self.find_decl(spec.file,spec.cxx,spec.sig)
        return FnTrans(self,spec,node).run()

def mutated_in(body, declid):
    """conservative: is variable declid (root) structurally mutated in body?"""
    found=[False]
    def root(n):
        n=strip(n)
        while True:
            if n['kind']=='DeclRefExpr': return (n.get('referencedDecl')or{}).get('id')
            if n['kind'] in('MemberExpr','ArraySubscriptExpr','UnaryOperator','ImplicitCastExpr','ParenExpr','CXXOperatorCallExpr','CXXMemberCallExpr','CXXThisExpr'):
                k=kids(n)
                if n['kind']=='CXXOperatorCallExpr': k=k[1:]
                if not k: return 'this' if n['kind']=='CXXThisExpr' else None
                n=strip(k[0]); continue
            return None
    def walk(n):
        if not isinstance(n,dict) or not n.get('kind'): return
        k=n['kind']
        if k=='CXXMemberCallExpr':
            m=kids(n)[0]
            if m.get('name') in MUTATORS and root(kids(m)[0] if kids(m) else m)==declid and direct(kids(m)[0],declid): found[0]=True
        if k=='CXXOperatorCallExpr':
            c=kids(n); op=(strip(c[0]).get('referencedDecl')or{}).get('name','')
            if op in('operator=','operator+=') and len(c)>1 and direct(c[1],declid): found[0]=True
        for c in n.get('inner',[]): walk(c)
    def direct(n,declid):
        n=strip(n)
        return n['kind']=='DeclRefExpr' and (n.get('referencedDecl')or{}).get('id')==declid
    walk(body)
    return found[0]

class FnTrans:
    def __init__(self,T,spec,node):
        self.T=T;self.spec=spec;self.node=node
        self.vars={}      # decl id -> binding
        self.loopn=0;self.tmp=0;self.usedanch=set()
        self.cont=[]      # stack of continue-increment line lists
        self.retstack=[]
        self.names={}
        self.shape=[]
        self.sites={}     # kind -> (ordinal, text) of the statements contracts refer to by number
        self.remap={}
        self.callcount={}
        self.inl_depth=0
    def shape_str(self): return ''.join(x if x[-1]!='(' else x for x in self.shape if x!='if')
    # ---------------------------------------------------------------- helpers
    def fresh(self,p='t'):
        self.tmp+=1; return '%s__%d'%(p,self.tmp)
    def un(self,n,why=''):
        loc=(n.get('range')or{}).get('begin',{}) if isinstance(n,dict) else {}
        raise Unsupported('%s: %s %s %s'%(self.spec.rust,n.get('kind') if isinstance(n,dict) else n,n.get('name','') if isinstance(n,dict) else '',why))
    def site(self,kind,n,text):
        """contract name of the n-th statement of a kind; when statements were added or removed, the one with the recorded text keeps its name"""
        self.sites.setdefault(kind,[]).append((n,re.sub(r'__\d+','__',text)))
        return '%s.%s'%(kind,self.remap.get((kind,n),n))
    def anchor(self,key):
        a=self.spec.anch.get(key)
        if a is None: return []
        self.usedanch.add(key)
        return ['// @'+key]+[l for l in a.rstrip('\n').split('\n')]
    # ---------------------------------------------------------------- function
    def run(self):
        s=self.spec;n=self.node
        ps=[p for p in n.get('inner',[]) if p.get('kind')=='ParmVarDecl']
        rt=self.T.ret_type(s.file,n)
        self.rt=rt
        params=[];pre=[]
        ctor=n['kind']=='CXXConstructorDecl'
        if ctor!=(s.selfmode=='ctor'): self.un(n,'constructor contract')
        if ctor:
            self.rt=rt=Ty('struct',name=s.cxx.split('::')[0])
            pre+=self.ctor_init(n)
        if s.selfmode=='dyn': params.append('this: &mut %s'%s.cls)
        if s.selfmode=='mut': params.append('this: &mut %s'%s.cls)
        elif s.selfmode=='ref': params.append('this: &%s'%s.cls)
        elif s.selfmode=='val': params.append('this: %s'%s.cls)
        for i,p in enumerate(ps):
            nm=p.get('name') or 'p%d'%i
            if s.params and i<len(s.params): nm=s.params[i]
            nm=rid(nm)
            t=ty_of(p)
            if nm in s.extra.get('drop',[]):
                self.vars[p['id']]={'kind':'dropped','ty':t}; continue
            if t.k=='iter':
                if t.ref=='&' and not t.const: self.un(p,'iterator by reference')
                cn=(s.extra.get('iters') or ['arr'])[0]
                ct=t.args[0]
                if not any(x.startswith(cn+': ') for x in params): params.append('%s: &mut %s'%(cn,ct.rust()))
                params.append('%s: usize'%nm)
                self.vars[p['id']]={'kind':'iter','name':nm,'cont':Val('(*%s)'%cn,ct,True),'rev':False,'ty':Ty('iter',[ct])}
                continue
            if t.k in('ptr',) and t.rust()!='Ptr' and nm not in s.extra.get('owned',[]):
                params.append('%s: &mut %s'%(nm,t.rust()) if not t.args[0].const and nm in s.extra.get('mutptr',[]) else '%s: &%s'%(nm,t.rust()))
                self.vars[p['id']]={'kind':'var','name':'(*%s)'%nm,'ty':t.base()}
            elif t.ref=='&' and not t.const:
                params.append('%s: &mut %s'%(nm,t.rust()) if nm not in s.extra.get('constref',[]) else '%s: &%s'%(nm,t.rust()))
                self.vars[p['id']]={'kind':'var','name':'(*%s)'%nm,'ty':t.base()}
            elif t.ref=='&' and t.const and not t.is_copy():
                params.append('%s: &%s'%(nm,t.rust()))
                self.vars[p['id']]={'kind':'var','name':'(*%s)'%nm,'ty':t.base()}
            else:
                params.append('%s: %s'%(nm,t.rust()))
                self.vars[p['id']]={'kind':'var','name':nm,'ty':t.base()}
                pre.append('let ghost %s_0 = %s;'%(nm,nm))
                pre.append('let mut %s = %s;'%(nm,nm))
        for gname in s.extra.get('globals',[]):
            params.append('%s: &mut %s'%(gname,self.T.global_type(s.file,gname).rust()))
        self.params_s=params
        if ctor:
            for li in self.late_init:
                if li[0]=='base': continue
                if li[1]['kind']=='CXXDefaultInitExpr':
                    if not kids(li[1]):
                        mi=[x[2] for x in self.T.structs.get(s.cxx.split('::')[0],[]) if x[0]==li[0]]
                        if not mi or mi[0] is None: self.un(n,'default member initialiser of '+li[0])
                        pre.append('this_.%s = %s;'%(rid(li[0]),mi[0])); continue
                    v=self.ex(kids(li[1])[0])
                else: v=self.ex(li[1])
                pre.append('this_.%s = %s;'%(rid(li[0]),self.conv(v,li[2])))
        body=pre+self.anchor('entry')
        b=self.compound(fn_body(n),fnbody=True)
        body+=b
        if rt.k=='void': body+=self.anchor('exit')
        if ctor: body+=self.anchor('exit')+['return this_;']
        head=self.head(params,rt)
        unused=[k for k in list(s.anch)+['loop%d'%k for k in s.loops] if k not in self.usedanch]
        if unused: raise Unsupported('%s: contract anchors not found in the code: %s'%(s.rust,unused))
        return head+['{']+ind(body)+['}']
    def ctor_init(self,n):
        """member initialisers of a constructor"""
        t=Ty('struct',name=self.spec.cxx.split('::')[0])
        out=['let mut this_: %s = %s;'%(t.rust(),self.default(t))]
        fs=dict((f,ft) for f,ft,_ in self.T.structs[t.name])
        self.late_init=[]
        for c in n.get('inner',[]):
            if c.get('kind')!='CXXCtorInitializer': continue
            a=c.get('anyInit')
            if a is None: 
                if c.get('baseInit') is not None: self.late_init.append(('base',c))
                continue
            if a.get('name') not in fs: continue
            k=kids(c)
            if not k: continue
            e=k[0]
            while e['kind'] in('ExprWithCleanups','CXXBindTemporaryExpr','MaterializeTemporaryExpr'): e=kids(e)[0]
            if e['kind']=='CXXConstructExpr' and not kids(e): continue
            if e['kind']=='CXXDefaultInitExpr': self.late_init.append((a['name'],e,fs[a['name']])); continue
            self.late_init.append((a['name'],e,fs[a['name']]))
        return out
    def head(self,params,rt):
        s=self.spec
        head=[]
        for a in s.attrs: head.append(a)
        head.append('#[verifier::loop_isolation(false)]')
        ret='' if rt.k=='void' else ' -> (%s: %s)'%(s.retname,self.rtype(rt))
        head.append('pub fn %s(%s)%s'%(s.rust,', '.join(params),ret))
        if s.requires.strip(): head+= ['    requires']+ind(s.requires.strip('\n').split('\n'),2)
        if s.ensures.strip(): head+= ['    ensures']+ind(s.ensures.strip('\n').split('\n'),2)
        if s.decreases.strip(): head+= ['    decreases '+s.decreases.strip()]
        return head
    def stub(self):
        """contract only; used when the body cannot be extracted (the function is then reported as not verified)"""
        return ['#[verifier::external_body]']+[l for l in self.head(self.params_s,self.rt) if not l.startswith('    decreases')]+['{ unimplemented!() }']
    def rtype(self,t):
        if t.ref=='&' : return t.rust()
        return t.rust()
    # ---------------------------------------------------------------- statements
    def compound(self,n,fnbody=False):
        out=[]
        for c in n.get('inner',[]):
            if not c or not c.get('kind') or c['kind'].endswith('Comment'): continue
            out+=self.stmt(c)
        return out
    def block(self,n):
        if n['kind']=='CompoundStmt': return self.compound(n)
        return self.stmt(n)
    def stmt(self,n):
        k=n['kind']
        f=getattr(self,'s_'+k,None)
        if f: return f(n)
        return self.stmt_expr(n)
    def s_NullStmt(self,n): return []
    def s_CompoundStmt(self,n): return ['{']+ind(self.compound(n))+['}']
    def s_DeclStmt(self,n):
        out=[]
        for d in kids(n):
            if d['kind']=='VarDecl': out+=self.vardecl(d)
            elif d['kind'] in('UsingDecl','UsingDirectiveDecl','TypedefDecl','TypeAliasDecl'): pass
            else: self.un(d)
        return out
    def is_timing(self,d):
        q=(d.get('type')or{})
        s=(q.get('desugaredQualType')or'')+q.get('qualType','')
        return 'chrono' in s
    def local(self,name):
        name=rid(name)
        if name in ('this',): name+='_'
        return name
    def vardecl(self,d):
        if self.is_timing(d):
            self.T.dropped.add('chrono timing variables'); self.vars[d['id']]={'kind':'dropped'}; return []
        name=d.get('name') or self.fresh('anon')
        nm=self.local(name)
        init=[c for c in kids(d)]
        q=d['type'].get('desugaredQualType') or d['type']['qualType']
        if '(lambda' in q:
            self.vars[d['id']]={'kind':'lambda','node':init[0]}; return []
        t=ty_of(d)
        if t.k=='ptr' and t.args[0].k=='struct' and t.args[0].name in self.T.extra_drop_types:
            self.T.dropped.add('local objects of type '+t.args[0].name); self.vars[d['id']]={'kind':'dropped','ty':t}; return []
        if t.k=='struct' and t.name in self.T.extra_drop_types:
            self.T.dropped.add('local objects of type '+t.name); self.vars[d['id']]={'kind':'dropped','ty':t}; return []
        if t.k=='rng':
            self.T.models.add('random sources deliver arbitrary values (seeding is ignored)'); self.vars[d['id']]={'kind':'dropped','ty':t}; return []
        out=[]
        if d.get('storageClass')=='static': self.un(d,'static local')
        if t.k in('iter','riter') and (not init or (init[0]['kind']=='CXXConstructExpr' and not kids(init[0]))):
            # uninitialised iterator: its container is the one of its first assignment
            v=self.first_assigned(d)
            if v is None: self.un(d,'iterator without initialiser')
            self.vars[d['id']]={'kind':'iter','name':nm,'cont':v.cont,'rev':v.rev,'ty':v.ty}
            self.T.notes.add('uninitialised iterators hold an arbitrary position')
            out.append('let mut %s: usize = arb_usize();'%nm)
            return out+self.anchor('decl.'+name)
        if t.k in('iter','riter'):
            v=self.ex(init[0])
            if isinstance(v,IterV) and v.key is not None and not self.moves(self.node,d['id']):
                self.vars[d['id']]={'kind':'kiter','name':nm,'cont':v.cont,'ty':v.ty}
                out.append('let mut %s: Option<%s> = %s;'%(nm,v.cont.ty.args[0].rust(),v.key))
                return out+self.anchor('decl.'+name)
            if isinstance(v,IterV):
                self.vars[d['id']]={'kind':'iter','name':nm,'cont':v.cont,'rev':v.rev,'ty':v.ty}
                out.append('let mut %s: usize = %s;'%(nm,v.pos))
                return out+self.anchor('decl.'+name)
            self.un(d,'iterator init')
        if t.ref:
            v=self.ex(init[0])
            if isinstance(v,IterV): self.un(d,'ref to iter')
            if v.place:
                b=self.stabilise(v,out)
                self.vars[d['id']]={'kind':'alias','val':b,'ty':t.base()}
                return out+self.anchor('decl.'+name)
            self.vars[d['id']]={'kind':'var','name':nm,'ty':t.base()}
            out.append('let mut %s: %s = %s;'%(nm,t.rust(),self.owned(v)))
            return out+self.anchor('decl.'+name)
        if init and not (init[0]['kind']=='CXXConstructExpr' and not kids(init[0]) and False):
            v=self.ex(init[0])
            if isinstance(v,IterV): self.un(d,'iter value')
            code=self.coerce(v,t)
        else:
            code=self.default(t) if t.k not in('int','f64','bool') else None
            if code is None:
                code='arb_%s()'%{'f64':'f64','bool':'bool'}.get(t.k,t.name)
                self.T.notes.add('uninitialised scalar locals hold an arbitrary value')
        self.vars[d['id']]={'kind':'var','name':nm,'ty':t.base()}
        out.append('let mut %s: %s = %s;'%(nm,t.rust(),code))
        return out+self.anchor('decl.'+name)
    def first_assigned(self,d):
        def walk(m):
            if m.get('kind')=='CXXOperatorCallExpr':
                c=kids(m)
                if (strip(c[0]).get('referencedDecl')or{}).get('name')=='operator=':
                    l=strip(c[1])
                    if l['kind']=='DeclRefExpr' and (l.get('referencedDecl')or{}).get('id')==d['id']: return c[2]
            for c in m.get('inner',[]):
                if c:
                    r=walk(c)
                    if r is not None: return r
        r=walk(self.node)
        if r is None: return None
        try: v=self.ex(r)
        except Unsupported: return None
        return v if isinstance(v,IterV) and v.key is None else None
    def moves(self,n,declid):
        """is the iterator variable ever stepped?"""
        if n.get('kind') in('UnaryOperator','CXXOperatorCallExpr','CompoundAssignOperator') and kids(n):
            op=n.get('opcode') or (strip(kids(n)[0]).get('referencedDecl')or{}).get('name') or ''
            k=kids(n)[1:] if n['kind']=='CXXOperatorCallExpr' else kids(n)
            if op.replace('operator','') in('++','--','+=','-=') and k and (strip(k[0]).get('referencedDecl')or{}).get('id')==declid: return True
        return any(self.moves(c,declid) for c in n.get('inner',[]) if c)
    def stabilise(self,v,out):
        """freeze index expressions of a place so that an alias keeps denoting the same element"""
        return v
    def coerce(self,v,t):
        return self.owned(v)
    def default(self,t):
        k=t.k
        if k=='int': return '0'
        if k=='bool': return 'false'
        if k=='f64': return 'f_lit(0real)' if False else 'f_zero()'
        if k in('vec','list'): return 'CVec::<%s>::new()'%t.args[0].rust()
        if k=='set': return '%s::<%s>::new()'%('CSetD' if t.name=='desc' else 'CSet',t.args[0].rust())
        if k=='map': return 'CMap::<%s,%s>::new()'%(t.args[0].rust(),t.args[1].rust())
        if k=='str': return 'CStr::new()'
        if k=='ofs': return 'COfs::new()'
        if k=='ifs': return 'CIfs::new()'
        if k=='file': return 'CFile::null()'
        if self.is_spval(t): return t.rust()+'::null()'
        if k=='pair': return '(%s)'%', '.join(self.default(a) for a in t.args)
        if k=='ptr' and t.args[0].k=='struct' and t.args[0].name in CT.HEAP: return 'arb_ptr()'
        if self.is_dyn(t): return t.rust()+'::arb()'
        if k=='struct':
            if t.name in self.T.structs:
                fs=self.T.structs[t.name]
                return '%s { %s }'%(t.rust(),', '.join('%s: %s'%(rid(f),dv if dv else ('arb_'+('f64' if ft.k=='f64' else ft.rust())+'()' if ft.k in('int','f64','bool') else self.default(ft))) for f,ft,dv in fs))
        raise Unsupported('default of %r'%t)
    def s_ReturnStmt(self,n):
        c=kids(n)
        if self.inl_depth: self.un(n,'return in an inlined helper')
        self.retn=getattr(self,'retn',0)+1; rn=self.retn
        if c:
            v=self.ex(c[0])
            if isinstance(v,IterV): self.un(n,'returns iterator')
            code=self.owned(v)
        an=self.anchor('return')+self.anchor(self.site('return',rn,code if c else ''))
        if not c and self.spec.selfmode=='ctor': return ['{']+an+self.anchor('exit')+['return this_; }']
        if not c:
            return ['{']+an+self.anchor('exit')+['return; }']
        if an: return ['{ let ret_ = %s;'%code]+an+['return ret_; }']
        return ['return %s;'%code]
    def s_IfStmt(self,n):
        inner=[c for c in n['inner'] if c]
        i=0
        out=[]
        if n.get('hasInit') or n.get('hasVar'): self.un(n,'if with init')
        self.shape.append('if')
        self.ifn=getattr(self,'ifn',0)+1; sn=self.ifn
        c=self.cond(inner[0]); key=self.site('if',sn,c)
        th=inner[1]; el=inner[2] if len(inner)>2 else None
        out+=self.anchor(key+'.before')
        out.append('if %s {'%c)
        out+=ind(self.anchor(key+'.then'))
        out+=ind(self.block(th))
        ea=self.anchor(key+'.else')
        if el is not None or ea:
            out.append('} else {')
            out+=ind(ea)
            if el is not None: out+=ind(self.block(el))
        out.append('}')
        out+=self.anchor(key+'.after')
        return out
    def cond(self,n):
        v=self.ex(n)
        if isinstance(v,IterV): self.un(n)
        return v.code
    def effectful(self,code):
        return '= ' in code.replace('== ','').replace('!= ','').replace('<= ','').replace('>= ','') or '_mut(' in code
    def loophead(self,cond,key):
        self.loopn+=1
        return self.loopn
    def loop(self,n,condcode,bodyfn,inc,ordinal,pre_body=None,auto_inv='',auto_dec='',dowhile=False,hid=None):
        key='loop%d'%ordinal
        spec=self.spec.loops.get(ordinal)
        if spec is not None: self.usedanch.add(key)
        inv=(spec or {}).get('invariant','').strip('\n'); dec=(spec or {}).get('decreases','').strip()
        rs=getattr(self,'rsub',{}).get(hid) if hid else None
        if rs: inv=inv.replace('$r',rs); spec={k:x.replace('$r',rs).replace('$i',hid) for k,x in (spec or {}).items()}
        if hid: inv=inv.replace('$i',hid); dec=dec.replace('$i',hid); auto_inv=auto_inv.replace('$i',hid); auto_dec=auto_dec.replace('$i',hid)
        invs=[]
        if auto_inv: invs.append(auto_inv)
        if inv.strip(): invs+=inv.split('\n')
        out=self.sub(self.anchor(key+'.before'),hid)
        useloop = dowhile or (condcode is not None and self.effectful(condcode))
        if condcode is None: condcode='true'; useloop=True
        if (spec or {}).get('ensures','').strip(): out.append('#[verifier::allow_complex_invariants]')
        out.append('loop' if useloop else 'while '+condcode)
        exc=(spec or {}).get('except','').strip('\n')
        if exc.strip(): out+=['    invariant_except_break']+ind(exc.split('\n'),2)
        if invs: out+=['    invariant']+ind(invs,2)
        ens=(spec or {}).get('ensures','')
        if ens.strip(): out+=['    ensures']+ind(ens.strip('\n').split('\n'),2)
        d=dec or auto_dec
        if d: out.append('    decreases '+d)
        out.append('{')
        self.cont.append(('loop',inc,self.sub(self.anchor(key+'.end'),hid) if True else []))
        if useloop and not dowhile and condcode!='true':
            out+=ind(['if !(%s) { break; }'%condcode])
        out+=ind(self.sub(self.anchor(key+'.begin'),hid))
        out+=ind(bodyfn())
        c=self.cont.pop()
        out+=ind(c[2]); out+=ind(inc)
        if dowhile: out+=ind(['if !(%s) { break; }'%dowhile()])
        out.append('}')
        out+=self.sub(self.anchor(key+'.after'),hid)
        return out
    def sub(self,lines,hid):
        if not hid: return lines
        r=getattr(self,'rsub',{}).get(hid) or '$r'
        return [l.replace('$i',hid).replace('$r',r) for l in lines]
    def s_ForStmt(self,n):
        inner=n['inner']  # init, condvar, cond, inc, body
        init,cv,cond,inc,body=inner[0],inner[1],inner[2],inner[3],inner[4]
        self.loopn+=1; o=self.loopn
        self.shape.append('for(')
        out=['{']
        if init and init.get('kind'): out+=ind(self.stmt(init))
        if cv and cv.get('kind'): self.un(n,'cond var')
        hid=None
        if init and init.get('kind')=='DeclStmt' and kids(init) and kids(init)[0]['kind']=='VarDecl':
            hid=self.local(kids(init)[0]['name'])
        c=self.cond(cond) if cond and cond.get('kind') else None
        il=self.stmt_expr(inc) if inc and inc.get('kind') else []
        auto_inv='';auto_dec=''
        # canonical iterator loops: for(auto it=x.begin(); it!=x.end(); it++)
        if init and init.get('kind')=='DeclStmt' and len(kids(init))==1:
            b=self.vars.get(kids(init)[0]['id'])
            if b and b['kind']=='iter' and c is not None and not b['rev']:
                ex=strip(cond)
                if c=='(%s != %s.len())'%(b['name'],b['cont'].code):
                    auto_inv='%s <= %s@.len(),'%(b['name'],b['cont'].code)
        out+=ind(self.loop(n,c,lambda: self.block(body),il,o,auto_inv=auto_inv,hid=hid))
        out.append('}')
        self.shape.append(')')
        return out
    def s_WhileStmt(self,n):
        inner=[c for c in n['inner'] if c]
        self.loopn+=1; o=self.loopn
        self.shape.append('while(')
        c=self.cond(inner[0])
        out=self.loop(n,c,lambda: self.block(inner[1]),[],o)
        self.shape.append(')')
        return out
    def s_DoStmt(self,n):
        inner=[c for c in n['inner'] if c]
        self.loopn+=1; o=self.loopn
        self.shape.append('do(')
        has_cont=[]
        def walk(m,top=True):
            if m.get('kind')=='ContinueStmt': has_cont.append(1)
            if m.get('kind') in('ForStmt','WhileStmt','DoStmt','CXXForRangeStmt') and not top: return
            for c in m.get('inner',[]):
                if c: walk(c,False)
        walk(inner[0])
        if has_cont: self.un(n,'continue in do-while')
        out=self.loop(n,'true',lambda: self.block(inner[0]),[],o,dowhile=lambda: self.cond(inner[1]))
        self.shape.append(')')
        return out
    def s_CXXForRangeStmt(self,n):
        inner=n['inner']
        rng=kids(kids(inner[1])[0])[0]; var=kids(inner[6])[0]; body=inner[7]
        self.loopn+=1; o=self.loopn
        self.shape.append('range(')
        out=['{']
        v=self.ex(rng)
        if isinstance(v,IterV): self.un(n)
        if v.ty.k=='map' and v.ty.name=='unordered': self.un(n,'iteration over an unordered container')
        if not v.place:
            t=self.fresh('rng'); out.append('    let %s = %s;'%(t,v.code)); v=Val(t,v.ty,True)
        else:
            r=strip(rng)
            if r['kind']=='DeclRefExpr' and mutated_in(body,(r.get('referencedDecl')or{}).get('id')): self.un(n,'range-for over container modified in the body')
        sv=specify(v.code)
        nm=self.local(var['name']); hid=nm+'_i'
        if sv:
            if not hasattr(self,'rsub'): self.rsub={}
            self.rsub[hid]=sv
        out.append('    let mut %s: usize = 0;'%hid)
        vt=ty_of(var)
        def bodyfn():
            el=self.elem(v,hid)
            ls=[]
            if vt.ref and vt.k!='pair' or (vt.ref and v.ty.k!='map' ):
                self.vars[var['id']]={'kind':'alias','val':el,'ty':vt.base()}
            else:
                self.vars[var['id']]={'kind':'var','name':nm,'ty':vt.base()}
                ls.append('let mut %s: %s = %s;'%(nm,vt.rust(),self.owned(el)))
            return ls+self.block(body)
        out+=ind(self.loop(n,'%s < %s.len()'%(hid,v.code),bodyfn,['%s = %s + 1;'%(hid,hid)],o,auto_inv='%s <= %s@.len(),'%(hid,sv) if sv else '',auto_dec='%s@.len() - %s'%(sv,hid) if sv else '',hid=hid))
        out.append('}')
        self.shape.append(')')
        return out
    def s_BreakStmt(self,n):
        if self.cont and self.cont[-1][0]=='switch': self.un(n,'break in switch')
        return ['break;']
    def s_ContinueStmt(self,n):
        c=self.cont[-1]
        return ['{']+ind(c[2]+c[1]+['continue;'])+['}']
    def s_SwitchStmt(self,n): self.un(n)
    def s_CXXTryStmt(self,n): self.un(n)
    # ---------------------------------------------------------------- expression statements
    def is_stream_log(self,n):
        n=strip(n)
        r=n
        while r['kind']=='CXXOperatorCallExpr':
            c=kids(r)
            if (strip(c[0]).get('referencedDecl')or{}).get('name')!='operator<<': return False
            r=strip(c[1])
        return r['kind']=='DeclRefExpr' and (r.get('referencedDecl')or{}).get('name') in('cout','cerr','clog')
    def drop_ok(self,n):
        """operands of a dropped logging statement must have no side effects"""
        bad=[]
        def walk(m):
            k=m.get('kind')
            if k in('BinaryOperator','CompoundAssignOperator') and (m.get('opcode','').endswith('=') and m['opcode'] not in('==','!=','<=','>=')): bad.append(m)
            if k=='UnaryOperator' and m.get('opcode') in('++','--'): bad.append(m)
            if k=='CXXMemberCallExpr' and kids(m) and kids(m)[0].get('name') in MUTATORS: bad.append(m)
            if k=='CXXOperatorCallExpr' and kids(m):
                if (strip(kids(m)[0]).get('referencedDecl')or{}).get('name') in('operator=','operator++','operator--','operator+=','operator-='): bad.append(m)
            for c in m.get('inner',[]):
                if c: walk(c)
        walk(n)
        if bad: self.un(n,'logging statement with side effects')
    def stmt_expr(self,n):
        n0=n; n=strip(n)
        k=n['kind']
        if self.is_stream_log(n):
            self.drop_ok(n); self.T.dropped.add('console output (std::cout/std::cerr)'); return []
        if k=='CXXMemberCallExpr':
            m=kids(n)[0]
            obj=kids(m)[0] if kids(m) else None
            if m.get('name') in self.T.drop_methods:
                self.drop_ok(n); self.T.dropped.add('calls of '+m['name']); return []
            if obj is not None:
                o=strip(obj)
                if o['kind']=='DeclRefExpr':
                    b=self.vars.get((o.get('referencedDecl')or{}).get('id'))
                    if b and b['kind']=='dropped' and not (b.get('ty') is not None and b['ty'].k=='struct' and (b['ty'].name+'::'+m.get('name','')) in self.T.bycxx):
                        self.drop_ok(n); return []
        if k=='CXXOperatorCallExpr' and (strip(kids(n)[0]).get('referencedDecl')or{}).get('name')=='operator=':
            l=strip(kids(n)[1])
            if l['kind']=='MemberExpr':
                try: lt=ty_of(l)
                except Unsupported: lt=None
                if lt is not None and lt.k=='struct' and lt.name in self.T.extra_drop_types:
                    self.drop_ok({'kind':'x','inner':kids(n)[2:]}); self.T.dropped.add('objects of type '+lt.name); return []
        if k in('CXXOperatorCallExpr','BinaryOperator') and kids(n):
            # assignment to a dropped variable
            l=strip(kids(n)[1 if k=='CXXOperatorCallExpr' and len(kids(n))>1 else 0])
            if l['kind']=='DeclRefExpr':
                b=self.vars.get((l.get('referencedDecl')or{}).get('id'))
                if b and b['kind']=='dropped':
                    self.drop_ok2(n); return []
        if k=='UnaryOperator' and n['opcode'] in('++','--'):
            return self.incdec(n)
        if k=='CXXOperatorCallExpr':
            op=(strip(kids(n)[0]).get('referencedDecl')or{}).get('name')
            if op in('operator++','operator--'): return self.iter_incdec(kids(n)[1],op[-2:])
            if op in('operator+=','operator-=') :
                a=self.ex(kids(n)[1])
                if isinstance(a,IterV):
                    b=self.ex(kids(n)[2]); return ['%s = iter_%s(%s, %s);'%(a.pos,'add' if op[-2]=='+' else 'sub',a.pos,self.to_i64(b))]
        ow=self.stream_write(n)
        if ow is not None: return ow
        v=self.ex(n,stmt=True)
        if isinstance(v,IterV): return []
        if v is None: return []
        if isinstance(v,list): return v
        name=''
        if k=='CXXMemberCallExpr': name=kids(n)[0].get('name','')
        elif k=='CallExpr': name=(strip(kids(n)[0]).get('referencedDecl')or{}).get('name','')
        out=[v.code+';']
        if name:
            c=self.callcount.get(name,0)+1; self.callcount[name]=c
            b=self.anchor('call.%s.%d.before'%(name,c)); a=self.anchor('call.%s.%d'%(name,c))
            out=b+out+a
        return out
    def disk(self,n):
        if 'disk' not in self.spec.extra.get('globals',[]): self.un(n,'file access in a function whose contract has no file system')
        self.T.models.add('files: a map from names to contents (contracts/files.rs)')
        return 'disk'
    def stream_write(self,n):
        """file << a << b;"""
        parts=[];r=n
        while r['kind']=='CXXOperatorCallExpr' and (strip(kids(r)[0]).get('referencedDecl')or{}).get('name')=='operator<<':
            parts.append(kids(r)[2]); r=strip(kids(r)[1])
        if not parts: return None
        try: t=ty_of(r)
        except Unsupported: return None
        if t.k!='ofs': return None
        o=self.ex(r); d=self.disk(n); out=[]
        for p in reversed(parts):
            q=strip(p)
            while q['kind']=='ImplicitCastExpr' and q.get('castKind')=='FunctionToPointerDecay': q=strip(kids(q)[0])
            if q['kind']=='DeclRefExpr' and (q.get('referencedDecl')or{}).get('name') in('endl','flush'):
                if q['referencedDecl']['name']=='endl': out.append('%s.put(%s, &CStr::lit("\\n"));'%(o.code,d))
                continue
            v=self.ex(p)
            if isinstance(v,IterV): self.un(n,'stream output')
            if v.ty.k=='str': out.append('%s.put(%s, %s);'%(o.code,d,self.byref(v)))
            elif v.ty.k=='f64': out.append('{ let t_ = disp_f64(%s); %s.put(%s, &t_); }'%(v.code,o.code,d))
            elif v.ty.k=='int' and v.ty.name in('i32','u32','usize','i64'): out.append('{ let t_ = to_string_%s(%s); %s.put(%s, &t_); }'%(v.ty.name,v.code,o.code,d))
            elif v.ty.k=='int' and v.ty.name=='u8': out.append('{ let t_ = str_n(1, %s); %s.put(%s, &t_); }'%(v.code,o.code,d))
            else: self.un(n,'stream output of %r'%v.ty)
        return out
    def m_ofs_open(self,n,o,a,s): v=self.ex(a[0]); return Val('%s.open(%s, %s)'%(o.w,self.disk(n),self.byref(v)),Ty('void'))
    def m_ofs_close(self,n,o,a,s): return Val('%s.close()'%o.w,Ty('void'))
    m_ifs_close=m_ofs_close
    def m_ofs_is_open(self,n,o,a,s): return Val('%s.is_open()'%o.code,Ty('bool'))
    m_ifs_is_open=m_ofs_is_open
    def m_ofs_flush(self,n,o,a,s): return [] if s else self.un(n)
    def m_ifs_open(self,n,o,a,s): v=self.ex(a[0]); return Val('%s.open(%s, %s)'%(o.w,self.disk(n),self.byref(v)),Ty('void'))
    def m_ifs_eof(self,n,o,a,s): return Val('%s.eof()'%o.code,Ty('bool'))
    def m_ifs_good(self,n,o,a,s): return Val('%s.good()'%o.code,Ty('bool'))
    def m_ifs_fail(self,n,o,a,s): return Val('%s.fail()'%o.code,Ty('bool'))
    def fn_getline(self,n,a,s):
        f=self.ex(a[0]);l=self.ex(a[1])
        if len(a)>2 and a[2]['kind']!='CXXDefaultArgExpr': self.un(n,'getline delimiter')
        return Val('getline(&mut %s, &mut %s)'%(f.w,l.w),Ty('bool'))
    def fn_regex_replace(self,n,a,s):
        def lits(m):
            r=[m['value']] if m.get('kind')=='StringLiteral' else []
            for c in m.get('inner',[]):
                if c: r+=lits(c)
            return r
        l=self.ex(a[0]); pt=lits(a[1]); v=self.ex(a[2])
        if len(pt)!=1 or l.ty.k!='str': self.un(n,'regular expression')
        return Val('regex_replace(%s, &CStr::lit(%s), %s)'%(self.byref(l),pt[0],self.byref(v)),Ty('str'))
    def fn_fopen(self,n,a,s):
        f=self.ex(a[0]); m=strip(a[1])
        while m['kind']=='ImplicitCastExpr': m=strip(kids(m)[0])
        if m.get('value')!='"r"': self.un(n,'fopen mode')
        return Val('fopen(%s, %s)'%(self.disk(n),self.byref(f)),Ty('file'))
    def fn_fclose(self,n,a,s): v=self.ex(a[0]); return Val('fclose(&mut %s)'%v.w,Ty('void'))
    def fn_fgets(self,n,a,s):
        b=self.ex(a[0]);k=self.ex(a[1]);f=self.ex(a[2])
        return Val('fgets(&mut %s, %s, &mut %s)'%(b.w,self.conv(k,Ty('int',name='i32')),f.w),Ty('got'))
    def m_str_find_first_of(self,n,o,a,s):
        v=self.ex(a[0]); r=[self.ex(x) for x in a[1:]]
        m=strip(a[0])
        while m['kind']=='ImplicitCastExpr': m=strip(kids(m)[0])
        p=self.intcast(r[0].code,r[0].ty,self.USZ) if r else '0'
        if v.ty.k=='int': return Val('%s.find_char(%s, %s)'%(o.code,v.code,p),self.USZ)
        import ast as _a
        try: t=_a.literal_eval(m['value'])
        except Exception: self.un(n,'find_first_of')
        if len(t)!=1: self.un(n,'find_first_of a set')
        return Val('%s.find_char(%d, %s)'%(o.code,ord(t),p),self.USZ)
    def m_str_erase(self,n,o,a,s):
        vs=[self.ex(x) for x in a]
        if not s or any(isinstance(v,IterV) for v in vs): self.un(n,'erase')
        cs=[self.intcast(v.code,v.ty,self.USZ) for v in vs]
        if len(cs)==1: cs.append('usize::MAX')
        return self.mutcall(o,'erase',cs,stmt=s)
    def m_str_clear(self,n,o,a,s): return self.mutcall(o,'clear',[])
    def drop_ok2(self,n):
        c=kids(n)
        for x in c[1:]:
            pass
    def incdec(self,n):
        v=self.ex(kids(n)[0])
        if isinstance(v,IterV): return ['%s = iter_%s1(%s);'%(v.pos,'inc' if n['opcode']=='++' else 'dec',v.pos)]
        return ['%s = %s;'%(v.w,self.arith('+' if n['opcode']=='++' else '-',v.code,'f_of_int(1)' if v.ty.k=='f64' else '1',v.ty))]
    def iter_incdec(self,n,op):
        v=self.ex(n)
        if not isinstance(v,IterV): self.un(n,'++ on non iterator')
        if not re.match(r'^\w+$',v.pos): self.un(n,'++ on computed iterator')
        dec = (op=='--')!=v.rev and False
        if v.rev: return ['%s = %s %s 1;'%(v.pos,v.pos,'+' if op=='++' else '-')]
        return ['%s = %s %s 1;'%(v.pos,v.pos,'+' if op=='++' else '-')]
    # ---------------------------------------------------------------- values
    def owned(self,v):
        if isinstance(v,IterV): raise Unsupported('iterator used as value')
        if v.kv is not None: return '(cp(%s), cp(%s))'%v.kv
        if v.place and not v.ty.is_copy(): return 'cp(&%s)'%v.code
        return v.code
    def byref(self,v):
        if v.kv is not None: return '&(cp(%s), cp(%s))'%v.kv
        return '&%s'%v.code if v.place else '&(%s)'%v.code
    def recv(self,v,mut=False):
        c=v.w if mut else v.code
        return c
    def elem(self,c,i):
        t=c.ty
        if t.k in('vec','list'): return Val('(*%s.at(%s))'%(self.recv(c),i),t.args[0].base(),True,'(*%s.at_mut(%s))'%(self.recv(c,True),i))
        if t.k=='set': return Val('(*%s.at(%s))'%(self.recv(c),i),t.args[0].base(),True)
        if t.k=='str': return Val('(%s.at(%s))'%(self.recv(c),i),Ty('int',name='u8'),False)
        if t.k=='map':
            r=self.recv(c); w=self.recv(c,True)
            v=Val('(%s.entry(%s))'%(r,i),Ty('pair',[t.args[0].base(),t.args[1].base()]),True)
            v.kv=('%s.key_at(%s)'%(r,i),'%s.val_at(%s)'%(r,i)); v.w='%s.val_at_mut(%s)'%(w,i)
            return v
        raise Unsupported('element of %r'%t)
    def is_spval(self,t): return t is not None and t.k=='sp' and t.args[0].name in CT.SPVAL
    def spderef(self,v):
        return Val('(*%s.nd())'%v.code,v.ty.args[0].base(),True,'SHARED_POINTEE_WRITE')
    def deref(self,it):
        if isinstance(it,IterV) and it.key is not None and re.match(r'^\w+$',it.key):
            t=it.cont.ty
            v=Val('()',Ty('pair',[t.args[0].base(),t.args[1].base()]),True)
            v.kv=('kget(&%s)'%it.key,'%s.get(kget(&%s))'%(self.recv(it.cont),it.key)); v.w='%s.get_mut(kget(&%s))'%(self.recv(it.cont,True),it.key)
            return v
        if isinstance(it,IterV):
            if it.ins: raise Unsupported('deref inserter')
            pos=it.pos
            if it.rev: pos='%s.len() - 1 - %s'%(it.cont.code,it.pos) if it.pos!='0' else '%s.len() - 1'%it.cont.code
            return self.elem(it.cont,pos)
        raise Unsupported('deref')
    def arith(self,op,a,b,t):
        if t.k=='f64':
            return 'f_%s(%s, %s)'%({'+':'add','-':'sub','*':'mul','/':'div'}[op],a,b)
        if t.k=='int':
            if t.signed():
                return '(%s %s %s)'%(a,op,b) if op in '+-*' else 'sdiv_%s(%s, %s)'%(t.name,a,b) if op=='/' else 'srem_%s(%s, %s)'%(t.name,a,b)
            if op in '+-*': return 'w%s_%s(%s, %s)'%({'+':'add','-':'sub','*':'mul'}[op],t.name,a,b)
            return '(%s %s %s)'%(a,op,b)
        raise Unsupported('arith on %r'%t)
    def to_i64(self,v):
        return self.intcast(v.code,v.ty,Ty('int',name='i64'))
    def intcast(self,c,a,b):
        if a.name==b.name: return c
        if re.match(r'^-?\d+$',c): 
            val=int(c); bits=BITS[b.name]
            if b.signed():
                if -(1<<bits-1)<=val<(1<<bits-1): return c
            elif 0<=val<(1<<bits): return c
            return str(val%(1<<bits))
        if not a.signed() and (BITS[b.name]>BITS[a.name] or (BITS[b.name]==BITS[a.name] and not b.signed())): return '(%s as %s)'%(c,b.name)
        if a.signed() and b.signed() and BITS[b.name]>=BITS[a.name]: return '(%s as %s)'%(c,b.name)
        return 'cast_%s_%s(%s)'%(a.name,b.name,c)
    # ---------------------------------------------------------------- expressions
    def ex(self,n,stmt=False):
        k=n['kind']
        f=getattr(self,'e_'+k,None)
        if not f: self.un(n)
        if k in('CXXMemberCallExpr','CallExpr','CXXOperatorCallExpr','BinaryOperator','CompoundAssignOperator'): return f(n,stmt)
        return f(n)
    def e_ParenExpr(self,n): return self.ex(kids(n)[0])
    e_ExprWithCleanups=e_MaterializeTemporaryExpr=e_CXXBindTemporaryExpr=e_ConstantExpr=e_ParenExpr
    def e_CXXDefaultArgExpr(self,n):
        if not kids(n): self.un(n,'default arg')
        return self.ex(kids(n)[0])
    def e_IntegerLiteral(self,n):
        t=ty_of(n); return Val(n['value'],t)
    def e_FloatingLiteral(self,n):
        return Val('f_const(Ghost(%sreal))'%self.realtxt(n['value']) ,Ty('f64')) if False else Val(self.flit(n['value']),Ty('f64'))
    def flit(self,s):
        from fractions import Fraction
        fr=Fraction(float(s))
        if fr==0: return 'f_zero()'
        if fr.denominator==1 and abs(fr.numerator)<2**62: return 'f_of_int(%d)'%fr.numerator
        if fr.numerator<2**62 and fr.denominator<2**62: return 'f_rat(%d, %d)'%(fr.numerator,fr.denominator)
        f2=Fraction(s)
        self.T.notes.add('decimal floating literals denote their decimal value')
        if f2.numerator<2**62 and f2.denominator<2**62: return 'f_rat(%d, %d)'%(f2.numerator,f2.denominator)
        return 'f_big_lit(%s)'%hashlib.md5(s.encode()).hexdigest()
    def e_CXXBoolLiteralExpr(self,n): return Val('true' if n['value'] else 'false',Ty('bool'))
    def e_StringLiteral(self,n):
        s=n['value']
        return Val('CStr::lit(%s)'%self.rstr(s),Ty('str'))
    def rstr(self,s):
        return s
    def e_CharacterLiteral(self,n): return Val(str(n['value']),Ty('int',name='u8'))
    def e_CXXNullPtrLiteralExpr(self,n): return Val('Ptr::null()',Ty('ptr',[Ty('void')]))
    e_GNUNullExpr=e_CXXNullPtrLiteralExpr
    def e_CXXThisExpr(self,n):
        if getattr(self,'thisv',None) is not None: return self.thisv
        if self.spec.selfmode=='dyn': return Val('(*this)',Ty('ptr',[Ty('struct',name=self.spec.cxx.split('::')[0])]),True)
        return Val('(*this)' if self.spec.selfmode in('mut','ref') else 'this_' if self.spec.selfmode=='ctor' else 'this',Ty('struct',name=self.spec.cls or self.spec.cxx.split('::')[0]),True)
    def e_DeclRefExpr(self,n):
        r=n.get('referencedDecl') or {}
        b=self.vars.get(r.get('id'))
        if b is None:
            if r.get('name')=='npos': return Val('usize::MAX',self.USZ)
            if r.get('kind')=='EnumConstantDecl': self.un(n,'enum')
            gl=self.T.globals.get(r.get('name'))
            if gl: return Val(gl[0],gl[1],True)
            if r.get('name') in self.spec.extra.get('globals',[]): return Val('(*%s)'%r['name'],self.T.global_type(self.spec.file,r['name']),True)
            self.un(n,'unknown variable '+str(r.get('name')))
        if b['kind']=='var': return Val(b['name'],b['ty'],True)
        if b['kind']=='alias': return b['val']
        if b['kind']=='iter':
            return IterV(b['cont'],b['name'],b['rev'])
        if b['kind']=='kiter': return IterV(b['cont'],'KEYED_ITERATOR',key=b['name'])
        if b['kind']=='dropped' and b.get('ty') is not None: return Val('()',b['ty'],True)
        self.un(n,'use of '+b['kind']+' variable '+str(r.get('name')))
    def e_ImplicitCastExpr(self,n):
        ck=n.get('castKind'); c=kids(n)[0]
        if ck in('NoOp','LValueToRValue','DerivedToBase','UncheckedDerivedToBase','ConstructorConversion','UserDefinedConversion','FunctionToPointerDecay','ArrayToPointerDecay','BitCast'):
            return self.ex(c)
        if ck=='IntegralCast':
            v=self.ex(c); t=ty_of(n)
            if v.ty.k=='bool': return Val('(if %s {1%s} else {0%s})'%(v.code,t.name,t.name),t)
            return Val(self.intcast(v.code,v.ty,t),t)
        if ck=='IntegralToFloating':
            v=self.ex(c)
            if re.match(r'^-?\d+$',v.code): return Val(self.flit(v.code),Ty('f64'))
            if v.ty.k=='bool': return Val('f_of_int(if %s {1} else {0})'%v.code,Ty('f64'))
            return Val('f_of_int(%s)'%self.to_i64(v) if v.ty.name in('i32','u32','i64','u8','i16','u16') else 'f_of_u64(%s as u64)'%v.code,Ty('f64'))
        if ck=='FloatingToIntegral':
            v=self.ex(c); t=ty_of(n); return Val('f_trunc_%s(%s)'%(t.name,v.code),t)
        if ck=='FloatingCast': return self.ex(c)
        if ck=='IntegralToBoolean':
            v=self.ex(c); return Val('(%s != 0)'%v.code if v.ty.k=='int' else v.code,Ty('bool'))
        if ck=='FloatingToBoolean':
            v=self.ex(c); return Val('!f_eq(%s, f_zero())'%v.code,Ty('bool'))
        if ck=='NullToPointer':
            try: nt=ty_of(n)
            except Unsupported: nt=None
            if self.is_dyn(nt): return Val(nt.rust()+'::null()',nt)
            if nt is not None and nt.k=='file': return Val('CFile::null()',nt)
            return Val('Ptr::null()',Ty('ptr',[Ty('void')]))
        if ck=='PointerToBoolean':
            v=self.ex(c)
            if self.is_dyn(v.ty): return Val('!%s.null'%v.code,Ty('bool'))
            return Val('!%s.is_null()'%v.code,Ty('bool'))
        self.un(n,'cast '+str(ck))
    e_CStyleCastExpr=e_CXXStaticCastExpr=e_CXXFunctionalCastExpr=e_ImplicitCastExpr
    def e_ConditionalOperator(self,n):
        a,b,c=kids(n)
        va=self.ex(a);vb=self.ex(b);vc=self.ex(c)
        return Val('(if %s { %s } else { %s })'%(va.code,self.owned(vb),self.owned(vc)),vb.ty)
    def e_UnaryOperator(self,n):
        op=n['opcode'];c=kids(n)[0]
        if op in('++','--'):
            v=self.ex(c)
            if isinstance(v,IterV):
                if n.get('isPostfix'): return IterV(v.cont,'{ let t0 = %s; %s = t0 %s 1; t0 }'%(v.pos,v.pos,op[0]),v.rev)
                return IterV(v.cont,'{ %s = %s %s 1; %s }'%(v.pos,v.pos,op[0],v.pos),v.rev)
            a=self.arith(op[0],v.code,'1',v.ty)
            if n.get('isPostfix'): return Val('{ let t0 = %s; %s = %s; t0 }'%(v.code,v.w,a),v.ty)
            return Val('{ %s = %s; %s }'%(v.w,a,v.code),v.ty)
        if op=='&' and CT.FNPTR:
            q=strip(c); nm=q.get('name') if q['kind']=='MemberExpr' else (q.get('referencedDecl')or{}).get('name')
            if nm in CT.FNPTR: return Val('fn_%s()'%nm,Ty('evalfn'))
        v=self.ex(c)
        if op=='!': return Val('!(%s)'%v.code,Ty('bool'))
        if op=='-':
            if v.ty.k=='f64':
                m=re.match(r'^f_of_int\((\d+)\)$',v.code)
                if m: return Val('f_of_int(-%s)'%m.group(1),v.ty)
                return Val('f_neg(%s)'%v.code,v.ty)
            if re.match(r'^\d+$',v.code) and v.ty.signed(): return Val('(-%s)'%v.code,v.ty)
            if v.ty.signed(): return Val('(0 - %s)'%v.code,v.ty)
            return Val('wsub_%s(0, %s)'%(v.ty.name,v.code),v.ty)
        if op=='+': return v
        if op=='*':
            if isinstance(v,IterV): return self.deref(v)
            if v.ty.k=='ptr': return Val(v.code,v.ty.args[0].base() if v.ty.args[0].k!='struct' or v.ty.args[0].name in CT.OWNED_PTR else v.ty,True,v.w)
            self.un(n,'deref')
        if op=='&': return Val(v.code,Ty('ptr',[v.ty]),True,v.w)
        self.un(n,op)
    def e_BinaryOperator(self,n,stmt=False):
        op=n['opcode'];a,b=kids(n)
        if op=='=':
            va=self.ex(a);vb=self.ex(b)
            if isinstance(va,IterV): self.un(n,'iterator assign')
            return self.assign(va,vb,stmt)
        if op==',':
            if stmt: return self.stmt_expr(a)+self.stmt_expr(b)
            self.un(n,'comma')
        va=self.ex(a);vb=self.ex(b)
        if op in('&&','||'): return Val('(%s %s %s)'%(va.code,op,vb.code),Ty('bool'))
        if isinstance(va,IterV) or isinstance(vb,IterV): return self.itercmp(op,va,vb,n)
        return self.binop(op,va,vb,n)
    def binop(self,op,va,vb,n):
        t=va.ty
        if op in('==','!=') and ('file' in(t.k,vb.ty.k) or 'got' in(t.k,vb.ty.k)):
            x,y=(va,vb) if t.k in('file','got') else (vb,va)
            if y.code!='Ptr::null()' and y.code!='CFile::null()': self.un(n,'pointer comparison')
            if x.ty.k=='got': return Val(('!' if op=='==' else '')+x.code,Ty('bool'))
            return Val(('' if op=='==' else '!')+x.code+'.is_null()',Ty('bool'))
        if op in('==','!=','<','>','<=','>='):
            if t.k=='f64':
                c={'==':'f_eq(%s, %s)','!=':'!f_eq(%s, %s)','<':'f_lt(%s, %s)','>':'f_gt(%s, %s)','<=':'f_le(%s, %s)','>=':'f_ge(%s, %s)'}[op]%(va.code,vb.code)
                return Val(c,Ty('bool'))
            if t.k in('int','bool'): return Val('(%s %s %s)'%(va.code,op,vb.code),Ty('bool'))
            if self.is_spval(t) or self.is_spval(vb.ty): self.un(n,'shared_ptr comparison')
            if self.is_dyn(t) or self.is_dyn(vb.ty):
                x,y=(va,vb) if not va.code.endswith('::null()') else (vb,va)
                if op not in('==','!=') or not y.code.endswith('::null()'): self.un(n,'pointer comparison')
                return Val(('' if op=='==' else '!')+x.code+'.null',Ty('bool'))
            if t.k in('ptr','sp') or vb.ty.k in('ptr','sp'):
                return Val(('' if op=='==' else '!')+'ptr_eq(%s, %s)'%(va.code,vb.code),Ty('bool'))
            if op in('==','!='): return Val(('' if op=='==' else '!')+'ceq(%s, %s)'%(self.byref(va),self.byref(vb)),Ty('bool'))
            if op=='<' : return Val('clt(%s, %s)'%(self.byref(va),self.byref(vb)),Ty('bool'))
            if op=='>' : return Val('clt(%s, %s)'%(self.byref(vb),self.byref(va)),Ty('bool'))
            self.un(n,'compare %r'%t)
        if op in('+','-','*','/','%'):
            return Val(self.arith(op,va.code,vb.code,t),t)
        if op in('<<','>>','&','|','^') and t.k=='int':
            return Val('bit_%s_%s(%s, %s)'%({'<<':'shl','>>':'shr','&':'and','|':'or','^':'xor'}[op],t.name,va.code,self.intcast(vb.code,vb.ty,t)),t)
        self.un(n,'binop '+op)
    def e_CompoundAssignOperator(self,n,stmt=False):
        a,b=kids(n);va=self.ex(a);vb=self.ex(b);op=n['opcode'][:-1]
        if isinstance(va,IterV): return ['%s = iter_%s(%s, %s);'%(va.pos,'add' if op=='+' else 'sub',va.pos,self.to_i64(vb))]
        # computation type may differ from the lhs type
        ct=n.get('computeResultType') or {}
        t=va.ty
        if ct:
            c=parse(ct.get('desugaredQualType')or ct['qualType'])
            if c.k!=t.k or c.name!=t.name:
                if t.k=='int' and c.k=='int':
                    r=self.intcast(self.arith(op,self.intcast(va.code,t,c),vb.code,c),c,t)
                elif t.k=='int' and c.k=='f64':
                    r='f_trunc_%s(%s)'%(t.name,self.arith(op,'f_of_int(%s)'%self.to_i64(va),vb.code,c))
                else: self.un(n,'compound')
                return self.assign(va,Val(r,t),stmt)
        if vb.ty.k=='int' and t.k=='int' and vb.ty.name!=t.name: vb=Val(self.intcast(vb.code,vb.ty,t),t)
        return self.assign(va,Val(self.arith(op,va.code,vb.code,t),t),stmt)
    def assign(self,va,vb,stmt):
        code=self.owned(vb)
        if va.ty.k=='str' and vb.ty.k=='int': code='str_n(1, %s)'%self.intcast(vb.code,vb.ty,Ty('int',name='u8'))
        w=va.w
        if stmt:
            if re.match(r'^[\w.()* ]+$',w) and 'at_mut' not in w: return ['%s = %s;'%(w,code)]
            t=self.fresh(); return ['let %s = %s;'%(t,code),'%s = %s;'%(w,t)]
        return Val('{ %s = %s; %s }'%(w,code,self.owned(va)),va.ty)
    def itercmp(self,op,a,b,n):
        if not(isinstance(a,IterV) and isinstance(b,IterV)): 
            if isinstance(a,IterV) and op in('+','-'): 
                return IterV(a.cont,'iter_%s(%s, %s)'%('add' if op=='+' else 'sub',a.pos,self.to_i64(b)),a.rev)
            self.un(n,'iter op')
        if op in('==','!=') and 'KEYED_ITERATOR' in(a.pos,b.pos):
            if a.cont.code!=b.cont.code: self.un(n,'iterators of different containers')
            x,y=(a,b) if a.pos=='KEYED_ITERATOR' else (b,a)
            if y.pos=='%s.len()'%y.cont.code: return Val('%s%s.is_none()'%('' if op=='==' else '!',x.key),Ty('bool'))
            if y.key is not None: return Val('%sceq(&%s, &%s)'%('' if op=='==' else '!',x.key,y.key),Ty('bool'))
            self.un(n,'keyed iterator comparison')
        if op in('==','!='):
            return Val('(%s %s %s)'%(a.pos,op,b.pos),Ty('bool'))
        if op in('<','>','<=','>=') and not a.rev: return Val('(%s %s %s)'%(a.pos,op,b.pos),Ty('bool'))
        if op=='-' and not a.rev: return Val('iter_diff(%s, %s)'%(a.pos,b.pos),Ty('int',name='i64'))
        self.un(n,'iter '+op)
    def e_ArraySubscriptExpr(self,n):
        a,i=[self.ex(c) for c in kids(n)]
        if isinstance(a,IterV) or a.ty.k not in('vec','str') or i.ty.k!='int': self.un(n)
        return self.elem(a,i.code if i.ty.name=='usize' else self.intcast(i.code,i.ty,Ty('int',name='usize')))
    def e_MemberExpr(self,n):
        c=kids(n)
        name=n['name']
        o=self.ex(c[0]) if c else Val('this',Ty('struct'),True)
        if isinstance(o,IterV): o=self.deref(o)
        if o.kv is not None:
            kt,vt=o.ty.args
            if name=='first': return Val('(*%s)'%o.kv[0],kt,True)
            if name=='second': return Val('(*%s)'%o.kv[1],vt,True,'(*%s)'%o.w)
        if o.ty.k=='pair':
            i={'first':0,'second':1}[name]
            return Val('%s.%d'%(o.code,i),o.ty.args[i].base(),True,'%s.%d'%(o.w,i))
        st=o.ty
        if self.is_spval(st): 
            ft=ty_of(n); return Val('%s.nd().%s'%(o.code,rid(name)),ft.base(),True,'SHARED_POINTEE_WRITE')
        if self.is_dyn(st):
            ft=ty_of(n); return Val('%s.base.%s'%(o.code,rid(name)),ft.base(),True,'%s.base.%s'%(o.w,rid(name)))
        if st.k in('ptr','sp'):
            st=st.args[0]
            if CT.HEAP and st.name in CT.HEAP:
                ft=ty_of(n)
                hp=self.T.heap_expr
                return Val('%s.at(%s).%s'%(hp,o.code,rid(name)),ft.base(),True,'%s.at_mut(%s).%s'%(hp,o.code,rid(name)))
        ft=ty_of(n)
        if ft.k=='ptr' and ft.args[0].k in('vec','set','map','list'): pass
        return Val('%s.%s'%(o.code,rid(name)),ft.base(),True,'%s.%s'%(o.w,rid(name)))
    def e_CXXConstructExpr(self,n):
        t=ty_of(n);a=[c for c in kids(n) if c['kind']!='CXXDefaultArgExpr']
        if not a: 
            return Val(self.default(t),t)
        if t.k in('iter','riter') and len(a)==1: return self.ex(a[0])
        if t.k in('ofs','ifs') and len(a)==1:
            v=self.ex(a[0])
            if isinstance(v,IterV) or v.ty.k!='str': self.un(n,'stream constructor')
            return Val('%s_open(%s, %s)'%(t.k,self.disk(n),self.byref(v)),t)
        if len(a)==1:
            v=self.ex(a[0])
            if isinstance(v,IterV): return v
            if v.ty.k==t.k and (t.k!='struct' or v.ty.name==t.name):
                if t.k=='pair' and v.ty!=t:
                    if v.ty.base().rust()!=t.base().rust(): return Val(self.conv_pair(self.owned(v),v.ty,t),t)
                    if not v.place: return v
                return Val(self.owned(v),t) if v.place else v
            if t.k=='str': return v
            if t.k=='vec' and v.ty.k=='int': return Val('vec_n(%s, %s)'%(self.intcast(v.code,v.ty,Ty('int',name='usize')),self.default(t.args[0])),t)
            if t.k in('set','vec','list') and v.ty.k=='ilist':
                return self.from_ilist(t,v)
            if t.k=='sp': return v
            if t.k=='struct' and v.ty.k=='struct': return v
            v=self.ctor_call(t,a,n)
            if v is not None: return v
            self.un(n,'construct %r from %r'%(t,v.ty))
        vs=[self.ex(c) for c in a]
        if t.k=='vec' and len(vs)==2:
            if isinstance(vs[0],IterV): return Val(self.range_copy(vs[0],vs[1],t),t)
            return Val('vec_n(%s, %s)'%(self.intcast(vs[0].code,vs[0].ty,Ty('int',name='usize')),self.owned(vs[1])),t)
        if t.k=='set' and len(vs)==2 and isinstance(vs[0],IterV): return Val(self.range_copy(vs[0],vs[1],t),t)
        if t.k=='uniform' and len(vs)==2: return Val('(%s, %s)'%(self.conv(vs[0],t.args[0]),self.conv(vs[1],t.args[0])),t)
        if t.k=='pair' and len(vs)==2: return Val('(%s, %s)'%(self.conv(vs[0],t.args[0]),self.conv(vs[1],t.args[1])),t)
        v=self.ctor_call(t,a,n)
        if v is not None: return v
        self.un(n,'construct %r/%d'%(t,len(vs)))
    def ctor_call(self,t,a,n):
        if t.k!='struct': return None
        for sp in self.T.bycxx.get('%s::%s'%(t.name,t.name),[]):
            if len(sp.sig or [])<len(a): continue
            try:
                if all(ty_of(x).base()==y.base() for x,y in zip(a,sp.sig or [])): return self.call_spec(sp,None,a,n)
            except Unsupported: pass
        return None
    def fn_make_shared(self,n,a,s):
        t=ty_of(n)
        if t.k!='sp' or not self.is_spval(t): 
            m=re.search(r'shared_ptr<.*?(\w+)>+$',(n.get('type')or{}).get('qualType',''))
            self.un(n,'make_shared of %r'%t)
        st=t.args[0].base()
        if not a: v=Val(self.default(st),st)
        else:
            v=self.ctor_call(st,a,n)
            if v is None: self.un(n,'make_shared arguments')
        return Val('%s::mk(%s)'%(t.rust(),v.code),t)
    def conv_pair(self,code,a,b):
        x=self.fresh(); parts=[]
        for i in(0,1):
            p=a.args[i].base();q=b.args[i].base()
            if p.k=='pair' and q.k=='pair' and p.rust()!=q.rust(): parts.append(self.conv_pair('%s.%d'%(x,i),p,q))
            elif p.k=='int' and q.k=='int': parts.append(self.intcast('%s.%d'%(x,i),p,q))
            elif p.k=='int' and q.k=='f64': parts.append('f_of_int(%s)'%self.intcast('%s.%d'%(x,i),p,Ty('int',name='i64')))
            elif p.rust()==q.rust(): parts.append('%s.%d'%(x,i))
            else: raise Unsupported('pair conversion %r to %r'%(a,b))
        return '{ let %s = %s; (%s) }'%(x,code,', '.join(parts))
    def conv(self,v,t):
        if v.ty.k=='int' and t.k=='int': return self.intcast(v.code,v.ty,t)
        if v.ty.k=='int' and t.k=='f64': return self.flit(v.code) if re.match(r'^-?\d+$',v.code) else 'f_of_int(%s)'%self.to_i64(v)
        return self.owned(v)
    e_CXXTemporaryObjectExpr=e_CXXConstructExpr
    def range_copy(self,a,b,t):
        if a.rev: raise Unsupported('reverse range copy')
        src=a.cont
        full=(a.pos=='0' and b.pos=='%s.len()'%src.code)
        fn={'vec':{'vec':'vec_range','list':'vec_range','set':'vec_from_set_range'},'set':{'vec':'set_from_vec_range','set':'set_from_set_range'}}.get(t.k,{}).get(src.ty.k)
        if not fn: raise Unsupported('range copy %r from %r'%(t,src.ty))
        return '%s(%s, %s, %s)'%(fn,self.byref(src),a.pos,b.pos)
    def e_CXXStdInitializerListExpr(self,n):
        m=kids(n)[0]
        m=strip(m)
        if m['kind']!='InitListExpr': self.un(n)
        v=Val('',Ty('ilist')); v.kv=None; v.w=[self.ex(c) for c in kids(m)]
        return v
    def empty_braces(self,n):
        m=strip(n)
        return 'initializer_list' in (m.get('type')or{}).get('qualType','') and m['kind'] in('InitListExpr','CXXConstructExpr','CXXTemporaryObjectExpr') and not kids(m)
    def from_ilist(self,t,v):
        tmp='{ let mut il = %s; '%self.default(t)
        for x in v.w: tmp+='il.%s(%s); '%('insert' if t.k=='set' else 'push',self.conv(x,t.args[0]))
        return Val(tmp+'il }',t)
    def e_InitListExpr(self,n):
        t=ty_of(n)
        vs=[self.ex(c) for c in kids(n)]
        if t.k=='struct' and t.name in self.T.structs:
            fs=self.T.structs[t.name]
            return Val('%s { %s }'%(t.rust(),', '.join('%s: %s'%(rid(f),self.conv(v,ft)) for (f,ft,_),v in zip(fs,vs))),t)
        if t.k=='vec' and not vs: return Val(self.default(t),t)
        self.un(n,'init list %r'%t)
    def e_CXXScalarValueInitExpr(self,n): return Val(self.default(ty_of(n)),ty_of(n))
    e_ImplicitValueInitExpr=e_CXXScalarValueInitExpr
    def is_dyn(self,t): return t is not None and t.k=='ptr' and t.args[0].k=='struct' and t.args[0].name in CT.DYN
    def e_CXXNewExpr(self,n):
        t=ty_of(n)
        if t.k=='ptr' and t.args[0].k=='struct' and t.args[0].name in CT.HEAP:
            c=kids(n)
            if c and [x for x in kids(c[0]) if x.get('kind')!='CXXDefaultArgExpr']: self.un(n,'new with arguments')
            self.T.models.add('new (a fresh node of the arena, its uninitialised fields arbitrary; allocation succeeds)')
            return Val('%s.alloc(%s)'%(self.T.heap_expr,self.default(t.args[0].base())),t)
        if t.k=='ptr' and t.args[0].k=='struct' and not self.is_dyn(t) and CT.OWNED_PTR.get(t.args[0].name):
            st=t.args[0].base(); a=[x for x in (kids(kids(n)[0]) if kids(n) else []) if x.get('kind')!='CXXDefaultArgExpr']
            v=self.ctor_call(st,a,n)
            if v is None and not a and st.name in self.T.structs and not self.T.structs[st.name]: v=Val(self.default(st),st)
            if v is None: self.un(n,'new %r'%t)
            self.T.models.add('new of an object that is used by one owner (never freed)')
            return Val(v.code,t)
        if not self.is_dyn(t): self.un(n,'new %r'%t)
        c=t.args[0].name; pt=t.rust(); root=self.T.newcls.get(c)
        if root is None: self.un(n,'new of unknown class '+c)
        pars='{ let mut pv = CVec::<F64>::new(); '
        for a in kids(kids(n)[0]) if kids(n) else []:
            v=self.ex(a)
            if isinstance(v,IterV): self.un(n)
            if v.ty.k=='f64': pars+='pv.push(%s); '%v.code
            elif v.ty.k=='int': pars+='pv.push(f_of_int(%s)); '%self.to_i64(v)
            else: self.T.notes.add('constructor arguments that are not numbers are not modelled')
        pars+='pv }'
        self.T.notes.add('constructors of dynamically created stages are modelled by their class name, their numeric arguments and the default member initialisers of the base class')
        return Val('%s { null: false, cls: CStr::lit("%s"), pars: %s, cfg: Ghost(None), base: %s }'%(pt,c,pars,self.default(Ty('struct',name=root))),t)
    def e_CXXDeleteExpr(self,n):
        v=self.ex(kids(n)[0])
        if isinstance(v,IterV) or v.ty.k!='ptr' or v.ty.args[0].name not in CT.HEAP: self.un(n,'delete')
        self.T.models.add('delete (the node may not be used again)')
        return Val('%s.free(%s)'%(self.T.heap_expr,v.code),Ty('void'))
    def e_LambdaExpr(self,n):
        v=Val('',Ty('lambda')); v.kv=None; v.w=n; return v
    # ---------------------------------------------------------------- calls
    def e_CXXOperatorCallExpr(self,n,stmt=False):
        c=kids(n);op=(strip(c[0]).get('referencedDecl')or{}).get('name')
        args=c[1:]
        if op=='operator=':
            va=self.ex(args[0])
            if isinstance(va,IterV):
                vb=self.ex(args[1])
                if not isinstance(vb,IterV) or vb.cont.code!=va.cont.code or vb.rev!=va.rev: self.un(n,'iterator reassigned to another container')
                if va.key is not None:
                    if not stmt or vb.key is None: self.un(n,'keyed iterator assignment')
                    return ['%s = %s;'%(va.key,vb.key)]
                return ['%s = %s;'%(va.pos,vb.pos)] if stmt else IterV(va.cont,'{ %s = %s; %s }'%(va.pos,vb.pos,va.pos))
            if self.empty_braces(args[1]): return self.assign(va,Val(self.default(va.ty),va.ty),stmt)
            vb=self.ex(args[1])
            if isinstance(vb,IterV): self.un(n)
            if vb.ty.k=='ilist': vb=self.from_ilist(va.ty,vb)
            return self.assign(va,vb,stmt)
        if op=='operator[]':
            a=self.ex(args[0]);i=self.ex(args[1])
            if isinstance(a,IterV): self.un(n)
            if a.ty.k=='map':
                key=self.owned(i)
                self.T.models.add('std::map::operator[] (inserts a default value for an absent key)')
                return Val('(*%s.idx(%s, %s))'%(self.recv(a,True),key,self.default(a.ty.args[1])),a.ty.args[1].base(),True)
            return self.elem(a,i.code if i.ty.name=='usize' else self.intcast(i.code,i.ty,Ty('int',name='usize')))
        if op=='operator()':
            f=strip(args[0])
            try: ft=ty_of(f)
            except Unsupported: ft=None
            if ft is not None and ft.k=='uniform':
                v=self.ex(args[0]); e=ft.args[0]
                self.T.models.add('std::uniform_int_distribution yields any value of its range')
                return Val('arb_in_%s(%s.0, %s.1)'%(e.name,v.code,v.code),e)
            return self.call_lambda(f,args[1:],n)
        if op=='operator*' and len(args)==1:
            v=self.ex(args[0])
            if isinstance(v,IterV): return self.deref(v)
            if self.is_spval(v.ty): return self.spderef(v)
            if v.ty.k in('sp','ptr'): return v
            self.un(n)
        if op=='operator->':
            v=self.ex(args[0])
            if isinstance(v,IterV): return self.deref(v)
            return v
        if op in('operator++','operator--'):
            v=self.ex(args[0])
            if isinstance(v,IterV):
                if not re.match(r'^\w+$',v.pos):
                    return IterV(v.cont,'(%s %s 1)'%(v.pos,op[-1]),v.rev)
                if len(args)==2: return IterV(v.cont,'{ let t0 = %s; %s = t0 %s 1; t0 }'%(v.pos,v.pos,op[-1]),v.rev)
                return IterV(v.cont,'{ %s = %s %s 1; %s }'%(v.pos,v.pos,op[-1],v.pos),v.rev)
            self.un(n)
        if op in('operator==','operator!=','operator<','operator>','operator<=','operator>=','operator-','operator+'):
            va=self.ex(args[0]);vb=self.ex(args[1]) if len(args)>1 else None
            o=op[8:]
            if isinstance(va,IterV) or isinstance(vb,IterV): return self.itercmp(o,va,vb,n)
            if self.is_spval(va.ty) or (vb is not None and self.is_spval(vb.ty)): self.un(n,'shared_ptr comparison')
            if va.ty.k=='str' or (vb is not None and vb.ty.k=='str'):
                if o=='+': return Val('str_concat(%s, %s)'%(self.byref(va),self.byref(vb)) if va.ty.k=='str' and vb.ty.k=='str' else self.str_char(va,vb,n),Ty('str'))
            return self.binop(o,va,vb,n)
        if op=='operator!' and len(args)==1:
            v=self.ex(args[0])
            if not isinstance(v,IterV) and v.ty.k=='ifs': return Val('%s.fail()'%v.code,Ty('bool'))
            if not isinstance(v,IterV) and v.ty.k=='bool': return Val('!(%s)'%v.code,Ty('bool'))
            if not isinstance(v,IterV) and v.ty.k=='ofs': return Val('!%s.is_open()'%v.code,Ty('bool'))
        if op=='operator+=':
            va=self.ex(args[0]);vb=self.ex(args[1])
            if not isinstance(va,IterV) and va.ty.k=='str':
                r='str_concat(%s, %s)'%(self.byref(va),self.byref(vb)) if vb.ty.k=='str' else self.str_char(va,vb,n)
                return self.assign(va,Val(r,va.ty),stmt)
        self.un(n,str(op))
    def str_char(self,a,b,n):
        if a.ty.k=='str' and b.ty.k=='int': return 'str_push(%s, %s)'%(self.byref(a),b.code)
        self.un(n,'string +')
    def args_for(self,spec,argn,node):
        """translate arguments according to a callee contract"""
        d=self.T.callee_decl(spec)
        ps=[p for p in d.get('inner',[]) if p.get('kind')=='ParmVarDecl']
        out=[];pre=[];drop=spec.extra.get('drop',[]);itc=None
        for i,a in enumerate(argn):
            p=ps[i];t=ty_of(p)
            nm=rid((spec.params[i] if spec.params and i<len(spec.params) else p.get('name') or ''))
            if nm in drop: continue
            v=self.ex(a)
            if isinstance(v,IterV):
                if t.k!='iter' or v.rev: self.un(node,'iterator argument')
                if itc is None: itc=v.cont.code; out.append('&mut '+v.cont.w)
                elif itc!=v.cont.code: self.un(node,'iterators of different containers')
                out.append(v.pos); continue
            if v.ty.k=='ilist': v=self.from_ilist(t.base(),v)
            if t.k=='ptr' and t.rust()!='Ptr' and nm not in spec.extra.get('owned',[]):
                out.append(('&mut '+v.w) if nm in spec.extra.get('mutptr',[]) else self.byref(v))
            elif t.ref=='&' and not t.const:
                if nm in spec.extra.get('constref',[]): out.append(self.byref(v))
                else: out.append('&mut '+v.w)
            elif t.ref=='&' and t.const and not t.is_copy(): out.append(self.byref(v))
            else: out.append(self.owned(v))
        return out
    def call_spec(self,spec,obj,argn,node):
        args=self.args_for(spec,argn,node)
        if spec.selfmode in('mut','dyn'): args=['&mut '+obj.w]+args
        elif spec.selfmode=='ref': args=['&'+obj.code]+args
        for gname in spec.extra.get('globals',[]):
            if gname not in self.spec.extra.get('globals',[]): self.un(node,'global '+gname)
            args=args+['&mut *'+gname]
        rt=self.T.callee_ret(spec)
        # evaluate owned arguments before taking &mut
        code='%s(%s)'%(spec.rust,', '.join(args))
        if any(a.startswith('&mut') for a in args) and any('at_mut' in a or 'cp(&' in a or '(*' in a for a in args if not a.startswith('&')):
            lets='';na=[]
            for a in args:
                if a.startswith('&'): na.append(a)
                else:
                    t=self.fresh(); lets+='let %s = %s; '%(t,a); na.append(t)
            code='{ %s%s(%s) }'%(lets,spec.rust,', '.join(na))
        self.T.called.add((self.spec.rust,spec.rust))
        return Val(code,rt.base() if rt.k!='void' else rt)
    def resolve(self,cls,name,argn):
        cands=[]
        for q in ([cls+'::'+name] if cls else [name]):
            cands+=self.T.bycxx.get(q,[])
        if not cands and cls:
            for b in self.T.bases.get(cls,[]):
                r=self.resolve(b,name,argn)
                if r: return r
        if len(cands)>1:
            ats=[]
            for a in argn:
                try: ats.append(ty_of(a))
                except Unsupported: ats.append(None)
            c2=[s for s in cands if len(s.sig)==len(ats) and all(x is None or x.base()==y.base() for x,y in zip(ats,s.sig))]
            cands=c2
        else:
            cands=[s for s in cands if s.sig is None or len(s.sig)==len(argn)]
        return cands[0] if cands else None
    def e_CallExpr(self,n,stmt=False):
        c=kids(n);f=strip(c[0]);a=c[1:]
        r=f.get('referencedDecl') or {}
        name=r.get('name')
        sp=None
        if r.get('kind') in ('FunctionDecl','CXXMethodDecl'):
            for q in list(self.T.bycxx):
                if q.split('::')[-1]==name:
                    sp=self.resolve('::'.join(q.split('::')[:-1]),name,a)
                    if sp: break
        if f['kind']=='DeclRefExpr' and self.vars.get(r.get('id'),{}).get('kind')=='lambda':
            return self.call_lambda(f,a,n)
        if sp and name not in('sort','find','max','min'): return self.call_spec(sp,None,a,n)
        h=getattr(self,'fn_'+str(name),None)
        if h: 
            self.T.models.add('std::'+name)
            return h(n,a,stmt)
        if CT.FNPTR and name is None:
            fv=self.ex(c[0])
            if not isinstance(fv,IterV) and fv.ty.k=='evalfn' and len(a)==2:
                x=self.ex(a[0]);y=self.ex(a[1]); self.T.models.add('call through the stream evaluator pointer')
                return Val('eval_call(&%s, &mut %s, &mut %s)'%(fv.code,x.w,y.w),Ty('bool'))
        v=self.try_inline(name,None,a,n,stmt)
        if v is not None: return v
        self.un(n,'call of '+str(name))
    def call_lambda(self,f,a,n):
        b=self.vars.get((f.get('referencedDecl')or{}).get('id')) if f['kind']=='DeclRefExpr' else None
        m=b['node'] if b else f
        m=strip(m)
        while m['kind'] in('CXXConstructExpr','MaterializeTemporaryExpr','ImplicitCastExpr','CXXBindTemporaryExpr'): m=strip(kids(m)[0])
        if m['kind']!='LambdaExpr': self.un(n,'lambda call')
        op=[d for d in kids(kids(m)[0]) if d['kind']=='CXXMethodDecl' and d.get('name')=='operator()'][0]
        return self.inline_body(op,kids(m)[-1],a,n,'lambda')
    def try_inline(self,name,obj,a,n,stmt):
        """a helper without a contract is verified as part of its caller"""
        if self.inl_depth>4: return None
        cls=self.obj_class(obj) if obj is not None else None
        d=self.T.inline_decl(self.spec,self.T.rust2cxx.get(cls,cls) if cls else None,name,a)
        if d is None: return None
        save=getattr(self,'thisv',None); pre=''
        if obj is not None and not(obj.code in('(*this)','this')):
            m=re.match(r'^\(\*(.*)\.nd\(\)\)$',obj.code,re.S)
            if m and not re.match(r'^[\w.()*]+$',m.group(1)) or (m and re.search(r'\w\(',re.sub(r'\.(at|nd)\(','',m.group(1)))):
                t=self.fresh('h_obj'); pre='let %s = %s; '%(t,m.group(1)); obj=Val('(*%s.nd())'%t,obj.ty,True,obj.w)
            self.thisv=obj
        try: v=self.inline_body(d,fn_body(d),a,n,name)
        finally: self.thisv=save
        if pre: v=Val('{ '+pre+v.code+' }',v.ty)
        return v
    def has_return(self,m):
        if m.get('kind')=='LambdaExpr': return False
        return m.get('kind')=='ReturnStmt' or any(self.has_return(x) for x in m.get('inner',[]) if x)
    def inline_body(self,d,body,a,n,name):
        ps=[p for p in d.get('inner',[]) if p.get('kind')=='ParmVarDecl']
        lines=[]
        if len(a)!=len(ps): self.un(n,'default arguments of '+name)
        for p,x in zip(ps,a):
            t=ty_of(p) ; v=self.ex(x)
            if isinstance(v,IterV):
                if t.ref or re.match(r'^(\d+|[\w.()*]+\.len\(\))$',v.pos) or not t.ref:
                    nm=self.fresh('h_'+(p.get('name')or'p'))
                    if t.ref and not t.const: nm=v.pos
                    else: lines.append('let mut %s: usize = %s;'%(nm,v.pos))
                    self.vars[p['id']]={'kind':'iter','name':nm,'cont':v.cont,'rev':v.rev,'ty':v.ty}; continue
            if t.k=='struct' and (t.name in self.T.extra_drop_types or (v.code=='()')):
                self.vars[p['id']]={'kind':'dropped','ty':t}; continue
            if (t.ref or t.k in('ptr',)) and v.place and not t.is_copy(): self.vars[p['id']]={'kind':'alias','val':v,'ty':t.base()}
            elif t.ref and not t.const and v.place: self.vars[p['id']]={'kind':'alias','val':v,'ty':t.base()}
            else:
                if v.ty.k=='ilist': v=self.from_ilist(t.base(),v)
                nm=self.fresh('h_'+(p.get('name')or'p'))
                lines.append('let mut %s: %s = %s;'%(nm,t.rust(),self.conv(v,t)))
                self.vars[p['id']]={'kind':'var','name':nm,'ty':t.base()}
        rt=self.T.ret_type(self.spec.file,d) if 'auto' not in d['type']['qualType'].split('(')[0] else parse(d['type']['qualType'].split('->')[-1].strip() if '->' in d['type']['qualType'] else 'void')
        self.inl_depth+=1
        c0=self.cont; self.cont=[]
        try:
            ls,val=self.tail([c for c in body.get('inner',[]) if c and c.get('kind')],rt)
        finally:
            self.inl_depth-=1; self.cont=c0
        self.T.inlined.add(name)
        code='{ '+'\n'.join(lines+ls)+(' '+val if val else '')+' }'
        if rt.ref and rt.k!='void': self.T.notes.add('helper %s returning a reference is treated as returning a copy'%name)
        return Val(code,rt.base() if rt.k!='void' else rt)
    def tail(self,st,rt):
        """statements of an inlined helper -> (lines, value expression); returns only in tail position"""
        out=[]
        for i,x in enumerate(st):
            if not self.has_return(x):
                out+=self.stmt(x); continue
            if x['kind']=='ReturnStmt':
                if not kids(x): return out,None
                v=self.ex(kids(x)[0])
                if isinstance(v,IterV): self.un(x,'helper returns an iterator')
                if v.ty.k=='ilist': v=self.from_ilist(rt.base(),v)
                return out,self.conv(v,rt)
            if x['kind']=='CompoundStmt':
                ls,v=self.tail([c for c in x.get('inner',[]) if c]+st[i+1:],rt); return out+ls,v
            if x['kind']=='IfStmt':
                inner=[c for c in x['inner'] if c]
                cnd=self.cond(inner[0]); self.shape.append('if')
                l1,v1=self.tail([inner[1]]+([] if self.always_returns(inner[1]) else st[i+1:]),rt)
                l2,v2=self.tail(([inner[2]] if len(inner)>2 else [])+([] if len(inner)>2 and self.always_returns(inner[2]) else st[i+1:]),rt)
                r='if %s { %s %s } else { %s %s }'%(cnd,'\n'.join(l1),v1 or '','\n'.join(l2),v2 or '')
                if v1 is None and v2 is None: return out+[r],None
                return out,r
            self.un(x,'helper with return inside a loop')
        return out,None
    def always_returns(self,x):
        if x['kind']=='ReturnStmt': return True
        if x['kind']=='CompoundStmt': return any(self.always_returns(c) for c in x.get('inner',[]) if c)
        if x['kind']=='IfStmt':
            inner=[c for c in x['inner'] if c]
            return len(inner)>2 and self.always_returns(inner[1]) and self.always_returns(inner[2])
        return False
    def dyn_call(self,vt,o,a,n):
        """call of a function with an assumed contract: (rust name, self mode, result type)"""
        fn,mode,rt=vt[:3]; byref=vt[3] if len(vt)>3 else ()
        args=[self.owned(self.ex(x)) if i not in byref else '&mut '+self.ex(x).w for i,x in enumerate(a)]; lets=''
        if mode=='mut' and any('(' in x for x in args):
            na=[]
            for i,x in enumerate(args):
                if i in byref: na.append(x); continue
                t=self.fresh(); lets+='let %s = %s; '%(t,x); na.append(t)
            args=na
        code='%s(%s)'%(fn,', '.join([('&mut '+o.w) if mode=='mut' else '&'+o.code]+args))
        return Val('{ %s%s }'%(lets,code) if lets else code,parse(rt) if isinstance(rt,str) else rt)
    def obj_class(self,o):
        t=o.ty
        if t.k in('ptr','sp'): t=t.args[0]
        return t.name if t.k=='struct' else None
    def e_CXXMemberCallExpr(self,n,stmt=False):
        c=kids(n);m=c[0];a=c[1:]
        a=[x for x in a if x['kind']!='CXXDefaultArgExpr']
        name=m['name']
        if kids(m):
            l=strip(kids(m)[0])
            b=self.vars.get((l.get('referencedDecl')or{}).get('id')) if l['kind']=='DeclRefExpr' else None
            if b and b['kind']=='dropped' and b.get('ty') is None and name=='count':
                self.T.notes.add('measured times are arbitrary values'); return Val('arb_f64()',Ty('f64'))
        if not kids(m): # implicit this
            o=self.e_CXXThisExpr(m)
        else:
            o=self.ex(kids(m)[0])
        if isinstance(o,IterV): o=self.deref(o)
        if self.is_spval(o.ty):
            if not kids(m)[0].get('kind')=='CXXOperatorCallExpr' and not m.get('isArrow'):
                if name=='operator bool': return Val('!%s.is_null()'%o.code,Ty('bool'))
                self.un(n,'shared_ptr method '+name)
            o=self.spderef(o)
        if o.ty.k=='struct' and o.ty.name in CT.DYN.values(): o=Val(o.code,Ty('ptr',[Ty('struct',name=[k for k,v in CT.DYN.items() if v==o.ty.name][0])]),True,o.w)
        if self.is_dyn(o.ty):
            cls=o.ty.args[0].name
            vt=self.T.virtuals.get((self.T.newcls.get(cls,cls),name))
            if vt: return self.dyn_call(vt,o,a,n)
            sp=self.resolve(cls,name,c[1:]) or self.resolve(self.T.newcls.get(cls,cls),name,a)
            if sp: return self.call_spec(sp,o if sp.selfmode=='dyn' else Val(o.code+'.base',Ty('struct',name=cls),True,o.w+'.base'),a,n)
            if stmt and name in self.T.drop_methods: return []
            self.un(n,'method %s of a polymorphic object'%name)
        if o.ty.k=='ptr' and o.ty.args[0].k=='struct' and o.ty.args[0].name in CT.OWNED_PTR and (o.ty.args[0].name,name) in self.T.externs:
            o=Val(o.code,o.ty.args[0],True,o.w)
        if o.ty.k=='struct' and (o.ty.name,name) in self.T.externs:
            self.T.notes.add('%s::%s is an assumed contract (%s)'%(o.ty.name,name,self.T.externs[(o.ty.name,name)][0]))
            return self.dyn_call(self.T.externs[(o.ty.name,name)],o,a,n)
        if o.ty.k in('struct','ptr','sp') and o.ty.k not in('vec',):
            cls=self.obj_class(o)
            if cls:
                poly=cls in CT.OWNED_PTR or cls in CT.OWNED_PTR.values()
                if cls in CT.OWNED_PTR: cls=self.T.dyn.get(cls,cls)
                cname=self.T.rust2cxx.get(cls,cls)
                sp=self.resolve(cname,name,c[1:]) or self.resolve(cname,name,a)
                if sp: return self.call_spec(sp,o,a,n)
                if stmt and name in self.T.drop_methods: return []
                if poly and stmt:   # a virtual method without a contract: must be unreachable under the precondition
                    return ['no_contract();']
                v=None if poly else self.try_inline(name,o,a,n,stmt)
                if v is not None: return v
                self.un(n,'method %s::%s'%(cls,name))
        if name=='operator bool' and o.ty.k=='bool': return o
        if name=='operator bool' and o.ty.k=='ifs': return Val('!%s.fail()'%o.code,Ty('bool'))
        if name=='operator!' and o.ty.k=='ifs': return Val('%s.fail()'%o.code,Ty('bool'))
        if name=='operator!' and o.ty.k=='bool': return Val('!(%s)'%o.code,Ty('bool'))
        h=getattr(self,'m_%s_%s'%({'list':'vec'}.get(o.ty.k,o.ty.k),name.replace('~','')),None)
        if h is None: self.un(n,'method %s of %r'%(name,o.ty))
        self.T.models.add('std::%s::%s'%({'vec':'vector','str':'string'}.get(o.ty.k,o.ty.k),name))
        return h(n,o,a,stmt)
    USZ=Ty('int',name='usize')
    def mutcall(self,o,meth,args,rt=Ty('void'),stmt=False):
        """o.meth(args): arguments are evaluated before the receiver is borrowed"""
        w=self.recv(o,True)
        simple=all(re.match(r'^[\w]+$',x) for x in args)
        if simple: return Val('%s.%s(%s)'%(w,meth,', '.join(args)),rt)
        lets=[];na=[]
        for x in args:
            if re.match(r'^\w+$',x): na.append(x); continue
            t=self.fresh(); lets.append('let %s = %s;'%(t,x)); na.append(t)
        if stmt: return Val(' '.join(lets)+' %s.%s(%s)'%(w,meth,', '.join(na)),rt)
        return Val('{ %s %s.%s(%s) }'%(' '.join(lets),w,meth,', '.join(na)),rt)
    def elemval(self,x,t):
        v=self.ex(x)
        if isinstance(v,IterV): raise Unsupported('iterator element')
        if v.ty.k=='ilist': v=self.from_ilist(t,v)
        return self.conv(v,t)
    # vector / list
    def m_vec_size(self,n,o,a,s): return Val('%s.len()'%o.code,self.USZ)
    m_set_size=m_map_size=m_str_size=m_str_length=m_vec_size
    def m_vec_empty(self,n,o,a,s): return Val('(%s.len() == 0)'%o.code,Ty('bool'))
    m_set_empty=m_map_empty=m_str_empty=m_vec_empty
    def m_vec_push_back(self,n,o,a,s): return self.mutcall(o,'push',[self.elemval(a[0],o.ty.args[0])],stmt=s)
    m_vec_emplace_back=m_vec_push_back
    def m_vec_pop_back(self,n,o,a,s): return self.mutcall(o,'pop',[])
    def m_vec_clear(self,n,o,a,s): return self.mutcall(o,'clear',[])
    m_set_clear=m_map_clear=m_vec_clear
    def m_vec_reserve(self,n,o,a,s): return [] if s else Val('()',Ty('void'))
    def m_vec_resize(self,n,o,a,s):
        v=self.ex(a[0]); d=self.default(o.ty.args[0]) if len(a)<2 else self.elemval(a[1],o.ty.args[0])
        return self.mutcall(o,'resize',[self.intcast(v.code,v.ty,self.USZ),d],stmt=s)
    def m_vec_back(self,n,o,a,s):
        return Val('(*%s.back())'%o.code,o.ty.args[0].base(),True,'(*%s.back_mut())'%o.w)
    def m_vec_front(self,n,o,a,s): return self.elem(o,'0')
    def m_vec_at(self,n,o,a,s):
        v=self.ex(a[0]); self.T.notes.add('vector::at is treated as an access that must be in range'); return self.elem(o,self.intcast(v.code,v.ty,self.USZ))
    def m_vec_begin(self,n,o,a,s): return IterV(o,'0')
    def m_vec_end(self,n,o,a,s): return IterV(o,'%s.len()'%o.code)
    def m_map_begin(self,n,o,a,s):
        if o.ty.name=='unordered': self.un(n,'iteration over an unordered container')
        return self.m_vec_begin(n,o,a,s)
    m_set_begin=m_vec_cbegin=m_set_cbegin=m_str_begin=m_vec_begin
    m_set_end=m_map_end=m_vec_cend=m_set_cend=m_str_end=m_vec_end
    def m_vec_rbegin(self,n,o,a,s): return IterV(o,'0',True)
    def m_vec_rend(self,n,o,a,s): return IterV(o,'%s.len()'%o.code,True)
    m_set_rbegin=m_vec_rbegin; m_set_rend=m_vec_rend
    def m_vec_erase(self,n,o,a,s):
        i=self.ex(a[0])
        if not isinstance(i,IterV) or i.rev: self.un(n)
        if len(a)==1: v=self.mutcall(o,'erase',[i.pos])
        else:
            j=self.ex(a[1]); v=self.mutcall(o,'erase_range',[i.pos,j.pos])
        if s: return Val(v.code,Ty('void'))
        return IterV(o,v.code)
    def m_vec_insert(self,n,o,a,s):
        i=self.ex(a[0])
        if not isinstance(i,IterV): self.un(n)
        v=self.ex(a[1]) if len(a)==2 else None
        if len(a)==3:
            b=self.ex(a[1]);e=self.ex(a[2])
            if isinstance(b,IterV): return self.mutcall(o,'insert_all',[i.pos,self.range_copy(b,e,Ty('vec',[o.ty.args[0]]))],stmt=s)
            self.un(n)
        return self.mutcall(o,'insert_at',[i.pos,self.conv(v,o.ty.args[0])],stmt=s)
    def m_vec_assign(self,n,o,a,s):
        b=self.ex(a[0]);e=self.ex(a[1])
        if isinstance(b,IterV): return self.assign(o,Val(self.range_copy(b,e,o.ty),o.ty),s)
        return self.assign(o,Val('vec_n(%s, %s)'%(self.intcast(b.code,b.ty,self.USZ),self.conv(e,o.ty.args[0])),o.ty),s)
    # set
    def m_set_insert(self,n,o,a,s):
        if len(a)==2:
            b=self.ex(a[0]);e=self.ex(a[1])
            if isinstance(b,IterV) and isinstance(e,IterV):
                if b.cont.ty.k=='set': return self.mutcall(o,'insert_set',['set_from_set_range(%s, %s, %s)'%(self.byref(b.cont),b.pos,e.pos)],stmt=s)
                return self.mutcall(o,'insert_set',['set_from_vec_range(%s, %s, %s)'%(self.byref(b.cont),b.pos,e.pos)],stmt=s)
            if isinstance(b,IterV): return self.mutcall(o,'insert',[self.conv(e,o.ty.args[0])],stmt=s)
        return self.mutcall(o,'insert',[self.elemval(a[0],o.ty.args[0])],stmt=s)
    m_set_emplace=m_set_insert
    def m_set_find(self,n,o,a,s): return IterV(o,'%s.find(&%s)'%(o.code,self.elemval(a[0],o.ty.args[0])))
    def m_set_count(self,n,o,a,s): return Val('%s.count(&%s)'%(o.code,self.elemval(a[0],o.ty.args[0])),self.USZ)
    def m_set_erase(self,n,o,a,s):
        v=self.ex(a[0])
        if isinstance(v,IterV):
            if v.rev: self.un(n)
            r=self.mutcall(o,'erase_at',[v.pos]); return r if s else IterV(o,r.code)
        return self.mutcall(o,'erase_key',[self.conv(v,o.ty.args[0])],self.USZ,stmt=s)
    # map
    def m_map_find(self,n,o,a,s):
        k=self.elemval(a[0],o.ty.args[0]); return IterV(o,'%s.find(&%s)'%(o.code,k),key='%s.find_key(&%s)'%(o.code,k))
    def m_map_count(self,n,o,a,s): return Val('%s.count(&%s)'%(o.code,self.elemval(a[0],o.ty.args[0])),self.USZ)
    def m_map_erase(self,n,o,a,s):
        v=self.ex(a[0])
        if isinstance(v,IterV) and v.pos=='KEYED_ITERATOR':
            if not s or v.cont.code!=o.code: self.un(n,'erase')
            return self.mutcall(o,'erase_key',['cp(kget(&%s))'%v.key],self.USZ,stmt=s)
        if isinstance(v,IterV): return self.mutcall(o,'erase_at',[v.pos])
        return self.mutcall(o,'erase_key',[self.conv(v,o.ty.args[0])],self.USZ,stmt=s)
    def m_map_insert(self,n,o,a,s):
        v=self.ex(a[0])
        return self.mutcall(o,'insert_pair',[self.conv(v,Ty('pair',o.ty.args))],stmt=s)
    def m_map_at(self,n,o,a,s):
        k=self.elemval(a[0],o.ty.args[0]); return Val('(*%s.get(&%s))'%(o.code,k),o.ty.args[1].base(),True,'(*%s.get_mut(&%s))'%(o.w,k))
    # string
    def m_str_c_str(self,n,o,a,s): return o
    def m_str_substr(self,n,o,a,s):
        vs=[self.ex(x) for x in a]
        cs=[self.intcast(v.code,v.ty,self.USZ) for v in vs]
        if len(cs)==1: return Val('%s.substr_from(%s)'%(o.code,cs[0]),Ty('str'))
        return Val('%s.substr(%s)'%(o.code,', '.join(cs)),Ty('str'))
    def m_str_find(self,n,o,a,s):
        v=self.ex(a[0])
        rest=[self.ex(x) for x in a[1:]]
        p=self.intcast(rest[0].code,rest[0].ty,self.USZ) if rest else '0'
        if v.ty.k=='str': return Val('%s.find_str(%s, %s)'%(o.code,self.byref(v),p),self.USZ)
        return Val('%s.find_char(%s, %s)'%(o.code,v.code,p),self.USZ)
    def m_str_at(self,n,o,a,s):
        v=self.ex(a[0]); return self.elem(o,self.intcast(v.code,v.ty,self.USZ))
    # free std functions
    def whole(self,a,b,n):
        if isinstance(a,IterV) and isinstance(b,IterV) and not a.rev and a.cont.code==b.cont.code: 
            return a.pos=='0' and b.pos=='%s.len()'%a.cont.code
        self.un(n,'range')
    def fn_make_pair(self,n,a,s):
        vs=[self.ex(x) for x in a]
        t=None
        try: t=ty_of(n)
        except Unsupported: pass
        return Val('(%s, %s)'%(self.owned(vs[0]),self.owned(vs[1])),Ty('pair',[vs[0].ty.base(),vs[1].ty.base()]))
    def fn_move(self,n,a,s):
        v=self.ex(a[0]); return v
    def fn_swap(self,n,a,s):
        x=self.ex(a[0]);y=self.ex(a[1]); t=self.fresh()
        t2=self.fresh()
        return ['let %s = %s;'%(t,self.owned(x)),'let %s = %s;'%(t2,self.owned(y)),'%s = %s;'%(x.w,t2),'%s = %s;'%(y.w,t)] if s else self.un(n)
    def cmp_closure(self,x,et):
        """comparator argument -> closure text with an exact ensures clause"""
        m=strip(x)
        while m['kind'] in('CXXConstructExpr','MaterializeTemporaryExpr','ImplicitCastExpr','UnaryOperator'): m=strip(kids(m)[0])
        if m['kind']=='LambdaExpr':
            rec=kids(m)[0]
            op=[d for d in kids(rec) if d['kind']=='CXXMethodDecl' and d.get('name')=='operator()'][0]
            ps=[p for p in op['inner'] if p.get('kind')=='ParmVarDecl']
            body=fn_body(op) or kids(m)[-1]
            st=[c for c in body['inner'] if c]
            if len(st)!=1 or st[0]['kind']!='ReturnStmt': self.un(x,'comparator body')
            nms=['la','lb']
            rt=et.rust()
            byv=[]
            for p,nm in zip(ps,nms): self.vars[p['id']]={'kind':'var','name':'(*%s)'%nm,'ty':ty_of(p).base()}
            return self.closure_text(kids(st[0])[0],rt)
        if m['kind']=='CallExpr' and (strip(kids(m)[0]).get('referencedDecl')or{}).get('name')=='bind':
            ba=kids(m)[1:]; fn=strip(ba[0]); nm=(fn.get('referencedDecl')or{}).get('name')
            d=self.T.inline_decl(self.spec,None,nm,ba[1:])
            if d is None: self.un(x,'bind target')
            ps=[p for p in d['inner'] if p.get('kind')=='ParmVarDecl']
            for p,av in zip(ps,ba[1:]):
                pn=(strip(av).get('referencedDecl')or{}).get('name')
                if pn in('_1','_2'): self.vars[p['id']]={'kind':'var','name':'(*%s)'%('la' if pn=='_1' else 'lb'),'ty':ty_of(p).base()}
                else:
                    v=self.ex(av)
                    if not re.match(r'^\w+$',v.code): self.un(x,'bind argument')
                    self.vars[p['id']]={'kind':'var','name':v.code,'ty':ty_of(p).base()}
            st=[c for c in fn_body(d)['inner'] if c]
            if len(st)!=1 or st[0]['kind']!='ReturnStmt': self.un(x,'comparator body')
            self.T.inlined.add(nm)
            return self.closure_text(kids(st[0])[0],et.rust())
        if m['kind'] in('DeclRefExpr','MemberExpr'):
            name=(m.get('referencedDecl')or{}).get('name') or m.get('name')
            b=self.vars.get((m.get('referencedDecl')or{}).get('id'))
            if b and b['kind']=='lambda': return self.cmp_closure(b['node'],et)
            for q,ss in self.T.bycxx.items():
                if q.split('::')[-1]==name:
                    self.T.called.add((self.spec.rust,ss[0].rust)); return ss[0].rust
        self.un(x,'comparator')
    def closure_text(self,e,rt):
        self.bounds=[]
        v=self.ex(e); sp=self.spec_expr(e)
        b=self.bounds; self.bounds=None
        return '|la: &%s, lb: &%s| -> (r: bool)%s ensures r == (%s) { %s }'%(rt,rt,' requires '+', '.join(b)+',' if b else '',sp,v.code)
    bounds=None
    def spec_expr(self,n):
        """spec-mode rendering of a simple pure boolean expression"""
        n=strip(n);k=n['kind']
        if k=='BinaryOperator':
            a,b=kids(n);op=n['opcode']
            if op in('&&','||'): return '(%s %s %s)'%(self.spec_expr(a),op,self.spec_expr(b))
            ta=self.ex(a)
            return '(%s %s %s)'%(self.spec_val(a),op,self.spec_val(b))
        if k=='UnaryOperator' and n['opcode']=='!': return '!(%s)'%self.spec_expr(kids(n)[0])
        if k=='CXXOperatorCallExpr':
            op=(strip(kids(n)[0]).get('referencedDecl')or{}).get('name')
            if op in('operator==','operator!='): return '(%s %s %s)'%(self.spec_val(kids(n)[1]),op[8:],self.spec_val(kids(n)[2]))
        self.un(n,'spec expression')
    def spec_val(self,n):
        n=strip(n)
        if n['kind']=='ImplicitCastExpr' and n.get('castKind')=='IntegralCast': return self.spec_val(kids(n)[0])
        if n['kind']=='CXXMemberCallExpr' and kids(n)[0]['name']=='size':
            return '%s@.len()'%self.spec_place(kids(kids(n)[0])[0])
        if n['kind'] in('IntegerLiteral',): return n['value']
        v=self.ex(n)
        if v.ty.k=='f64': return self.spec_place(n)+'@'
        return self.spec_place(n)
    def spec_place(self,n):
        n=strip(n);k=n['kind']
        if k=='DeclRefExpr': return self.ex(n).code
        if k=='MemberExpr':
            o=self.spec_place(kids(n)[0])
            return o+'.'+{'first':'0','second':'1'}.get(n['name'],rid(n['name']))
        if k=='IntegerLiteral': return n['value']
        if k=='CXXOperatorCallExpr' and (strip(kids(n)[0]).get('referencedDecl')or{}).get('name')=='operator[]':
            sp,si=self.spec_place(kids(n)[1]),self.spec_val(kids(n)[2])
            if self.bounds is not None: self.bounds.append('0 <= %s < %s@.len()'%(si,sp))
            return '%s@[%s as int]'%(sp,si)
        self.un(n,'spec place')
    def fn_sort(self,n,a,s):
        b=self.ex(a[0]);e=self.ex(a[1])
        w=self.whole(b,e,n); c=b.cont
        if len(a)==2:
            if w: return Val('%s.sort()'%c.w,Ty('void'))
            return Val('{ let p0 = %s; let p1 = %s; %s.sort_range(p0, p1) }'%(b.pos,e.pos,c.w),Ty('void'))
        q=a[2].get('type',{}).get('qualType','')
        if 'greater<' in q and w: return Val('%s.sort_greater()'%c.w,Ty('void'))
        if 'less<' in q and w: return Val('%s.sort()'%c.w,Ty('void'))
        cl=self.cmp_closure(a[2],c.ty.args[0])
        if w: return Val('%s.sort_by(%s)'%(c.w,cl),Ty('void'))
        return Val('{ let p0 = %s; let p1 = %s; %s.sort_range_by(p0, p1, %s) }'%(b.pos,e.pos,c.w,cl),Ty('void'))
    fn_stable_sort=None
    def fn_find(self,n,a,s):
        b=self.ex(a[0]);e=self.ex(a[1]);v=self.ex(a[2]);self.whole(b,e,n)
        if not(b.pos=='0' and e.pos=='%s.len()'%b.cont.code):
            return IterV(b.cont,'find_range(%s, %s, %s, %s)'%(self.byref(b.cont),b.pos,e.pos,'&'+self.conv(v,b.cont.ty.args[0])))
        fn='find_vec' if b.cont.ty.k in('vec','list') else 'find_set'
        return IterV(b.cont,'%s(%s, &%s)'%(fn,self.byref(b.cont),self.conv(v,b.cont.ty.args[0])))
    def setop(self,op,n,a,s):
        b1,e1,b2,e2,o=[self.ex(x) for x in a[:5]]
        if not(self.whole(b1,e1,n) and self.whole(b2,e2,n)): self.un(n,'partial range')
        t=o.cont.ty
        src='_'.join('v' if x.cont.ty.k in('vec','list') else 's' for x in (b1,b2))
        if src not in('v_v','s_s'): self.un(n)
        r='stl_%s_%s(%s, %s)'%(op,src[0],self.byref(b1.cont),self.byref(b2.cont))
        # result is a sorted CVec that is appended / inserted
        if t.k in('vec','list'): return self.mutcall(o.cont,'append_all',[r],stmt=s)
        return self.mutcall(o.cont,'insert_all',[r],stmt=s)
    def fn_set_intersection(self,n,a,s): return self.setop('intersection',n,a,s)
    def fn_set_union(self,n,a,s): return self.setop('union',n,a,s)
    def fn_set_difference(self,n,a,s): return self.setop('difference',n,a,s)
    def fn_set_symmetric_difference(self,n,a,s): return self.setop('symdiff',n,a,s)
    def fn_back_inserter(self,n,a,s):
        v=self.ex(a[0]); return IterV(v,'%s.len()'%v.code,False,True)
    def fn_inserter(self,n,a,s):
        v=self.ex(a[0]); return IterV(v,'0',False,True)
    def fn_transform(self,n,a,s):
        """std::transform with a lambda is expanded to the loop that defines it"""
        if not s: self.un(n)
        vs=[self.ex(x) for x in a[:-1]]
        lam=strip(a[-1])
        while lam['kind'] in('CXXConstructExpr','MaterializeTemporaryExpr','ImplicitCastExpr','UnaryOperator'): lam=strip(kids(lam)[0])
        fdecl=None
        if lam['kind']=='DeclRefExpr':
            b=self.vars.get((lam.get('referencedDecl')or{}).get('id'))
            if b and b['kind']=='lambda':
                lam=strip(b['node'])
                while lam['kind'] in('CXXConstructExpr','MaterializeTemporaryExpr','ImplicitCastExpr'): lam=strip(kids(lam)[0])
            else:
                na=len(vs)-2
                fdecl=self.T.inline_decl(self.spec,None,(lam.get('referencedDecl')or{}).get('name'),[None]*na)
        if fdecl is not None:
            op=fdecl; body=fn_body(fdecl)
        elif lam['kind']=='LambdaExpr':
            op=[d for d in kids(kids(lam)[0]) if d['kind']=='CXXMethodDecl' and d.get('name')=='operator()'][0]
            body=kids(lam)[-1]
        else: self.un(n,'transform functor')
        ps=[p for p in op['inner'] if p.get('kind')=='ParmVarDecl']
        st=[c for c in body['inner'] if c]
        if len(st)!=1 or st[0]['kind']!='ReturnStmt': self.un(n,'lambda body')
        self.loopn+=1;o=self.loopn
        i=self.fresh('tr')
        srcs=vs[:2] if len(ps)==1 else [vs[0],vs[1],vs[2]]
        dst=vs[-1]
        if not self.whole(vs[0],vs[1],n): self.un(n,'partial')
        out=['{','    let mut %s: usize = 0;'%i]
        def bodyfn():
            ls=[]
            e1=self.elem(vs[0].cont,i)
            self.vars[ps[0]['id']]={'kind':'var','name':'e1__','ty':ty_of(ps[0]).base()}
            ls.append('let e1__ = %s;'%self.owned(e1))
            if len(ps)==2:
                if vs[2].pos!='0': self.un(n,'offset')
                e2=self.elem(vs[2].cont,i)
                self.vars[ps[1]['id']]={'kind':'var','name':'e2__','ty':ty_of(ps[1]).base()}
                ls.append('let e2__ = %s;'%self.owned(e2))
            r=self.ex(kids(st[0])[0])
            ls.append('let r__ = %s;'%self.owned(r))
            if dst.ins: ls.append('%s.%s(r__);'%(dst.cont.w,'push' if dst.cont.ty.k!='set' else 'insert'))
            else:
                if dst.pos!='0': self.un(n)
                ls.append('%s = r__;'%self.elem(dst.cont,i).w)
            return ls
        out+=ind(self.loop(n,'%s < %s.len()'%(i,vs[0].cont.code),bodyfn,['%s = %s + 1;'%(i,i)],o,auto_inv='%s <= %s@.len(),'%(i,vs[0].cont.code),auto_dec='%s@.len() - %s'%(vs[0].cont.code,i),hid=i))
        return out+['}']
    def fn_copy(self,n,a,s):
        b,e,o=[self.ex(x) for x in a]
        if not(isinstance(o,IterV) and o.ins): self.un(n,'copy destination')
        return self.mutcall(o.cont,'insert_all' if o.cont.ty.k=='set' else 'append_all',[self.range_copy(b,e,Ty('vec',[o.cont.ty.args[0]]))],stmt=s)
    def fn_count(self,n,a,s):
        b,e=self.ex(a[0]),self.ex(a[1])
        if not self.whole(b,e,n): self.un(n,'partial range')
        c=b.cont; v=self.ex(a[2])
        if c.ty.k=='str' and v.ty.k=='int': return Val('str_count(%s, %s)'%(self.byref(c),v.code),Ty('int',name='i64'))
        self.un(n,'count')
    def fn_accumulate(self,n,a,s):
        b,e,z=self.ex(a[0]),self.ex(a[1]),self.ex(a[2])
        if len(a)>3 or not self.whole(b,e,n): self.un(n)
        et=b.cont.ty.args[0]
        if et.k=='f64' and z.ty.k=='f64': return Val('f_accumulate(%s, %s)'%(self.byref(b.cont),z.code),Ty('f64'))
        self.un(n,'accumulate')
    def fn_pow(self,n,a,s):
        x=self.ex(a[0]);y=self.ex(a[1])
        return Val('f_pow(%s, %s)'%(self.conv(x,Ty('f64')),self.conv(y,Ty('f64'))),Ty('f64'))
    def fn_sqrt(self,n,a,s):
        x=self.ex(a[0]); return Val('f_sqrt(%s)'%self.conv(x,Ty('f64')),Ty('f64'))
    def fn_abs(self,n,a,s):
        x=self.ex(a[0])
        if x.ty.k=='f64': return Val('f_abs(%s)'%x.code,x.ty)
        return Val('iabs_%s(%s)'%(x.ty.name,x.code),x.ty)
    fn_fabs=fn_abs
    def minmax(self,f,n,a):
        x=self.ex(a[0]);y=self.ex(a[1])
        if x.ty.k=='f64': return Val('f_%s(%s, %s)'%(f,x.code,y.code),Ty('f64'))
        return Val('%s_%s(%s, %s)'%(f,x.ty.name,x.code,y.code),x.ty)
    def fn_rand(self,n,a,s):
        return Val('rand_i32()',Ty('int',name='i32'))
    def fn_max(self,n,a,s):
        if not a:
            t=ty_of(n)
            if t.k=='f64': return Val('f_dbl_max()',t)
            if t.k=='int': return Val('%s::MAX'%t.name,t)
        return self.minmax('max',n,a)
    def fn_max_(self,n,a,s): return self.minmax('max',n,a)
    def fn_min(self,n,a,s): return self.minmax('min',n,a)
    def fn_next(self,n,a,s):
        i=self.ex(a[0]); 
        if len(a)>1 and a[1]['kind']!='CXXDefaultArgExpr':
            v=self.ex(a[1]); return IterV(i.cont,'iter_add(%s, %s)'%(i.pos,self.to_i64(v)),i.rev)
        return IterV(i.cont,'(%s + 1)'%i.pos,i.rev)
    def fn_prev(self,n,a,s):
        i=self.ex(a[0]); return IterV(i.cont,'(%s - 1)'%i.pos,i.rev)
    def fn_distance(self,n,a,s):
        x=self.ex(a[0]);y=self.ex(a[1])
        return Val('iter_diff(%s, %s)'%(y.pos,x.pos),Ty('int',name='i64'))
    def fn_to_string(self,n,a,s):
        v=self.ex(a[0]); return Val('to_string_%s(%s)'%('f64' if v.ty.k=='f64' else v.ty.name,v.code),Ty('str'))
    def fn_stoi(self,n,a,s):
        v=self.ex(a[0]); return Val('stoi%s(%s)'%('_ok' if getattr(self.T,'strict_num',False) else '',self.byref(v)),Ty('int',name='i32'))
    def fn_atoi(self,n,a,s):
        v=self.ex(a[0]); return Val('stoi(%s)'%self.byref(v),Ty('int',name='i32'))
    def fn_stod(self,n,a,s):
        v=self.ex(a[0]); return Val('stod%s(%s)'%('_ok' if getattr(self.T,'strict_num',False) else '',self.byref(v)),Ty('f64'))
    def fn_atof(self,n,a,s):
        v=self.ex(a[0]); return Val('stod(%s)'%self.byref(v),Ty('f64'))
    def fn_max_element(self,n,a,s):
        b=self.ex(a[0]);e=self.ex(a[1])
        if len(a)>2 or not self.whole(b,e,n): self.un(n)
        return IterV(b.cont,'max_element(%s)'%self.byref(b.cont))
    def fn_min_element(self,n,a,s):
        b=self.ex(a[0]);e=self.ex(a[1])
        if len(a)>2 or not self.whole(b,e,n): self.un(n)
        return IterV(b.cont,'min_element(%s)'%self.byref(b.cont))
    def fn_includes(self,n,a,s):
        b=self.ex(a[0]);e=self.ex(a[1]);p=self.ex(a[2]);q=self.ex(a[3])
        if len(a)>4 or not self.whole(b,e,n) or not self.whole(p,q,n) or b.cont.ty.k!='set' or p.cont.ty.k!='set' or b.cont.ty.name or p.cont.ty.name: self.un(n)
        return Val('set_includes(%s, %s)'%(self.byref(b.cont),self.byref(p.cont)),Ty('bool'))
    def fn_reverse(self,n,a,s):
        b=self.ex(a[0]);e=self.ex(a[1])
        if not self.whole(b,e,n): self.un(n)
        return Val('%s.reverse()'%b.cont.w,Ty('void'))
