"""C++ type strings -> structured types -> Rust (Verus) types."""
import re

class Unsupported(Exception):
    pass

INT = {
 'int': 'i32', 'unsigned int': 'u32', 'unsigned': 'u32', 'unsigned long': 'usize', 'long': 'i64',
 'long long': 'i64', 'unsigned long long': 'u64', 'char': 'u8', 'unsigned char': 'u8', 'short': 'i16',
 'unsigned short': 'u16', 'signed char': 'i8', 'size_t': 'usize', 'std::size_t': 'usize', 'size_type': 'usize',
 'difference_type': 'i64', 'ptrdiff_t': 'i64', 'std::ptrdiff_t': 'i64', 'uint32_t': 'u32','int64_t':'i64',
 'std::vector::size_type':'usize',
}
BITS = {'i8':8,'u8':8,'i16':16,'u16':16,'i32':32,'u32':32,'i64':64,'u64':64,'usize':64}

class Ty:
    def __init__(self, k, args=(), name=None, const=False, ref=None):
        self.k=k; self.args=list(args); self.name=name; self.const=const; self.ref=ref  # ref: None,'&','&&'
    def base(self):
        return Ty(self.k,self.args,self.name)
    def key(self):
        return (self.k,self.name,tuple(a.key() for a in self.args))
    def __eq__(self,o): return isinstance(o,Ty) and self.key()==o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self):
        s=self.name or self.k
        if self.args: s+='<'+','.join(map(repr,self.args))+'>'
        return ('const ' if self.const else '')+s+(self.ref or '')
    def is_int(self): return self.k=='int'
    def is_copy(self): return self.k in('int','bool','f64','iter','char') or (self.k=='pair' and all(a.is_copy() for a in self.args)) or self.k in ('idx',)
    def signed(self): return self.name[0]=='i'
    def rust(self, env=None):
        k=self.k
        if k=='int': return self.name
        if k=='bool': return 'bool'
        if k=='f64': return 'F64'
        if k=='str': return 'CStr'
        if k in('vec','list'): return 'CVec<%s>'%self.args[0].rust()
        if k=='set': return ('CSetD<%s>' if self.name=='desc' else 'CSet<%s>')%self.args[0].rust()
        if k=='map': return 'CMap<%s,%s>'%(self.args[0].rust(),self.args[1].rust())
        if k=='uniform': return '(%s, %s)'%(self.args[0].rust(),self.args[0].rust())
        if k=='pair': return '(%s)'%', '.join(a.rust() for a in self.args)
        if k=='iter': return 'usize'
        if k=='ofs': return 'COfs'
        if k=='ifs': return 'CIfs'
        if k=='file': return 'CFile'
        if k=='disk': return 'CDisk'
        if k=='evalfn': return 'CEval'
        if k=='void': return '()'
        if k=='struct': return STRUCT_ALIAS.get(self.name, cap(self.name))
        if k in('ptr','sp'):
            a=self.args[0]
            n = a.name
            if k=='sp' and n in SPVAL: return SPVAL[n]
            if k=='ptr' and n in DYN: return DYN[n]
            if k=='ptr' and n in OWNED_PTR: return OWNED_PTR[n]
            if k=='ptr' and a.k in('vec','set','map','list'): return a.rust()
            if n in HEAP: return 'Ptr'
            raise Unsupported('pointer type %r'%self)
        raise Unsupported('rust type of %r'%self)

STRUCT_ALIAS={}
OWNED_PTR={}    # pointee class name -> rust type (value semantics for uniquely owned pointers)
SPVAL={}        # class name -> rust type of an immutable shared pointer to it
RESOLVE=[]      # lookup of a type alias
TYPEDEFS={}     # type aliases resolved from the AST
DYN={}          # class name -> rust type of a pointer to a polymorphic object
FNPTR=set()     # functions whose address is taken: names of the modelled evaluators
HEAP=set()      # pointee class names living in an arena

def cap(n):
    n=n.replace('::','_')
    return n[0].upper()+n[1:]

def split_args(s):
    out=[];d=0;cur=''
    for c in s:
        if c=='<':d+=1
        if c=='>':d-=1
        if c==',' and d==0: out.append(cur.strip());cur='';continue
        cur+=c
    if cur.strip(): out.append(cur.strip())
    return out

def parse(s):
    s=s.strip()
    const=False; ref=None
    if s.endswith('&&'): ref='&&'; s=s[:-2].strip()
    elif s.endswith('&'): ref='&'; s=s[:-1].strip()
    while True:
        s=s.strip()
        if s.startswith('const '): const=True; s=s[6:]; continue
        if s.endswith(' const'): const=True; s=s[:-6]; continue
        if s.startswith('struct '): s=s[7:]; continue
        if s.startswith('class '): s=s[6:]; continue
        if s.startswith('typename '): s=s[9:]; continue
        break
    t=parse0(s)
    t=Ty(t.k,t.args,t.name,const or t.const,ref)
    return t

def parse0(s):
    if s.endswith('*const'): s=s[:-5]
    if re.match(r'^(const )?char \*$',s) or re.match(r'^char ?\[\d+\]$',s): return Ty('str')
    if s in('FILE *','_IO_FILE *','struct _IO_FILE *'): return Ty('file')
    if s in('std::ofstream','std::ostream','std::basic_ofstream<char>','std::basic_ostream<char>','basic_ostream<char>','std::basic_ostream<char, std::char_traits<char>>','ofstream'): return Ty('ofs')
    if s in('std::ifstream','std::istream','std::basic_ifstream<char>','std::basic_istream<char>','basic_istream<char>','ifstream'): return Ty('ifs')
    if re.match(r'^(const )?char \*\*$',s): return Ty('vec',[Ty('str')])
    if FNPTR and re.match(r'^bool \(\*\)\(std::vector<double> ?&, std::vector<std::vector<double>> ?&\)$',s): return Ty('evalfn')
    if s.endswith('*'):
        return Ty('ptr',[parse(s[:-1])])
    if s in INT: return Ty('int',name=INT[s])
    if s=='bool' or s=='_Bool': return Ty('bool')
    if s in('double','float','long double'): return Ty('f64')
    if s=='void': return Ty('void')
    if s in('std::string','string','std::basic_string<char>','basic_string<char>','std::__cxx11::basic_string<char>'): return Ty('str')
    if s=='std::random_device': return Ty('rng')
    if re.match(r'^\w+$',s) and RESOLVE:
        if s not in TYPEDEFS: TYPEDEFS[s]=RESOLVE[0](s)
        if TYPEDEFS[s]: return parse(TYPEDEFS[s])
    m=re.match(r'^([\w:]+)<(.*)>(::\w+)?$',s,re.S)
    if m:
        n=m.group(1); a=split_args(m.group(2)); suf=m.group(3)
        n0=n.split('::')[-1]
        if suf:
            if suf in('::size_type',): return Ty('int',name='usize')
            if suf in('::difference_type',): return Ty('int',name='i64')
            if suf in('::value_type','::reference','::const_reference') and n0 in('vector','set','list'): return parse(a[0])
            if suf in('::iterator','::const_iterator'): return Ty('iter',[parse(s[:-len(suf)])])
            if suf in('::reverse_iterator','::const_reverse_iterator'): return Ty('riter',[parse(s[:s.rindex('::')])])
            raise Unsupported('type '+s)
        if n0=='vector': return Ty('vec',[parse(a[0])])
        if n0=='list': return Ty('list',[parse(a[0])])
        if n0 in('set',): return Ty('set',[parse(a[0])],name='desc' if len(a)>1 and 'greater' in a[1] else None)
        if n0=='unordered_map': return Ty('map',[parse(a[0]),parse(a[1])],name='unordered')
        if n0=='map': return Ty('map',[parse(a[0]),parse(a[1])])
        if n0=='pair': return Ty('pair',[parse(x) for x in a[:2]])
        if n0=='basic_string': return Ty('str')
        if n0=='__normal_iterator': return Ty('iter',[parse(a[1])])
        if n0 in('_Rb_tree_const_iterator','_Rb_tree_iterator','_List_iterator','_List_const_iterator'):
            return Ty('iter',[Ty('elem',[parse(a[0])])])
        if n0=='reverse_iterator': 
            it=parse(a[0]); return Ty('riter',it.args)
        if n0=='shared_ptr': return Ty('sp',[parse(a[0])])
        if n0=='uniform_int_distribution': return Ty('uniform',[parse(a[0])])
        if n0=='mersenne_twister_engine': return Ty('rng')
        if n0=='function' : raise Unsupported('type '+s)
        return Ty('struct',name=n,args=[])
    m=re.match(r'^(\w+)::(iterator|const_iterator|size_type)$',s)
    if m and m.group(1)!='std': return Ty('int',name='usize') if m.group(2)=='size_type' else Ty('iter',[parse(m.group(1))])
    if re.match(r'^[\w:]+$',s): return Ty('struct',name=s.split('::')[-1])
    raise Unsupported('type '+s)

def ty_of(node):
    t=node.get('type')
    if not t: raise Unsupported('no type on '+node.get('kind','?'))
    return parse(t.get('desugaredQualType') or t['qualType'])
