"""Reads the contract files (/verif/contracts/*.vc)."""
import re
from ctypes_ import parse
from xlate import FnSpec

def load(path):
    out=[];cur=None;sec=None;buf=[]
    def flush():
        nonlocal sec,buf
        if cur is None or sec is None: buf=[];sec=None;return
        t='\n'.join(buf)
        if sec=='requires': cur.requires=t
        elif sec=='ensures': cur.ensures=t
        elif sec=='decreases': cur.decreases=t.strip().rstrip(',')
        elif sec.startswith('loop '):
            _,n,w=sec.split(); cur.loops.setdefault(int(n),{})[w]=t
        elif sec.startswith('at '): cur.anch[sec[3:].strip()]=t
        elif sec=='attrs': cur.attrs=[x.strip() for x in t.split('\n') if x.strip()]
        buf=[];sec=None
    for ln in open(path):
        ln=ln.rstrip('\n')
        if ln.startswith('#') and not ln.startswith('#['): continue
        if ln.startswith('@fn'):
            flush(); cur=FnSpec(); cur.rust=ln.split()[1]; cur.src=path; cur.sig=None; continue
        if ln.startswith('@end'):
            flush(); out.append(cur); cur=None; continue
        if cur is None: continue
        m=re.match(r'^(\w[\w .]*?):\s?(.*)$',ln)
        if m and not ln.startswith(' '):
            flush(); k=m.group(1).strip(); v=m.group(2)
            if k=='cxx': cur.cxx=v.strip()
            elif k=='file': cur.file=v.strip()
            elif k=='sig': cur.sig=[parse(x) for x in v.split(';') if x.strip()]
            elif k=='self':
                p=v.split(); cur.selfmode=p[0]; cur.cls=p[1] if len(p)>1 else None
            elif k=='params': cur.params=v.split()
            elif k in('drop','constref','owned','mutptr','iters','globals'): cur.extra[k]=v.split()
            elif k=='ret': cur.retname=v.strip()
            elif k=='props': cur.props=v.split()
            else:
                sec=k; buf=[v] if v.strip() else []
            continue
        if sec is not None: buf.append(ln)
    return out

def align(base,cur):
    """renumbering {(kind, current ordinal): recorded ordinal} for functions to which statements of a kind were added, or from which some were removed;
    statements with the recorded text keep their recorded number, the others are paired in order between those"""
    rm={}
    for kind,b in (base or {}).items():
        c=[t for n,t in sorted(cur.get(kind,[]))]
        if c==b or (len(c)==len(b) and sorted(c)!=sorted(b)): continue
        pair={}; nb={}; nc={}
        for t in b: nb[t]=nb.get(t,0)+1
        for t in c: nc[t]=nc.get(t,0)+1
        for t in nb:
            if nb[t]==nc.get(t): pair.update(zip([i for i,x in enumerate(c) if x==t],[i for i,x in enumerate(b) if x==t]))
        if len(b)!=len(c):
            # longest common subsequence for texts that occur a different number of times
            import difflib
            for k in difflib.SequenceMatcher(None,c,b,autojunk=False).get_matching_blocks():
                for d in range(k.size):
                    if k.a+d not in pair and k.b+d not in pair.values(): pair[k.a+d]=k.b+d
        lc=[i for i in range(len(c)) if i not in pair]; lb=[i for i in range(len(b)) if i not in pair.values()]
        inv={v:k for k,v in pair.items()}
        if len(lc)==len(lb): pair.update(zip(lc,lb))
        else:
            sl={}
            for i in lb: sl.setdefault(max([inv[j] for j in inv if j<i],default=-1),[[],[]])[0].append(i)
            for i in lc: sl.setdefault(max([j for j in inv.values() if j<i],default=-1),[[],[]])[1].append(i)
            for x,y in sl.values(): pair.update(zip(y,x))
        for i in range(len(c)):
            rm[(kind,i+1)]=pair[i]+1 if i in pair else 'new%d'%(i+1)
    return rm
