#!/usr/bin/env python3
"""Decides one property: extraction from /repo's working tree, Verus, replay on the real code.

exit 0: held on everything explored; exit 1: VIOLATION line printed; 2: the check itself could not run."""
import os, sys, json, subprocess, time, re, glob, tempfile, shutil, hashlib
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import gen
from gen import Gen, VERIF, REPO
from ctypes_ import Unsupported
import props

def log(*a): print(*a,flush=True)

def run_verus(path, extra=(), timeout=600):
    t=time.time()
    cmd=['verus',path,'--output-json','--time-expanded','--error-format=json','--multiple-errors','20','--triggers-mode','silent','--num-threads','8']+list(extra)
    try:
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout,cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {'timeout':True,'errs':[],'ok':False,'cmd':cmd,'wall':time.time()-t,'raw':'verus timed out after %ds'%timeout,'res':{}}
    out=p.stdout.decode('utf8','replace'); err=p.stderr.decode('utf8','replace')
    try: js=json.loads(out)
    except Exception:
        js={}
    diags=[]
    for l in err.splitlines():
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except Exception: pass
    vr=js.get('verification-results',{})
    errs=[]
    for d in diags:
        if d.get('level')!='error': continue
        m=d.get('message','')
        if m.startswith('aborting due to'): continue
        lines=[(s['line_start'],s.get('label') or '',''.join(x.get('text','') for x in s.get('text',[])).strip(),s.get('file_name','')) for s in d.get('spans',[]) ]
        prim=[s['line_start'] for s in d.get('spans',[]) if s.get('is_primary')]
        errs.append({'msg':m,'lines':lines,'prim':prim,'rendered':d.get('rendered','')})
    ok=bool(vr.get('success')) and p.returncode==0
    front=(not vr) or vr.get('encountered-vir-error') or (vr.get('verified',0)==0 and vr.get('errors',0)==0 and not ok)
    return {'timeout':False,'ok':ok,'errs':errs,'front':bool(front) and not ok,'res':vr,'js':js,'raw':err if not diags else '','cmd':cmd,'wall':time.time()-t}

def count_obligations(path):
    """number of proof obligations (AIR assertions) per generated function"""
    d=tempfile.mkdtemp(prefix='air',dir=os.path.dirname(path))
    subprocess.run(['verus',path,'--log','air','--log-dir',d,'--num-threads','8','--triggers-mode','silent'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=600)
    per={}
    for f in glob.glob(d+'/*.air'):
        if os.path.basename(f).startswith('stl'): continue
        fn=None;inside=False;depth=0
        for l in open(f,errors='replace'):
            m=re.match(r'^;; (?:Function-Def|Function-Decl-Check-Recommends|Function-Termination|Function-Specs|Function-\S+) (\S+)',l)
            if m: fn=m.group(1)
            if l.startswith('(check-valid'): inside=True
            elif inside and (l.startswith('(pop') or l.startswith('(check-valid')): inside=False
            if inside: 
                n=len(re.findall(r'\(assert\s*$|\(assert ',l))
                if n: per[fn]=per.get(fn,0)+n
    shutil.rmtree(d)
    return per

TRUST_WORDS=['external_body','assume(','assume_specification','admit(','axiom fn','uninterp']
def scan_trust(paths):
    r={}
    for p in paths:
        t=open(p).read()
        for w in TRUST_WORDS:
            c=t.count(w)
            if c: r['%s: %s'%(os.path.basename(p),w)]=c
    return r

def fn_of(spans,line):
    for k,(a,b) in spans.items():
        if a<=line<=b: return k
    return None

class Harness:
    def __init__(self,prop,work,repo,san=True):
        self.prop=prop;self.work=work;self.repo=repo;self.exe=None;self.san=san
    def build(self):
        cfg=props.PROPS[self.prop]
        src=os.path.join(VERIF,'harness',cfg['harness'])
        r=self.repo
        incs=['-I%s/%s'%(r,d) for d in('Utils','Complex','Pipes','Preprocessing')]+['-I'+VERIF+'/harness','-I'+r]
        fl=['-std=c++14','-O1','-g1','-w','-D_GLIBCXX_ASSERTIONS']+(['-fsanitize=address','-fno-omit-frame-pointer'] if self.san else [])
        srcs=[]
        for d in('Utils','Complex','Pipes','Preprocessing'): srcs+=sorted(glob.glob('%s/%s/*.cpp'%(r,d)))
        need=cfg.get('objs')
        if need: srcs=[s for s in srcs if os.path.basename(s) in need]
        jobs=[]
        for s in srcs+[src]:
            o=os.path.join(self.work,os.path.basename(s)[:-4]+('_h' if s==src else '')+'.o')
            jobs.append((s,o))
        ps=[(s,o,subprocess.Popen(['g++']+fl+incs+cfg.get('cflags',[])+['-c',s,'-o',o],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)) for s,o in jobs]
        bad=None
        for s,o,p in ps:
            t=p.communicate()[0]
            if p.returncode: bad=bad or (s,t.decode('utf8','replace')[-1500:])
        if bad: raise RuntimeError('harness build failed: %s\n%s'%bad)
        self.exe=os.path.join(self.work,'harness')
        p=subprocess.run(['g++']+fl+[o for _,o in jobs]+['-o',self.exe,'-lpthread'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if p.returncode: raise RuntimeError('harness link failed\n'+p.stdout.decode()[-1500:])
    def run(self,seed,secs,maxcases=0,start=0):
        """returns (failure text or None, number of cases, distinct)"""
        wd=tempfile.mkdtemp(prefix='run',dir=self.work)
        rep=os.path.join(wd,'report')
        env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096')
        try:
            p=subprocess.run([self.exe,str(seed),str(secs),str(maxcases),rep,str(start)],cwd=wd,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,timeout=secs+180,env=env)
            rc=p.returncode; err=p.stderr.decode('utf8','replace')
        except subprocess.TimeoutExpired as e:
            rc=-99; err='harness timed out'
        txt=open(rep,errors='replace').read() if os.path.exists(rep) else ''
        shutil.rmtree(wd,ignore_errors=True)
        m=re.search(r'^DONE cases=(\d+) distinct=(\d+)',txt,re.M)
        cases=int(m.group(1)) if m else 0; dist=int(m.group(2)) if m else 0
        if rc==0 and m:
            self.samples=re.findall(r'^SAMPLE (.*)$',txt,re.M)
            return None,cases,dist
        if 'FAIL' in txt: return txt,cases,dist
        return txt+'\nFAIL the real code crashed or did not terminate on the case named above (exit %s)\n%s'%(rc,err[:3000]),cases,dist

def main():
    prop=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if len(sys.argv)>2: tier=sys.argv[2]
    seed=int(os.environ.get('VERIF_SEED','1'))
    t0=time.time()
    cfg=props.PROPS[prop]
    base=os.path.join(VERIF,'build'); os.makedirs(base,exist_ok=True)
    work=tempfile.mkdtemp(prefix=prop+'.',dir=base)
    try:
        rc=decide(prop,cfg,tier,seed,work,t0)
    finally:
        shutil.rmtree(work,ignore_errors=True)
    sys.exit(rc)

def load_known():
    k=[]
    p=os.path.join(VERIF,'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'^KNOWN-FINDING: property=(\S+) (.*)$',l.strip())
            if m: k.append((m.group(1),m.group(2)))
    return k

def baseline_shapes():
    p=os.path.join(VERIF,'contracts','shapes.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def decide(prop,cfg,tier,seed,work,t0):
    # ---------------- 1. extraction + verification
    H=Harness(prop,work,REPO)
    import threading
    herr=[]
    def hb():
        try: H.build()
        except Exception as e: herr.append(e)
    th=None
    if cfg.get('harness'):
        th=threading.Thread(target=hb); th.start()
    notes=[];fails={};order=[];spans={};v=None;G=None;fts={}
    gpath=os.path.join(work,prop.lower()+'.rs')
    try:
        G=Gen(REPO)
        order,spans,fails,fts=G.build(cfg['roots'],cfg.get('libs',['base.rs']),cfg.get('structs',[]),gpath,cfg.get('extra',''),setup=cfg.get('setup'))
        v=run_verus(gpath)
    except Unsupported as e:
        fails['<extraction>']=str(e)
    except Exception as e:
        import traceback
        fails['<extraction>']='%s: %s'%(type(e).__name__,e)
        if os.environ.get('LHF_DEBUG'): traceback.print_exc()
    if th: th.join()
    if herr:
        log(str(herr[0])); return 2
    own=set(cfg['roots'])
    undecided=list(fails.items())
    failed=[]        # (function, error)
    foreign=[]       # parts of a function whose obligations decide another property (marked in the contract file)
    if os.path.exists(gpath):
        st=None
        for i,l in enumerate(open(gpath),1):
            if '//@foreign-begin' in l: st=i
            if '//@foreign-end' in l and st: foreign.append((st,i)); st=None
    if v is not None and not v['ok']:
        if v['timeout'] or v['front']:
            undecided.append(('<verus>', (v['errs'][0]['rendered'] if v['errs'] else v['raw'])[:1500]))
        for e in v['errs']:
            if v['front']: continue
            if 'rlimit' in e['msg'] or 'Resource limit' in e['msg'] or 'timed out' in e['msg']:
                undecided.append((fn_of(spans,(e['prim'] or [0])[0]) or '?',e['msg'])); continue
            if any(a<=ln<=b for ln in e['prim'] for a,b in foreign):
                undecided.append((fn_of(spans,(e['prim'] or [0])[0]) or '?','in a part of the function that belongs to another property:\n'+e['rendered'])); continue
            f=None
            for ln in e['prim']+[x[0] for x in e['lines']]:
                f=f or fn_of(spans,ln)
            failed.append((f,e))
        if not v['errs'] and not v['front'] and not v['timeout']: undecided.append(('<verus>',v['raw'][:1500]))
    vac=[]
    # ---------------- 2. vacuity guards (every precondition reachable, no contradiction in the model)
    vguard=0
    if v is not None and v['ok']:
        if v['res'].get('verified',0)==0: 
            log('internal error: verifier reported zero obligations'); return 2
        p2=os.path.join(work,'vac.rs')
        names=G.vacuity(order,fts,gpath,p2,spans)
        vv=run_verus(p2,['--verify-root','--verify-function','vac_*'])
        bad=set()
        for e in vv['errs']:
            for x in e['lines']: 
                m=re.search(r'vac_(\w+)',x[2])
                if m: bad.add(m.group(1))
            for ln in e['prim']:
                for k,(a,b) in G.vacspans.items():
                    if a<=ln<=b: bad.add(k)
        vac=[n for n in names if n not in bad]
        vguard=len(names)-len(vac)
        if vac or (vv['front'] and names):
            log('internal error: vacuous contracts (the obligation "false" was provable) or guard failed:',vac,[e['rendered'] for e in vv['errs'][:2]] if vv['front'] else '')
            return 2
    # ---------------- 3. bounded differential run on the real code
    ftxt=None;cases=dist=0;hs=0
    quick=cfg.get('quick_s',8); thorough=cfg.get('thorough_s',90)
    if cfg.get('harness'):
        hs=quick if tier=='quick' else thorough
        ftxt,cases,dist=H.run(seed,hs)
        if ftxt is None and (failed or undecided):
            s2=cfg.get('search_s',100)
            log('obligations failed or undecided; searching for a failing input for %ds'%s2)
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(6) as ex:
                for f,c,d in ex.map(lambda k: H.run(seed*1000+k,s2,start=1),range(1,7)):
                    cases+=c;dist+=d
                    if f and not ftxt: ftxt=f
    # ---------------- 4. verdict
    shapes=baseline_shapes()
    os.makedirs(os.path.join(VERIF,'replays'),exist_ok=True)
    rp=os.path.join(VERIF,'replays',prop+'.txt')
    rc=0; violations=[]
    known=[k for k in load_known() if k[0]==prop]
    def obl_text():
        s=''
        for f,e in failed: s+='\n--- failed obligation in %s (contract of %s)\n%s\n'%(f,G.by[f].cxx if G and f in G.by else f,e['rendered'])
        for f,e in undecided: s+='\n--- undecided: %s: %s\n'%(f,e)
        return s
    if ftxt:
        open(rp,'w').write('property %s: failing input on the real code (case seed reproducible with harness %s)\n%s\n%s'%(prop,cfg['harness'],ftxt,obl_text()))
        log(ftxt[:1500]); log(obl_text()[:3000])
        log('VIOLATION property=%s replay=%s'%(prop,rp)); rc=1
        violations.append({'replay':rp,'kind':'failing input','text':ftxt[:500]})
    elif failed:
        mine=[(f,e) for f,e in failed if f in own]
        same=[(f,e) for f,e in mine if f in fts and shapes.get(f)==fts[f].shape_str()]
        log(obl_text()[:6000])
        if same:
            open(rp,'w').write('property %s: the verifier rejects the obligation(s) below; no failing input found\n%s'%(prop,obl_text()))
            log('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,rp)); rc=1
            violations.append({'replay':rp,'kind':'failed obligation','text':obl_text()[:500]})
        else:
            log('UNDECIDED by proof (%s); bounded search over %d cases found no violation'%('callee contract only' if not mine else 'code shape changed',cases))
    elif undecided:
        log(obl_text()[:3000]); log('UNDECIDED by proof; bounded search over %d cases found no violation'%cases)
    if rc and os.path.exists(gpath): shutil.copy(gpath,os.path.join(VERIF,'replays',prop+'.rs'))
    for k in known: log('KNOWN-FINDING: property=%s %s'%k)
    # ---------------- 5. evidence
    ob={}
    if v is not None and not v['front'] and not v['timeout']:
        try: ob=count_obligations(gpath)
        except Exception as e: notes.append('obligation count unavailable: %s'%e)
    total=sum(ob.values()); nfail=len(failed)
    proved=(v is not None and v['ok'])
    ver=v['js'].get('times-ms',{}) if v and v.get('js') else {}
    trust=scan_trust([os.path.join(VERIF,'lib','stl.rs'),gpath]) if os.path.exists(gpath) else {}
    T=G.T if G else None
    ev={'property':prop,'tier':tier,'seed':seed,
        'level':'proof' if proved and not fails else 'exploration',
        'coverage':{
          'obligations':total,'discharged':total-nfail if proved or failed else 0,
          'verification_units':v['res'].get('verified',0) if v else 0,
          'checker_cmd':'verus %s (extracted from %s on this run)'%(os.path.basename(gpath),REPO),
          'back_end':'Verus 0.2026.09.13 with its bundled Z3','smt_ms':ver.get('smt',{}).get('total'),'verifier_wall_s':round(v['wall'],2) if v else None,
          'functions_under_contract':[{'rust':r,'cxx':G.by[r].cxx,'file':G.by[r].file,'role':'own' if r in own else 'callee'} for r in order] if G else [],
          'functions_not_attached':{k:str(x) for k,x in fails.items()},
          'vacuity_guards_refuted':vguard,
          'trusted_base':['Verus and Z3','clang AST and the extractor /verif/tool/xlate.py','standard-library model /verif/lib/stl.rs: '+json.dumps(trust)]+(['models used: '+', '.join(sorted(T.models))] if T and T.models else []),
          'dropped_by_extraction':sorted(T.dropped) if T else [],
          'inlined_helpers':sorted(T.inlined) if T else [],
          'evaluations':cases,'distinct_nontrivial':dist,'rule':'random and small exhaustive inputs of the property harness, run on the compiled sources under AddressSanitizer and compared with an independent oracle; labelled bounded, never counted as proved',
          'samples':[x[:400] for x in getattr(H,'samples',[])][:4],'explanation':cfg.get('explain','')},
        'assumptions':['double arithmetic is modelled as real arithmetic (ordering exact, rounding ignored, no NaN)','containers hold fewer than 2^31 elements','machine integers are modelled exactly (unsigned wraps, signed overflow is an obligation)']+sorted(T.notes if T else [])+cfg.get('assumptions',[]),
        'wall_s':round(time.time()-t0,2),'violations':len(violations)}
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(VERIF,'evidence',prop+'.json'),'w'),indent=1)
    if rc==0:
        log('%s: %s; %d obligations in %d functions; harness %d cases; %.1fs'%(prop,'all obligations discharged' if proved and not fails else 'bounded only',total,len(order),cases,time.time()-t0))
    return rc

if __name__=='__main__': main()
