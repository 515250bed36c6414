import sys,json,collections,subprocess
ev=[json.loads(l) for l in open(sys.argv[1])]
tot=collections.Counter(); cov=collections.Counter(); fs=collections.Counter(); ab={}
v=[e for e in ev if e['ev'] in('violation','engine_error')]
for e in ev:
    if e['ev']=='stats':
        for k,x in e.items():
            if isinstance(x,int): tot[k]+=x
        for k,x in e['covers'].items(): cov[k]+=x
        for k,x in e['asserts_by'].items():
            a=ab.setdefault(k,[0,0]); a[0]+=x[0]; a[1]+=x[1]
        for s in e['fork_sites']: fs[s[0]]+=s[2]
    if e['ev']=='end': print({k:e[k] for k in e if k!='ev'})
print({k:tot[k] for k in ("unknown","paths","infeasible",'forks','queries','qcache','qsat','qunsat','asserts','assert_sym','assert_folded','steps','panics','pending')}, 'solver_s',tot['solver_ns']/1e9)
for k,x in sorted(cov.items()): print('  cover',x,k)
for k,x in sorted(ab.items()): print('  assert',x,k)
for k,x in fs.most_common(12): print('  fork',x,k)
seen=collections.Counter()
for e in v:
    key=(e['ev'],e.get('kind'),e.get('msg'),e.get('where','')[:80])
    seen[key]+=1
for k,n in seen.most_common(): print('VIOL',n,k)
import os
mx=int(os.environ.get('MX','3'))
import random
random.seed(1)
random.shuffle(v)
for e in v[:mx]:
    if 'inputs' not in e: print(e); continue
    open('/tmp/in.txt','w').write(''.join('%s %d\n'%(a,b) for a,b in e['inputs']))
    print('---',e.get('msg'),e.get('where','')[:200])
    try:
        r=subprocess.run(['/verif/build/native_harness/debug/vh',sys.argv[2],'/tmp/in.txt'],capture_output=True,text=True,timeout=10)
        for l in r.stdout.splitlines():
            import re
            l=re.sub(r"<defs><clipPath id=.c.><path d=.M 0 0 H 5 V 5 Z./></clipPath><mask id=.m.>.*?(</defs>|</filter>)","<DEFS>",l)
            l=l.replace(' xmlns:xlink="http://www.w3.org/1999/xlink"','')
            if re.match(r'NOTE |VIOL|PANIC',l) and not re.match(r'NOTE <',l): print('    ',l)
    except Exception as x: print(x)
