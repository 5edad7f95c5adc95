#!/usr/bin/env python3
"""mt.py SPEC: list M of (name, [checks], [(file,old,new)...]); each applied to a scratch copy, built, tests run optional, checks run"""
import sys,subprocess,shutil,os
T='-t' in sys.argv
spec=sys.argv[1]; only=[a for a in sys.argv[2:] if not a.startswith('-')]
exec(open(spec).read())
for name,checks,edits in M:
    if only and name not in only: continue
    d='/tmp/w'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run('cp -a /repo /tmp/w/repo',shell=True)
    bad=False
    for f,o,n in edits:
        p=f'{d}/repo/{f}'; s=open(p).read()
        if o not in s: print(name,'ANCHOR MISSING',f,o[:50]); bad=True; continue
        s=s.replace(o,n,1); open(p,'w').write(s)
    if bad: continue
    b=subprocess.run('. /opt/vp/env.sh; cd /tmp/w/repo; go vet . 2>&1 | grep -v "^#" | grep -v _test | head -5; '+('go test ./... 2>&1 | tail -3' if T else ''),shell=True,capture_output=True,text=True)
    print('==',name,b.stdout.strip()[-300:])
    for c in checks:
        r=subprocess.run(['/tmp/ana','-repo','/tmp/w/repo','-out','/tmp/ev','-prop',c],capture_output=True,text=True)
        L=[l for l in r.stdout.splitlines() if not l.startswith(c+' ') ]
        print('  ',c,'rc',r.returncode,'|',(L[0][:260] if L else r.stdout.strip()[-120:]), r.stderr[-200:])
