#!/usr/bin/env python3
"""Build and validate one planted bug.  usage: mkseed.py SPEC.py
SPEC defines: id, property, needs, what, edits=[(file,old,new)], demo (Go test source, func TestDemo),
race=False."""
import sys,os,subprocess,shutil,json,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
sid=spec['id']
W='/tmp/seedwork'
shutil.rmtree(W,ignore_errors=True)
subprocess.check_call(['cp','-a','/repo',W])
def run(cmd,cwd=W,**k): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,**k)
D=f'/verif/seeded/{sid}'
shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
open(D+'/demo_test.go.txt','w').write(spec['demo'])
race='-race ' if spec.get('race') else ''
open(D+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 if the behaviour is right, nonzero if it is broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" || exit 3
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
printf '{{"Replace": {{"%s/zz_demo_test.go": "%s/zz_demo_test.go"}}}}' "$repo" "$tmp" > "$tmp/overlay.json"
timeout 200 go test {race}-count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' .
''')
r=run(f'bash {D}/demo.sh')
if r.returncode!=0: print(r.stdout[-2000:],r.stderr[-2000:]); sys.exit('demo fails on the unchanged tree')
for f,a,b in spec['edits']:
    s=open(f'{W}/{f}').read()
    assert s.count(a)==1,(f,a,s.count(a))
    open(f'{W}/{f}','w').write(s.replace(a,b))
d=run('git diff').stdout
open(D+'/patch.diff','w').write(d)
# the changed lines must be original ones
rem=[l for l in d.splitlines() if l.startswith('-') and not l.startswith('---')]
base=run('git show 5be160a:file.go 5be160a:key.go 5be160a:section.go 5be160a:struct.go 5be160a:parser.go 5be160a:ini.go 5be160a:data_source.go 5be160a:error.go 5be160a:helper.go').stdout.splitlines()
orig=[l for l in rem if l[1:] in base]
if not orig: sys.exit('changes no original line')
r=run('go build ./... && go vet . >/dev/null 2>&1; go build ./...')
if r.returncode!=0: print(r.stderr); sys.exit('does not build')
r=run(f'bash {D}/demo.sh')
if r.returncode==0: sys.exit('demo passes with the change')
out=r.stdout
t=run('go test -count=1 ./... 2>&1 | tail -5; exit ${PIPESTATUS[0]}',executable='/bin/bash')
if t.returncode!=0: print(t.stdout[-3000:]); sys.exit('existing tests fail')
json.dump({"property":spec['property'],"needs":spec['needs'],"what_it_breaks":spec['what']},open(D+'/meta.json','w'),indent=1)
shutil.rmtree(W,ignore_errors=True)
print(sid,'ok; original lines changed:',len(orig)); print(out[-300:])
