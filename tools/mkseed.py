#!/usr/bin/env python3
"""mkseed.py FILE...: plant bugs described in python files defining SEEDS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], demo=go source)].
Checks each in a scratch copy: applies, builds, passes the stable tests, demo passes without and fails with it.  Writes /verif/seeded/<id>/."""
import sys, os, json, subprocess, shutil, tempfile, runpy
BASE=json.load(open('/opt/vp/BASELINE.json'))
def stable():
    for k in ('passed','tests','stable','passes'):
        if k in BASE: return BASE[k]
    return BASE
def run(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
DEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /repo || exit 2
exec timeout 120 go run "$here/demo.go"
'''
ENV='. /opt/vp/env.sh; cd %s; '
def main():
    only=os.environ.get('ONLY')
    for f in sys.argv[1:]:
        for s in runpy.run_path(f)['SEEDS']:
            if only and s['id']!=only: continue
            one(s)
def one(s):
    d='/tmp/seedwork'
    subprocess.run(['git','-C','/repo','worktree','prune'])
    shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    out='/verif/seeded/'+s['id']
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/demo.sh','w').write(s.get('demosh',DEMO)); os.chmod(out+'/demo.sh',0o755)
    if 'demo' in s: open(out+'/demo.go','w').write(s['demo'])
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(out+'/meta.json','w'),indent=1)
    def demo():
        sh=open(out+'/demo.sh').read().replace('cd /repo','cd '+d).replace('"$here/','"'+out+'/').replace('/repo','/tmp/seedwork')
        open('/tmp/seeddemo.sh','w').write(sh)
        return run('bash /tmp/seeddemo.sh',d)
    ok=True
    r=demo()
    if r.returncode!=0: print(s['id'],'DEMO FAILS ON CLEAN',r.stdout[-600:],r.stderr[-600:]); ok=False
    for (fn,a,b) in s['edits']:
        t=open(d+'/'+fn).read()
        if t.count(a)!=1: print(s['id'],'edit matches',t.count(a),fn,repr(a)); ok=False; break
        open(d+'/'+fn,'w').write(t.replace(a,b))
    if ok:
        p=run('git diff',d); open(out+'/patch.diff','w').write(p.stdout)
        r=run((ENV%d)+'go build ./... && go vet ./... 2>&1 | grep -v "^#" | head -3',d)
        if r.returncode!=0: print(s['id'],'BUILD',r.stderr[-500:]); ok=False
        r=run((ENV%d)+'go test -vet=off -count=1 -timeout 3m ./... 2>&1 | grep -E "^(---|FAIL|ok|panic)"',d)
        if 'FAIL' in r.stdout or 'panic' in r.stdout: print(s['id'],'TESTS',r.stdout[-500:]); ok=False
        r=demo()
        if r.returncode==0: print(s['id'],'DEMO PASSES WITH BUG'); ok=False
        else: print(s['id'],'demo says:',(r.stdout+r.stderr).strip()[:150].replace('\n',' | '))
        blame=run('git diff -U0 | grep -c "^[-+]"',d)
    shutil.rmtree(d,ignore_errors=True)
    print(s['id'],'OK' if ok else 'REJECTED')
    if not ok: shutil.rmtree(out,ignore_errors=True)
main()
