#!/usr/bin/env python3
"""mkseed.py ID PROP PKG FILE 'needs' 'what' < spec: makes /verif/seeded/ID from a replacement and a demo test.

spec (stdin):  <<<OLD ... === ... >>>NEW blocks separated by '@@@' lines:
  @@@ path
  old text
  ===
  new text
  @@@ demo
  Go test source (package clause included), function TestDemo
Confirms: applies, builds, stable tests pass with it, demo passes without and fails with it."""
import sys, os, subprocess, json, shutil, tempfile
sid, prop, pkg, needs, what = sys.argv[1:6]
spec = sys.stdin.read()
parts = [x for x in ('\n'+spec).split('\n@@@ ')][1:]
work = tempfile.mkdtemp(prefix='seed')
try:
    repo = work+'/repo'
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',repo])
    demo = None
    for p in parts:
        name, body = p.split('\n',1)
        if name.strip() == 'demo':
            demo = body
            continue
        old, new = (body+'\n').split('\n===\n')
        f = repo+'/'+name.strip()
        s = open(f).read()
        new = new.rstrip('\n')
        old = old.rstrip('\n')
        assert s.count(old) == 1, (name, s.count(old))
        open(f,'w').write(s.replace(old,new))
    out = '/verif/seeded/'+sid
    os.makedirs(out, exist_ok=True)
    diff = subprocess.check_output(['git','-C',repo,'diff'],text=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo_test.go','w').write(demo)
    open(out+'/demo.sh','w').write('''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 100s -overlay "$t/o.json" -run '^TestDemo$' ./PKG
'''.replace('PKG',pkg))
    os.chmod(out+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':what},open(out+'/meta.json','w'),indent=1)
    env = dict(os.environ)
    for k in ('GOFLAGS','GOWORK','GOTOOLCHAIN','GOPROXY','GOSUMDB','CGO_ENABLED'): env.pop(k,None)
    def demo_rc(cwd):
        r = subprocess.run(['bash',out+'/demo.sh'],cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        return r.returncode, r.stdout
    r0,o0 = demo_rc('/repo')
    r1,o1 = demo_rc(repo)
    t = subprocess.run('. /opt/vp/env.sh; go build ./... && go test -json -vet=off -count=1 ./...',shell=True,cwd=repo,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,executable='/bin/bash')
    res = {}
    for l in t.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Test') and e['Action'] in ('pass','fail'):
            res[e['Package'].split('goav/')[-1]+'/'+e['Test']] = e['Action']
    bad = [k for k,v in res.items() if v=='fail' and not k.startswith('sips/TestNewSIPUser')]
    npass = sum(v=='pass' for v in res.values())
    ok = r0==0 and r1!=0 and not bad and npass>=100
    print(sid, 'OK' if ok else 'BAD', 'clean', r0, 'patched', r1, 'pass', npass, 'bad', bad)
    if not ok:
        print(o0[-800:] if r0 else ''); print(o1[-600:])
        print(t.stdout[-500:] if npass<100 else '')
    elif 'build failed' in o1 or 'setup failed' in o1: print('DEMO DOES NOT BUILD', o1[-500:])
finally:
    subprocess.call(['git','-C','/repo','worktree','remove','--force',work+'/repo'])
    shutil.rmtree(work,ignore_errors=True)
