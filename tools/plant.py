#!/usr/bin/env python3
"""plant.py DEFS.py [id...]: (author tool) build /verif/seeded/<id>/ from definitions and confirm each in a
scratch copy: applies, builds, the stable tests pass, demo passes without and fails with the change.
Not used by any check."""
import sys, os, json, subprocess, shutil, runpy, tempfile
DEMO='''#!/bin/bash
# Runs the demonstration test inside the package through an overlay; /repo is left as it is.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
root="$(pwd)"
work="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$work"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cat > "$work/overlay.json" <<J
{"Replace": {"$root/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
J
%(pre)scd "$root" && go test %(flags)s-vet=off -count=1 -timeout 120s -overlay "$work/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
STUBPRE='''# the module hyp3rd/sectools cannot be fetched here: a stand-in with the same conversions
cp "$root/go.mod" "$work/go.mod"; cp "$root/go.sum" "$work/go.sum"
chmod u+w "$work/go.mod"
GOFLAGS= go mod edit -replace "github.com/hyp3rd/sectools=$here/sectools" "$work/go.mod"
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,capture_output=True,text=True,**k)
def main():
    defs=runpy.run_path(sys.argv[1])['BUGS']; only=set(sys.argv[2:])
    for b in defs:
        if only and b['id'] not in only: continue
        d=f"/verif/seeded/{b['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        scr=tempfile.mkdtemp(prefix='plant.',dir='/tmp'); r=scr+'/repo'
        sh(f"git -C /repo worktree prune; git clone -q /repo {r}",'/')
        stub=b.get('stub',False)
        open(d+'/demo.sh','w').write(DEMO%dict(pkg=b['pkg'],pre=STUBPRE if stub else '',flags=('-modfile "$work/go.mod" ' if stub else '')+('-race ' if b.get('race') else '')))
        os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo_test.go.txt','w').write(b['demo'])
        if stub: shutil.copytree('/verif/stub/sectools',d+'/sectools')
        open(d+'/meta.json','w').write(json.dumps(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),indent=1)+'\n')
        msg=[]
        p=sh(f"bash {d}/demo.sh",r,timeout=300); 
        if p.returncode!=0: msg.append('DEMO FAILS ON CLEAN: '+p.stdout[-1500:]+p.stderr[-800:])
        for f,old,new in b['edits']:
            t=open(f'{r}/{f}').read()
            if t.count(old)<1: msg.append(f'edit not found in {f}: {old[:60]}'); continue
            open(f'{r}/{f}','w').write(t.replace(old,new,1))
        open(d+'/patch.diff','w').write(sh('git diff',r).stdout)
        p=sh(f"bash {d}/demo.sh",r,timeout=300)
        if p.returncode==0: msg.append('DEMO PASSES WITH BUG')
        elif 'build failed' in p.stdout+p.stderr or '[setup failed]' in p.stdout: msg.append('BUILD FAILED '+p.stdout[-800:])
        else: b['out']=p.stdout[-300:]
        t=sh(". /opt/vp/env.sh; cd "+r+"; GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build $PKGS && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go test -vet=off -count=1 $PKGS 2>&1 | grep -v 'no test files'",'/repo')
        if t.returncode!=0 or 'FAIL' in t.stdout: msg.append('TESTS: '+t.stdout[-800:]+t.stderr[-500:])
        if stub:
            t=sh(f"bash /verif/tools/fulltest.sh {r} 2>&1 | grep -v 'no test files' | tail -25",'/')
            bad=[l for l in t.stdout.splitlines() if l.startswith(('FAIL','---'))]
            if bad: msg.append('STUBBED TESTS: '+'\n'.join(bad))
        print(b['id'],'OK' if not msg else 'PROBLEM\n  '+'\n  '.join(msg),flush=True)
        shutil.rmtree(scr,ignore_errors=True)
main()
