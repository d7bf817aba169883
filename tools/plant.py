#!/usr/bin/env python3
"""usage: plant.py BUGDIR...  -- each has bug.py-like spec file 'spec.py' defining: property, needs, breaks, edits=[(file,old,new)], main (rust), extra cargo opts"""
import sys,os,subprocess,shutil,json
SEED='/verif/seeded'
DEMO='''#!/bin/bash
# exit 0: the property holds on what this exercises; 1: it does not. Run with cwd = the crate's root.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/big-o-demo-@ID@
mkdir -p /tmp/big-o-demo-@ID@/src
cp "$here/main.rs" /tmp/big-o-demo-@ID@/src/main.rs
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" /tmp/big-o-demo-@ID@/Cargo.lock
cat > /tmp/big-o-demo-@ID@/Cargo.toml <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
big-o-test = { path = "$repo"@FEAT@ }
@DEPS@
[profile.release]
overflow-checks = true
[workspace]
END
cd /tmp/big-o-demo-@ID@ || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/big-o-demo-@ID@/target
unset RUSTC_WRAPPER
@RUN@
cd /
rm -rf /tmp/big-o-demo-@ID@
exit $rc
'''
RUN='''@ENV@cargo build --quiet --offline@REL@ 2> build.log || { cat build.log; cd /; rm -rf /tmp/big-o-demo-@ID@; exit 3; }
timeout 200 target/@PROF@/demo > out.log 2>&1; rc=$?
tail -c 2000 out.log'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def make(spec):
    g={}; exec(open(spec).read(),g)
    id=os.path.basename(spec)[:-3]
    w=f'/tmp/sw/w-{id}'
    sh(f'rm -rf {w}'); os.makedirs(w)
    sh(f'cd /repo && git archive HEAD | tar x -C {w}; cp /repo/Cargo.lock {w}/; cp -a /repo/target {w}/target; cd {w} && git init -q && printf "target\\nCargo.lock\\n" > .git/info/exclude && git add -A && git -c user.name=x -c user.email=x@x commit -qm b')
    d=f'/tmp/sw/out/{id}'; sh(f'rm -rf {d}'); os.makedirs(d)
    demo=DEMO.replace('@RUN@',g.get('run',RUN)).replace('@ID@',id).replace('@FEAT@',g.get('feat','')).replace('@DEPS@',g.get('deps','')).replace('@ENV@',g.get('env','')).replace('@REL@',' --release' if g.get('release') else '').replace('@PROF@','release' if g.get('release') else 'debug')
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write(g.get('pre',PRE if g.get('clock') else '')+g['main'])
    json.dump({'property':g['property'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
    env=dict(os.environ); 
    r=sh(f'bash {d}/demo.sh',cwd=w)
    ok0=r.returncode==0
    msg=[f'{id}: unpatched demo rc={r.returncode}'+('' if ok0 else '\n'+r.stdout[-1500:])]
    for f,o,n in g['edits']:
        p=w+'/'+f; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    patch=sh('git diff',cwd=w).stdout; open(d+'/patch.diff','w').write(patch)
    r=sh(f'bash {d}/demo.sh',cwd=w); bad=r.returncode in (1,101,124,134,139)
    msg.append(f'   patched demo rc={r.returncode} {r.stdout[-300:].strip()!r}')
    counts=[]
    for i in range(6):
        if sum(1 for c in counts if not c[1])>=2 or (i==3 and all(c[1] for c in counts)): break
        r=sh('export CARGO_INCREMENTAL=1 CARGO_NET_OFFLINE=true; timeout 400 cargo test --workspace --no-fail-fast --offline -- --test-threads 1',cwd=w)
        import re
        p=sum(int(x) for x in re.findall(r'(\d+) passed',r.stdout)); fl=re.findall(r'^test (.*) \.\.\. FAILED',r.stdout,re.M); 
        counts.append((p,fl, r.stdout[-800:] if p==0 else ''))
    msg.append(f'   tests {counts}')
    good=ok0 and bad and sum(1 for c in counts if not c[1] and c[0]>=39)>=2
    if good:
        sh(f'rm -rf {SEED}/{id}; cp -a {d} {SEED}/{id}')
    msg.append('   '+('KEPT' if good else 'NOT KEPT'))
    sh(f'rm -rf {w}')
    print('\n'.join(msg),flush=True)
PRE=open('/tmp/sw/pre.rs').read() if os.path.exists('/tmp/sw/pre.rs') else ''
if __name__=='__main__':
    for s in sys.argv[1:]:
        try: make(s)
        except Exception as e: print(s,'ERR',repr(e),flush=True)
