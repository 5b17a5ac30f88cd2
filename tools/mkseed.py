#!/usr/bin/env python3
"""mkseed.py <dir with spec files>: a seed is described by a python file seeds/<id>.py with
   PROP, NEEDS, BREAKS, TMPL, EDITS=[(file, old, new)], MAIN (rust).  Builds /verif/seeded/<id>/
   and confirms it in a scratch copy: builds, passes the tests, demo 0 without and !=0 with it."""
import sys,os,subprocess,json,shutil,runpy
V="/verif"
def sh(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main(path,confirm=True):
    s=runpy.run_path(path); sid=os.path.basename(path)[:-3]
    d=f"{V}/seeded/{sid}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    assert sh("git -C /repo status --porcelain").stdout.strip()=="","repo dirty"
    tm=f"{V}/tools/seedtmpl"
    tf="--sort=name --mtime=@0 --owner=0 --group=0"
    if s['TMPL']=="direct":
        sh(f"tar czf {d}/demo.tgz {tf} -C {tm}/direct .",check=True)
    else:
        sh(f"tar czf {d}/demo.tgz {tf} -C {V}/mc --transform s,ark/demo.Cargo.toml,ark/Cargo.toml, ark/demo.Cargo.toml ark/Cargo.lock ark/mark ark/sched ark/facade ark/repo common/Cargo.toml common/src",check=True)
    shutil.copy(f"{tm}/demo.sh",f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh",0o755)
    open(f"{d}/main.rs","w").write(s["MAIN"])
    json.dump(dict(property=s["PROP"],needs=s["NEEDS"],what_it_breaks=s["BREAKS"]),open(f"{d}/meta.json","w"),indent=1)
    try:
        r0=sh(f"bash {d}/demo.sh",cwd="/repo") if confirm else None
        for f,o,n in s["EDITS"]:
            p=f"/repo/{f}"; t=open(p).read(); assert t.count(o)==1,(sid,f,t.count(o),o); open(p,"w").write(t.replace(o,n))
        diff=sh("git -C /repo diff").stdout
        open(f"{d}/patch.diff","w").write(diff)
        if not confirm: return
        b=sh("bash /opt/vp/build.sh",cwd="/repo"); t=sh("bash /opt/vp/test.sh /tmp/seedtest.json",cwd="/repo")
        r1=sh(f"bash {d}/demo.sh",cwd="/repo")
        ck=sh(f"./check.sh {s['PROP']}",cwd=V)
        print(f"{sid}: demo clean={r0.returncode} build={b.returncode} test={t.returncode} demo patched={r1.returncode} check={ck.returncode}")
        if r0.returncode: print(r0.stdout[-1500:])
        if b.returncode: print(b.stdout[-1500:])
        if "verbose" in sys.argv or ck.returncode not in(0,1): print(ck.stdout[:1500]); print(r1.stdout[-600:])
        if ck.returncode==0: print("   MISSED by",s["PROP"])
    finally:
        sh("git -C /repo checkout -- .")
for p in [a for a in sys.argv[1:] if a.endswith(".py")]: main(p)
