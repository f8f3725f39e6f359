#!/usr/bin/env python3
"""seed.py <id>... : confirm planted bugs.  /verif/seeded/<id>/ holds patch.diff, demo.sh and meta.json.
For each: patch applies and changes original lines, builds, stable tests pass, demo 0 on clean / !=0 patched, and
the checks named (default: the property of meta.json) - prints caught / missed.  Works on /repo and reverts it."""
import json, os, subprocess, sys, re
V="/verif"; BASE="e7cfccf"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(i, fast):
    d=f"{V}/seeded/{i}"; m=json.load(open(d+"/meta.json"))
    assert sh("git -C /repo status --short").stdout=="" , "dirty"
    p=open(d+"/patch.diff").read()
    # original lines
    f=None; bad=[]
    for l in p.splitlines():
        if l.startswith("--- a/"): f=l[6:]
        h=re.match(r"@@ -(\d+)(?:,(\d+))? ",l)
        if h: n=int(h[1]); continue
        if f is None or l.startswith(("+++","---","diff","index")): continue
        if l.startswith("-"):
            b=sh(f"git -C /repo blame -L {n},{n} -s --abbrev=7 HEAD -- {f}").stdout
            if BASE not in b[:12]: bad.append((f,n))
            n+=1
        elif l.startswith(" "): n+=1
    res={"id":i}
    if bad: res["own_lines"]=bad
    sh("bash /opt/vp/build.sh") if not fast else None
    def demo():
        try: return subprocess.run(["bash",d+"/demo.sh"],cwd="/repo",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=300)
        except subprocess.TimeoutExpired: return None
    if not fast:
        r=demo(); res["demo_clean"]= r.returncode if r else "timeout"
        if r is None or r.returncode: print(r.stdout[-1500:] if r else ""); 
    a=sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(i,"does not apply",a.stdout[:300]); return
    try:
        if not fast:
            b=sh("bash /opt/vp/build.sh"); res["build"]=b.returncode
            if b.returncode: print(b.stdout[-1500:]); return
            r=demo(); res["demo_bug"]= r.returncode if r else "timeout"; res["demo_says"]=(r.stdout[-160:].strip() if r else "")
            sh("bash /opt/vp/test.sh /tmp/seed-t.json"); res["tests"]=sh("python3 /verif/tools/base.py /tmp/seed-t.json").stdout.strip()
        for c in m.get("checks",[m["property"]]) if not fast else [m["property"]]:
            try:
                r=subprocess.run(["python3",V+"/tools/check.py",c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900,cwd=V)
                v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res["check "+c]=("CAUGHT" if r.returncode==1 and v and f"property={c} " in v[0] else f"missed rc={r.returncode}")
                if r.returncode not in (0,1): print(r.stdout[-800:])
                if v:
                    x=r.stdout.splitlines(); k=[q for q,l in enumerate(x) if l.startswith("VIOLATION")][0]; res["says"]=" ".join(x[k+1:k+3])[:200]
            except subprocess.TimeoutExpired: res["check "+c]="timeout"
    finally:
        sh("git -C /repo checkout -- .")
        print(json.dumps(res),flush=True)
fast="--fast" in sys.argv
for i in [a for a in sys.argv[1:] if a[0]!="-"]: one(i,fast)
if not fast: sh("bash /opt/vp/build.sh")
