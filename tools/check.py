#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE] | --setup
Mirrors /repo, builds the harness against it, runs one property's exploration.
Exit 0 held / 1 violated; anything else is an error of the check."""
import fcntl, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "target")
REPO = os.environ.get("MC_REPO", "/repo")
ENV = dict(os.environ)
ENV.update({
    "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0", "RUSTC_WRAPPER": "", "RUST_BACKTRACE": "0",
    "CARGO_TARGET_DIR": os.path.join(T, "build"), "RUSTFLAGS": ENV.get("MC_RUSTFLAGS", ""),
    "PYTHONDONTWRITEBYTECODE": "1",
})
ENV.setdefault("HOME", "/root")
PY = {"Y01"}
BINS = {"G02"}  # checks that run the relay programs


def build(bins=False):
    os.makedirs(T, exist_ok=True)
    with open(os.path.join(T, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, os.path.join(V, "tools/mkws.py"), REPO, os.path.join(T, "ws")], check=True)
        for more in [[]] + [["-p", "mqtt-grpc-proxy", "--bins"]] * bins:
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", os.path.join(V, "mc/Cargo.toml")] + more,
                               env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                break
        if r.returncode != 0:
            sys.stderr.write("\n".join(l for l in r.stdout.splitlines() if "error" in l or "-->" in l)[-6000:] + "\n")
            print("build of the harness against the working tree failed")
            sys.exit(2)
    return os.path.join(T, "build/debug/mc")


def bindings(mc):
    """The Python module of the foreign-function interface, as a user would build it, and a virtual clock."""
    d = os.path.join(T, "py")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(T, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        so = os.path.join(T, "build/debug/deps/libflowsdk_ffi.so")
        subprocess.run([mc, "generate", "--library", so, "--language", "python", "--no-format", "--out-dir", d],
                       env=ENV, cwd=os.path.join(V, "mc"), check=True, stdout=subprocess.DEVNULL)
        shutil.copy(so, os.path.join(d, "libflowsdk_ffi.so"))
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", os.path.join(d, "vclock.so"), os.path.join(V, "py/vclock.c")], check=True)
    return d


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        bindings(build(True))
        return 0
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = os.path.join(V, "evidence", pid + ".json")
    known = os.path.join(V, "known_findings.txt")
    rd = os.path.join(T, "replay")
    if pid in PY:
        d = bindings(build())
        ENV["LD_PRELOAD"] = os.path.join(d, "vclock.so")
        cmd = [sys.executable, os.path.join(V, "py", pid.lower() + ".py"), "--tier", tier, "--evidence", ev, "--known", known, "--replays", rd, "--repo", REPO, "--lib", d, "--mc", os.path.join(T, "build/debug/mc")]
        if "--replay" in a:
            cmd += ["--replay", a[a.index("--replay") + 1]]
        return subprocess.run(cmd, env=ENV).returncode
    mc = build(pid in BINS)
    slots = os.path.join(T, "slots-%s" % pid)
    if "--replay" in a:
        return subprocess.run([mc, pid, "--replay", a[a.index("--replay") + 1]], env=ENV).returncode
    if os.path.exists(ev):
        os.remove(ev)
    r = subprocess.run([mc, pid, "--tier", tier, "--evidence", ev, "--known", known, "--replays", rd, "--slots", slots], env=ENV)
    if r.returncode in (0, 1):
        return r.returncode
    # The explorer died: the code under test crashed the process (stack overflow, abort).  The slots name the cases.
    if r.returncode < 0 or r.returncode >= 128:
        try:
            d = open(slots, "rb").read()
        except OSError:
            return 2
        cases = []
        for t in range(64):
            n = int.from_bytes(d[t * 4096:t * 4096 + 4], "little")
            if 0 < n <= 4093:
                cases.append(d[t * 4096 + 4:t * 4096 + 3 + n])
        # which of the running cases crashes on its own?
        os.makedirs(rd, exist_ok=True)
        for i, c in enumerate(cases):
            p = os.path.join(rd, "%s-crash%d.txt" % (pid, i))
            open(p, "w").write("property=%s\nsignature=process crash\ncase_hex=%s\n" % (pid, c.hex()))
            q = subprocess.run([mc, pid, "--replay", p], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if q.returncode < 0 or q.returncode >= 128:
                print("VIOLATION property=%s replay=%s" % (pid, p))
                print("  the code under test crashed the process (status %d) on case %s" % (q.returncode, c.hex()[:400]))
                return 1
    return 2


sys.exit(main())
