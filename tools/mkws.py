#!/usr/bin/env python3
"""Mirror /repo's working tree into <ws>, with manifests that resolve offline.

cargo resolves even unused optional git dependencies (the quinn OpenSSL fork),
which cannot be fetched here, so the mirrored Cargo.toml files leave out
  - every optional dependency with a "git" key,
  - every feature that needs one of them, directly or through another feature,
  - every optional dependency that only such features asked for.
All other files are copied byte for byte; a file is rewritten only when its
content differs, so cargo's mtime-based freshness stays exact: any content
change in /repo gives the mirrored file a new mtime, and nothing else does.
"""
import datetime, os, sys, tomllib

REPO = sys.argv[1] if len(sys.argv) > 1 else "/repo"
WS = sys.argv[2]
SKIP_TOP = {".git", "target", "Cargo.lock", "docs", "fuzz", "kotlin", "swift",
            ".github", ".clusterfuzzlite", "tests", "scripts"}
TABLES = ("dependencies", "dev-dependencies", "build-dependencies")


def dep_tables(m):
    for t in [m, *m.get("target", {}).values()]:
        for name in TABLES:
            if name in t:
                yield t[name]


def strip(manifests):
    gone_deps = {p: {k for t in dep_tables(m) for k, v in t.items()
                     if isinstance(v, dict) and "git" in v}
                 for p, m in manifests.items()}
    gone_feats = {p: set() for p in manifests}

    def bad(p, item):
        if item.startswith("dep:"):
            return item[4:] in gone_deps[p]
        if "/" in item:
            dep, feat = item.split("/", 1)
            name = dep.rstrip("?")
            return name in gone_deps[p] or feat in gone_feats.get(name, ())
        return item in gone_feats[p] or item in gone_deps[p]

    changed = True
    while changed:
        changed = False
        for p, m in manifests.items():
            for f, items in m.get("features", {}).items():
                if f not in gone_feats[p] and any(bad(p, i) for i in items):
                    gone_feats[p].add(f)
                    changed = True
    for p, m in manifests.items():
        feats = m.get("features", {})
        explicit = {i for f in gone_feats[p] for i in feats[f] if i.startswith("dep:")}
        for f in gone_feats[p]:
            del feats[f]
        kept = {i for items in feats.values() for i in items}
        orphans = {i[4:] for i in explicit if i not in kept} - gone_deps[p]
        gone = gone_deps[p] | orphans
        for t in dep_tables(m):
            for k in list(t):
                if k in gone:
                    del t[k]
        # targets the harness never builds
        for kind in ("example", "test", "bench"):
            m.pop(kind, None)
        m.pop("dev-dependencies", None)
        m.pop("lints", None)
        pkg = m.get("package", {})
        for a in ("autoexamples", "autotests", "autobenches"):
            pkg[a] = False


def value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float, datetime.date, datetime.time)):
        return str(v)
    if isinstance(v, str):
        out = '"'
        for c in v:
            out += ("\\" + c if c in '"\\' else c
                    if ord(c) >= 32 and ord(c) != 127 else f"\\u{ord(c):04x}")
        return out + '"'
    if isinstance(v, list):
        return "[" + ", ".join(map(value, v)) + "]"
    return "{ " + ", ".join(f"{value(k)} = {value(x)}" for k, x in v.items()) + " }"


def emit(m):
    out = []
    tables = {k: v for k, v in m.items() if isinstance(v, dict)}
    lists = {k: v for k, v in m.items()
             if isinstance(v, list) and v and all(isinstance(x, dict) for x in v)}
    for k, v in m.items():
        if k not in tables and k not in lists:
            out.append(f"{value(k)} = {value(v)}")
    for k, v in tables.items():
        out.append(f"\n[{value(k)}]")
        out += [f"{value(a)} = {value(b)}" for a, b in v.items()]
    for k, v in lists.items():
        for x in v:
            out.append(f"\n[[{value(k)}]]")
            out += [f"{value(a)} = {value(b)}" for a, b in x.items()]
    return "\n".join(out) + "\n"


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except (FileNotFoundError, IsADirectoryError):
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".mkws-tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def main():
    want = {}
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        dirs[:] = [x for x in dirs
                   if not (rel == "." and x in SKIP_TOP)
                   and x not in ("target", "__pycache__", ".gradle", "node_modules")
                   and not os.path.islink(os.path.join(d, x))]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r in SKIP_TOP or f.endswith((".so", ".pyc", ".profraw")):
                continue
            p = os.path.join(d, f)
            if os.path.isfile(p):
                want[r] = p
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        root = tomllib.load(f)
    members = [m for m in root["workspace"]["members"]]
    man = {}
    where = {}
    for m in members:
        r = os.path.normpath(os.path.join(m, "Cargo.toml"))
        with open(os.path.join(REPO, r), "rb") as f:
            t = tomllib.load(f)
        man[t["package"]["name"]] = t
        where[t["package"]["name"]] = r
    strip(man)
    gen = {where[p]: emit(t).encode() for p, t in man.items()}
    for r, p in want.items():
        if r.endswith("Cargo.toml") and r in gen:
            continue
        with open(p, "rb") as f:
            put(os.path.join(WS, r), f.read())
    for r, data in gen.items():
        put(os.path.join(WS, r), data)
    keep = set(want) | set(gen) | {"Cargo.lock"}
    for d, dirs, files in os.walk(WS, topdown=False):
        for f in files:
            r = os.path.normpath(os.path.relpath(os.path.join(d, f), WS))
            if r not in keep:
                os.remove(os.path.join(d, f))
        if d != WS and not os.listdir(d):
            os.rmdir(d)


main()
