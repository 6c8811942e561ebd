#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a bug description: a patch made by textual edits of a /repo
file, a demonstration program, and the stand-in crates it needs (kit.tgz).

mkbug.py FILE.py ... : each file defines BUGS = [dict(id, property, needs, breaks, file,
edits=[(old, new)], deps=[...], main=rust source)].
"""
import io, json, os, subprocess, sys, tarfile, shutil
from pathlib import Path

ROOT = Path("/verif")
DEMO = """#!/bin/bash
# Builds the demonstration against /repo in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf "$w"' EXIT
tar -xzf "$here/kit.tgz" -C "$w" || exit 1
mkdir -p "$w/demo/src" && cp "$here/main.rs" "$w/demo/src/main.rs" && cp "$here/Cargo.toml.demo" "$w/demo/Cargo.toml"
cd "$w" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTFLAGS=-Awarnings
cargo +nightly run -q --offline -p demo
"""
DEPS = {
    "virto-common": '{ path = "../repo/virto-common" }',
    "codec": '{ package = "parity-scale-codec", version = "3.6.12", features = ["derive", "max-encoded-len"] }',
    "xcm": '{ package = "staging-xcm", path = "../shim/xcm" }',
}


def dep(d):
    if d in DEPS:
        return DEPS[d]
    for k in ("shim", "repo", "drivers"):
        if (ROOT / "harness" / k / d).exists():
            return '{ path = "../%s/%s" }' % (k, d)
    raise SystemExit(f"unknown dep {d}")


def closure(deps):
    """Directories of the harness reachable from deps."""
    seen, todo = set(), []
    import re
    for d in deps:
        m = re.search(r'path = "\.\./([^"]+)"', dep(d))
        if m:
            todo.append((ROOT / "harness" / m.group(1)).resolve())
    while todo:
        p = todo.pop()
        if p in seen or not (p / "Cargo.toml").exists():
            continue
        seen.add(p)
        for m in re.finditer(r'path = "([^"]+)"', (p / "Cargo.toml").read_text()):
            q = (p / m.group(1)).resolve()
            if (q / "Cargo.toml").exists() and str(q).startswith(str(ROOT)):
                todo.append(q)
    return sorted(seen)


def make(b):
    d = ROOT / "seeded" / b["id"]
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == "", "repo dirty"
    edits = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
    try:
        for f, es in edits.items():
            p = Path("/repo") / f
            s = p.read_text()
            for old, new in es:
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                s = s.replace(old, new)
            p.write_text(s)
        (d / "patch.diff").write_text(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    (d / "demo.sh").write_text(DEMO)
    os.chmod(d / "demo.sh", 0o755)
    (d / "main.rs").write_text(b["main"].lstrip("\n"))
    deps = b["deps"]
    (d / "Cargo.toml.demo").write_text('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n'
                                       + "".join(f"{x} = {dep(x)}\n" for x in deps))
    (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    dirs = closure(deps)
    with tarfile.open(d / "kit.tgz", "w:gz") as t:
        for p in dirs:
            rel = p.relative_to(ROOT / "harness")
            t.add(p, arcname=str(rel), filter=norm)
        t.add(ROOT / "harness/Cargo.lock", arcname="Cargo.lock", filter=norm)
        ws = (ROOT / "harness/Cargo.toml").read_text()
        import re
        ws = re.sub(r"members = .*", 'members = ["demo", ' + ", ".join('"%s"' % p.relative_to(ROOT / "harness") for p in dirs) + "]", ws)
        i = tarfile.TarInfo("Cargo.toml")
        i.size = len(ws.encode())
        t.addfile(i, io.BytesIO(ws.encode()))
    print("made", b["id"], (d / "kit.tgz").stat().st_size)


def norm(i):
    i.mtime = 0
    i.uid = i.gid = 0
    i.uname = i.gname = ""
    return i


only = [a for a in sys.argv[1:] if not a.endswith(".py")]
for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
    ns = {}
    exec(Path(f).read_text(), ns)
    for b in ns["BUGS"]:
        if not only or b["id"] in only:
            make(b)
