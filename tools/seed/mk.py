#!/usr/bin/env python3
"""mk.py SPEC.py: writes seeded/<id>/ from a spec (SEEDS = [dict(id, property, file, old, new[, more], needs, breaks, demo, externs)]).
A development aid; no check reads it."""
import difflib, json, os, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
DEMO = '''#!/bin/bash
# exit 0 exactly when the property holds on the inputs of demo.rs
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
D=/repo/target/debug
ext=()
for c in %(externs)s; do
  v=$(grep -A1 "^name = \\"${c//_/-}\\"" /repo/Cargo.lock | grep version | head -1)
  ext+=(--extern "$c=$(ls $D/deps/lib$c-*.rlib | head -1)")
done
nat=()
for p in $(find $D/build -maxdepth 2 -type d -name out); do nat+=(-L "$p"); done
rustc --edition 2018 -A warnings -C link-arg=@/opt/vp/openssl-absent.args -L dependency=$D/deps "${nat[@]}" \\
  --extern cernan=$D/libcernan.rlib "${ext[@]}" "$here/demo.rs" -o "$tmp/demo" || exit 2
cd "$tmp" && TMPDIR="$tmp" timeout 120 "$tmp/demo"
'''
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    d = V + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    edits = [(s["file"], s["old"], s["new"])] + s.get("more", [])
    files = {}
    for f, o, n in edits:
        t = files.setdefault(f, [open("/repo/" + f).read()] * 2)
        if t[1].count(o) != 1:
            sys.exit("%s: %d places for %r" % (s["id"], t[1].count(o), o))
        files[f] = [t[0], t[1].replace(o, n)]
    out = ""
    for f, (a, b) in files.items():
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(DEMO % dict(externs=" ".join(s.get("externs", []))))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(s["demo"].lstrip())
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
