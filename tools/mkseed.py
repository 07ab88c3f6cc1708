"""mkseed.seed(id, prop, [(file, old, new)...], demo_c, needs, breaks): writes
seeded/<id>/ (development helper; no check uses it)."""
import difflib, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 99; trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -D_GNU_SOURCE -w -O1 -g %s-I include -I src -I _build "$D/demo.c" %s -lm -o "$T/demo" || exit 98
cd "$T" && timeout 120 ./demo
'''
def seed(id, prop, edits, demo, needs, breaks, flags="", link="_build/libswiftnav.a"):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    byf = {}
    for f, o, n in edits:
        byf.setdefault(f, []).append((o, n))
    for f, l in byf.items():
        a = open("/repo/" + f).read()
        b = a
        for o, n in l:
            assert b.count(o) == 1, (id, f, b.count(o), o)
            b = b.replace(o, n)
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(
            a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.c", "w").write(demo)
    open(d + "/demo.sh", "w").write(SH % (flags, link))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
