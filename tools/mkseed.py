#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id,cand,prop,needs,breaks,demo,cpp=False,san='address')]; writes /verif/seeded/<id>/ and
runs the demo on the unchanged tree and with the patch (in a private mount over /repo)."""
import sys, os, json, subprocess, runpy
def sh(c): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    sh("cp /tmp/cand/%s.patch %s/patch.diff" % (s["cand"], d))
    cpp = s.get("cpp"); src = "demo.cpp" if cpp else "demo.c"
    open(d + "/" + src, "w").write(s["demo"].lstrip())
    san = s.get("san", "address"); f = "-fsanitize=%s " % san if san else ""
    ex = s.get("flags", "")
    cc = ('for f in $(find /repo/src -name "*.c"); do gcc -w -O1 -g %s%s -I/repo/include -c "$f" -o "$t/$(echo "$f" | tr / _).o" & done; wait\n' % (f, ex)
          + ('g++ -std=c++17 -w -O1 -g %s%s -I/repo/cpp -I/repo/include "$d/demo.cpp" "$t"/*.o -o "$t/demo" -lpthread' if cpp else 'gcc -w -O1 -g %s%s -I/repo/include "$d/demo.c" "$t"/*.o -o "$t/demo" -lpthread') % (f, ex))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# %s\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2\n%s && timeout 120 "$t/demo"; rc=$?\nrm -rf "$t"; exit $rc\n' % (s["breaks"], cc))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d)
    w = "/tmp/sd_" + s["id"]
    r1 = sh("rm -rf %s; mkdir %s; cp -a /repo/include /repo/src /repo/cpp /repo/.git %s; cd %s && git apply %s/patch.diff && unshare -Urm sh -c 'mount --bind %s /repo && bash %s/demo.sh'; rc=$?; rm -rf %s; exit $rc" % (w, w, w, w, d, w, d, w))
    print(s["id"], "clean rc", r0.returncode, r0.stdout[-200:] if r0.returncode else "", "| patched rc", r1.returncode, r1.stdout[-300:] if not 0 < r1.returncode < 200 else r1.stdout[:150].replace("\n", " "))
