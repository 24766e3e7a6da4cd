#!/usr/bin/env python3
"""trybug.py FILE.json...: for each candidate {id,file,old,new[,nth]} (or edits:[...]) make a scratch copy of /repo, apply, build and test it
(bind-mounted over /repo in a private mount namespace), and write /tmp/cand/<id>.{patch,res}."""
import json, sys, os, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def one(c):
    d = "/tmp/c_" + c["id"]
    sh("rm -rf %s; cp -a /repo %s" % (d, d))
    for e in c.get("edits", [c]):
        p = d + "/" + e["file"]; s = open(p).read()
        n = s.count(e["old"])
        if n == 0 or (n > 1 and "nth" not in e): return c["id"], "old text occurs %d times" % n
        if n == 1: s = s.replace(e["old"], e["new"])
        else:
            parts = s.split(e["old"]); k = e["nth"] + 1
            s = e["old"].join(parts[:k]) + e["new"] + e["old"].join(parts[k:])
        open(p, "w").write(s)
    sh("git -C %s diff > /tmp/cand/%s.patch" % (d, c["id"]))
    r = sh("unshare -Urm sh -c 'mount --bind %s /repo && bash /opt/vp/test.sh /tmp/cand/%s.res'" % (d, c["id"]))
    try: j = json.load(open("/tmp/cand/%s.res" % c["id"])); out = "%d passed, %d failed %s" % (len(j["passed"]), len(j["failed"]), j["failed"][:4])
    except Exception as ex: out = str(ex)
    if "the build failed" in r.stdout: out = "BUILD " + r.stdout[-600:]
    sh("rm -rf " + d)
    return c["id"], out
cs = [c for f in sys.argv[1:] for c in json.load(open(f))]
with ThreadPoolExecutor(4) as ex:
    for i, o in ex.map(one, cs): print(i, o, flush=True)
