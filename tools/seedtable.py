#!/usr/bin/env python3
"""Runs each planted bug's check against a patched scratch clone and rewrites the table in DESIGN.md."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = sys.argv[1:]
cache = V + "/seeded/results.json"
res = json.load(open(cache)) if os.path.exists(cache) else {}
w = tempfile.mkdtemp(prefix="seed")
try:
    sh("git clone -q /repo %s/r" % w)
    for i in sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + i
        if not os.path.isdir(d) or (only and i not in only): continue
        m = json.load(open(d + "/meta.json"))
        sh("git -C %s/r checkout -q -- ." % w)
        a = sh("git -C %s/r apply %s/patch.diff" % (w, d))
        if a.returncode: res[i] = "DOES NOT APPLY"; print(i, res[i]); continue
        r = sh("cd %s && SIM_REPO=%s/r ./check %s quick" % (V, w, m["property"]))
        k = re.search(r"VIOLATION.*\n?", r.stdout); kind = re.search(r"kind=(\S+)", r.stdout)
        res[i] = kind.group(1) if kind else ("caught" if k else "missed")
        print(i, r.returncode, res[i], r.stdout[-300:] if not k else "", flush=True)
finally: shutil.rmtree(w, ignore_errors=True)
json.dump(res, open(cache, "w"), indent=1, sort_keys=True)
t = ["| change | property | what it breaks | needs | reported as |", "|---|---|---|---|---|"]
for i in sorted(res):
    p = V + "/seeded/%s/meta.json" % i
    if not os.path.exists(p): continue
    m = json.load(open(p)); e = lambda s: s.replace("|", "/").replace("\n", " ")
    t.append("| %s | %s | %s | %s | %s |" % (i, m["property"], e(m["what_it_breaks"]), e(m["needs"]), res[i]))
f = V + "/DESIGN.md"; s = open(f).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(t) + "\n<!-- /seeds -->", s, flags=re.S)
open(f, "w").write(s)
