#!/usr/bin/env python3
"""mutate.py FILE[,FILE...] PROP[,PROP...] [--secs S] [--max N] [--jobs J] [--lines A-B]
Self-assessment: makes small one-place changes to a library source (operators, conditions, constants, deleted statements),
rebuilds the simulator with each in a scratch directory outside /repo and /verif, and lists those no named check notices.
A survivor is either equivalent, outside every stated property, or a hole in a check: a person decides which."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools"); sys.dont_write_bytecode = True
import build as B

def mask(src):
    """source with comments, strings and preprocessor lines blanked, same length"""
    out = list(src); i = 0; n = len(src)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n": out[k] = " "
    while i < n:
        if src.startswith("/*", i): j = src.find("*/", i); j = n if j < 0 else j + 2; blank(i, j); i = j
        elif src.startswith("//", i): j = src.find("\n", i); j = n if j < 0 else j; blank(i, j); i = j
        elif src[i] in "\"'":
            q = src[i]; j = i + 1
            while j < n and src[j] != q: j += 2 if src[j] == "\\" else 1
            blank(i + 1, j); i = j + 1
        else: i += 1
    m = "".join(out).split("\n")
    for k, l in enumerate(m):
        if l.lstrip().startswith("#"): m[k] = " " * len(l)
    return "\n".join(m)

RULES = [(r"(?<![=!<>+\-*/&|^])==(?!=)", ["!="]), (r"!=", ["=="]), (r"(?<![<\-])<=", ["<"]), (r"(?<![>\-])>=", [">"]),
         (r"(?<![<])<(?![<=])", ["<=", ">="]), (r"(?<![>\-])>(?![>=])", [">=", "<="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
         (r"(?<=[\w\)\]]) \+ (?=[\w\(\*&])", [" - "]), (r"(?<=[\w\)\]]) - (?=[\w\(\*&])", [" + "]), (r"(?<=[\w\)\]]) \* (?=[\w\(])", [" + "]),
         (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"<<", [">>"]), (r">>", ["<<"]),
         (r"(?<![\w.])(\d+)(?![\w.])", ["N+1", "N-1"]), (r"\bNULL\b", ["((void*)8)"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"])]

def mutants(src):
    m = mask(src); out = []
    for pat, reps in RULES:
        for x in re.finditer(pat, m):
            for r in reps:
                t = x.group(0)
                if r in ("N+1", "N-1"):
                    v = int(t)
                    if r == "N-1" and v == 0: continue
                    if v == 1 and r == "N+1" and m[max(0, x.start() - 1)] == "-": continue
                    r2 = str(v + (1 if r == "N+1" else -1))
                else: r2 = r
                out.append((x.start(), x.end(), r2))
    for x in re.finditer(r"\b(if|while)\s*\(", m):      # negated conditions
        d, j = 1, x.end()
        while j < len(m) and d:
            d += (m[j] == "(") - (m[j] == ")"); j += 1
        out.append((x.end(), j - 1, "!(" + src[x.end():j - 1] + ")"))
        if x.group(1) == "if": out.append((x.end(), j - 1, "0 && (" + src[x.end():j - 1] + ")"))
    for x in re.finditer(r"(?<=[;{}\n])[ \t]*([A-Za-z_*(][^;{}\n]*);", m):   # deleted statements
        t = x.group(1)
        if re.match(r"(return|break|continue|goto|case|default|typedef|extern|static|struct|else|const|if|for|while|do)\b", t): continue
        if re.match(r"[A-Za-z_][\w\s\*]*\s+\**[A-Za-z_]\w*\s*(\[[^\]]*\])?\s*(=|$|,)", t) : continue
        out.append((x.start(1), x.end(), ";"))
    for x in re.finditer(r"\breturn\b\s*([^;\n]+);", m):
        v = src[x.start(1):x.end(1)].strip()
        if v in ("0", "NULL", "1", "-1", "true", "false"): continue
        out.append((x.start(1), x.end(1), "0"))
    seen, res = set(), []
    for a, b, r in sorted(out):
        if (a, b, r) in seen: continue
        seen.add((a, b, r)); res.append((a, b, r))
    return res

def main():
    a = sys.argv[1:]; opt = {"--secs": "5", "--max": "100000", "--jobs": "8", "--lines": "", "--fn": ""}
    pos = []
    while a:
        x = a.pop(0)
        if x in opt: opt[x] = a.pop(0)
        else: pos.append(x)
    fs, props = pos[0].split(","), pos[1].split(",")
    B.build()
    bd = "%s/build/%s" % (VERIF, B.tree_hash())
    top = tempfile.mkdtemp(prefix="mut")
    try:
        os.makedirs(top + "/cfg"); srcs, flags = B.configure(top + "/cfg")
        LF = ["CC", "-O1", "-g", "-w", "-fno-builtin", "-fno-pie", "-femulated-tls", "-fno-omit-frame-pointer", "-fstack-protector-strong", "-fsanitize=thread,array-bounds,local-bounds", "-fsanitize-trap=array-bounds,local-bounds",
              "-fsanitize-coverage=trace-pc-guard", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=2"] + flags + ["-D_GNU_SOURCE", "-DNDEBUG", "-DLUA_USE_MKSTEMP"]
        objs = [bd + "/sim/" + f for f in sorted(os.listdir(bd + "/sim"))]
        libo = [bd + "/lib/" + f for f in sorted(os.listdir(bd + "/lib"))]
        tot = kill = same = nocomp = 0; surv = []
        def one(job):
            f, src, (p, q, r) = job
            w = tempfile.mkdtemp(prefix="m", dir=top)
            line = src.count("\n", 0, p) + 1
            try:
                new = src[:p] + r + src[q:]
                rel = os.path.relpath(f, B.REPO + "/src/libzt")
                if f.endswith((".c", ".cpp")):
                    mf = w + "/" + os.path.basename(f); open(mf, "w").write(new)
                    name = os.path.relpath(f, B.REPO + "/src").replace("/", "__").rsplit(".", 1)[0] + ".o"
                    inc = ["-I" + os.path.dirname(f)]
                    todo = [(mf, name, LF + inc)]
                    hd = []
                else:       # a header: everything that may include it, from a copied tree
                    shutil.copytree(B.REPO + "/src", w + "/src"); open(w + "/src/libzt/" + rel, "w").write(new)
                    fl = [x.replace(B.REPO + "/src", w + "/src") for x in LF]
                    todo = [(w + "/src" + s[len(B.REPO + "/src"):], os.path.relpath(s, B.REPO + "/src").replace("/", "__").rsplit(".", 1)[0] + ".o", fl) for s in srcs]
                    todo += [(s, "cli__" + os.path.basename(s).rsplit(".", 1)[0] + ".o", fl) for s in B.files(VERIF + "/sim/cli", (".c", ".cpp"))]
                mine = []
                diff = False
                for s, name, fl in todo:
                    o = w + "/" + name
                    if subprocess.run(["clang" if s.endswith(".c") else "clang++"] + fl[1:] + ["-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return ("nocomp", line, r, src[p:q], None)
                    subprocess.run(["objcopy", "--redefine-syms=" + bd + "/redef", o])
                    h = []
                    for y in (o, bd + "/lib/" + name):
                        t = subprocess.run(["objcopy", "-O", "binary", "--only-section=.text*", "--only-section=.rodata*", "--only-section=.data*", y, w + "/t"], capture_output=True)
                        d = subprocess.run(["objdump", "-dr", "--no-show-raw-insn", y], capture_output=True, text=True).stdout.split("\n", 3)[-1]
                        h.append((open(w + "/t", "rb").read(), d))
                    if h[0] != h[1]: diff = True
                    mine.append((o, name))
                if not diff: return ("same", line, r, src[p:q], None)
                names = {n for _, n in mine}
                lo = [o for o, _ in mine] + [o for o in libo if os.path.basename(o) not in names]
                if subprocess.run(["clang++", "-no-pie", "-o", w + "/simrun"] + objs + lo + ["-lpthread", "-lm"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return ("nocomp", line, r, src[p:q], None)
                for pr in props:
                    try: subprocess.run([w + "/simrun", "--prop", pr, "--seed", "1", "--time", opt["--secs"], "--workers", "2", "--out", w + "/out", "--replays", w, "--shrink", "0"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                    except subprocess.TimeoutExpired: return ("kill", line, r, src[p:q], pr + ":timeout")
                    if not os.path.exists(w + "/out"): return ("kill", line, r, src[p:q], pr + ":crash")
                    d = json.load(open(w + "/out")); os.unlink(w + "/out")
                    if d["rc"]: return ("kill", line, r, src[p:q], pr + ":" + str(d.get("kind") or d.get("error")))
                return ("SURV", line, r, src[p:q], None)
            finally: shutil.rmtree(w, ignore_errors=True)
        for f in fs:
            f = B.REPO + "/src/libzt/" + f
            src = open(f).read(); ms = mutants(src)
            if opt["--lines"]:
                lo, hi = map(int, opt["--lines"].split("-")); ms = [m for m in ms if lo <= src.count("\n", 0, m[0]) + 1 <= hi]
            if len(ms) > int(opt["--max"]): ms = random.Random(1).sample(ms, int(opt["--max"]))
            t0 = time.time(); c = {"kill": 0, "SURV": 0, "same": 0, "nocomp": 0}; L = src.split("\n")
            with ThreadPoolExecutor(int(opt["--jobs"])) as ex:
                for st, line, r, old, how in ex.map(one, [(f, src, m) for m in sorted(ms)]):
                    c[st] += 1
                    if st == "SURV": print("%s:%d: `%s` -> `%s`   %s" % (os.path.basename(f), line, old.strip()[:40], r[:50], L[line - 1].strip()[:90]), flush=True)
            print("== %s vs %s: %d mutants, %d noticed, %d not, %d identical code, %d did not compile, %.0f s" % (os.path.basename(f), ",".join(props), len(ms), c["kill"], c["SURV"], c["same"], c["nocomp"], time.time() - t0), flush=True)
    finally: shutil.rmtree(top, ignore_errors=True)
main()
