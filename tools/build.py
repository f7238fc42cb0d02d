#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree.

library sources --clang -fsanitize=thread (instrumentation only)--> objects
  --objcopy --redefine-syms--> libc/pthread references become sim_* references
simulator + scenarios --clang--> objects;  everything linked into one program.
"""
import hashlib, json, os, shlex, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OPT = os.environ.get("SIM_OPT", "-O1")      # optimisation level of the library (another one is another set of preemption points)
NOT_SEAM = set("""error fail finish note nontrivial sig desc yield block_until idle steps step_limit deadlock_kind sched_cfg now wall_ns advance
wall_step wall_set alloc_nf trace active verbose exit_cb abort_cb fork_cb hostname_fail errno_loc switch last_created atexit_count abort_now jumps shared process""".split())

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-6000:]))
    return r.stdout

def files(top, exts):
    out = []
    for d, dd, ff in os.walk(top):
        dd[:] = [x for x in dd if x not in (".git", "_build", "build", "__pycache__")]
        out += [os.path.join(d, f) for f in ff if f.endswith(exts)]
    return sorted(out)

def tree_hash():
    h = hashlib.sha256()
    for f in files(REPO + "/src", (".c", ".h", ".in", ".txt", ".cpp")) + files(REPO + "/compat", (".h", ".c")) + [REPO + "/CMakeLists.txt"] + files(VERIF + "/sim", (".c", ".h", ".cpp")) + [os.path.abspath(__file__)]:
        if os.path.exists(f):
            h.update(f.encode()); h.update(b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    if OPT != "-O1": h.update(OPT.encode())
    return h.hexdigest()[:16]

def configure(bd):
    """generated headers and preprocessor definitions, from the repository's own build configuration"""
    cm = bd + "/cm"
    cmd = ["cmake", "-S", REPO, "-B", cm, "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_C_FLAGS=-Wno-error",
           "-DCMAKE_CXX_FLAGS=-Wno-error", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]
    if shutil.which("ninja"): cmd += ["-G", "Ninja"]
    sh(cmd)
    cc = json.load(open(cm + "/compile_commands.json"))
    srcs, flags = [], None
    for e in cc:
        f = os.path.realpath(e["file"])
        if "/src/libzt/" not in f or not f.endswith((".c", ".cpp")): continue
        if os.path.basename(f) == "zt_win32.c": continue
        if f not in srcs: srcs.append(f)
        if f.endswith("/zt_threads.c"):
            flags = [a for a in shlex.split(e["command"]) if a.startswith(("-D", "-I"))]
    if not srcs or not flags: raise RuntimeError("no library sources in the build description")
    return srcs, flags

def build(verbose=False):
    h = tree_hash()
    bd = "%s/build/%s" % (VERIF, h)
    exe = bd + "/simrun"
    if os.path.exists(bd + "/ok"): return exe
    base = VERIF + "/build"
    if os.path.isdir(base):
        old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for d in old[:-6]: shutil.rmtree(d, ignore_errors=True)
    tmp = bd + ".tmp%d" % os.getpid()
    os.makedirs(tmp + "/lib"); os.makedirs(tmp + "/sim")
    core = files(VERIF + "/sim/core", (".c",)); scn = files(VERIF + "/sim/scn", (".c",))
    warn = ["-Wall", "-Wextra", "-Wno-unused-parameter", "-Wno-unused-function", "-Werror=implicit-function-declaration"] if verbose else ["-w"]
    with ThreadPoolExecutor(8) as ex:
        cj = [ex.submit(sh, ["clang", "-O2", "-g", "-fno-pie", "-fno-omit-frame-pointer"] + warn + ["-I" + VERIF + "/sim/core", "-c", f, "-o", tmp + "/sim/core_" + os.path.basename(f)[:-2] + ".o"]) for f in core]
        srcs, flags = configure(tmp)
        flags = [a.replace(tmp, tmp) for a in flags]
        lj, lobj = [], []
        # clients of header-only code (sim/cli) are compiled like the library, so that what the headers put into them is instrumented
        for f in srcs + files(VERIF + "/sim/cli", (".c", ".cpp")):
            o = tmp + "/lib/" + (os.path.relpath(f, REPO + "/src").replace("/", "__") if f in srcs else "cli__" + os.path.basename(f)).rsplit(".", 1)[0] + ".o"; lobj.append(o)
            lj.append(ex.submit(sh, ["clang" if f.endswith(".c") else "clang++", OPT, "-g", "-w", "-fno-builtin", "-fno-pie", "-femulated-tls", "-fno-omit-frame-pointer", "-fstack-protector-strong", "-fsanitize=thread,array-bounds,local-bounds", "-fsanitize-trap=array-bounds,local-bounds",
                                     "-fsanitize-coverage=trace-pc-guard", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=2"] + flags + ["-D_GNU_SOURCE", "-DNDEBUG", "-DLUA_USE_MKSTEMP", "-c", f, "-o", o]))
        sj = []
        ids = []
        import re
        for f in scn:
            ids += re.findall(r"^SCN\((\w+),", open(f).read(), re.M)
            sj.append(ex.submit(sh, ["clang", "-O1", "-g", "-fno-pie", "-fno-builtin", "-fno-omit-frame-pointer"] + warn + flags + ["-D_GNU_SOURCE", "-I" + VERIF + "/sim/core", "-I" + VERIF + "/sim/scn", "-c", f, "-o", tmp + "/sim/scn_" + os.path.basename(f)[:-2] + ".o"]))
        with open(tmp + "/table.c", "w") as t:
            t.write('#include "sim.h"\n' + "".join("extern const scn_t scn_%s;\n" % i for i in ids) + "const scn_t *const all_scn[] = {" + "".join("&scn_%s," % i for i in ids) + "0};\n")
        cj.append(ex.submit(sh, ["clang", "-O1", "-fno-pie", "-I" + VERIF + "/sim/core", "-c", tmp + "/table.c", "-o", tmp + "/sim/table.o"]))
        for j in cj + lj + sj:
            o = j.result()
            if verbose and o.strip(): sys.stderr.write(o)
    cobj = [tmp + "/sim/" + f for f in sorted(os.listdir(tmp + "/sim"))]
    seams = set()
    for l in sh(["nm"] + [o for o in cobj if "/core_" in o]).splitlines():
        p = l.split()
        if len(p) == 3 and p[1] in "TDBRC" and p[2].startswith("sim_") and p[2][4:] not in NOT_SEAM: seams.add(p[2][4:])
    defd, und = set(), set()
    for l in sh(["nm"] + lobj).splitlines():
        p = l.split()
        if len(p) == 3 and p[1] in "TDBRCVW": defd.add(p[2])
        elif len(p) == 2 and p[0] in "Uw": und.add(p[1])
    with open(tmp + "/redef", "w") as f:
        for s in sorted((und & seams) - defd): f.write("%s sim_%s\n" % (s, s))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda o: sh(["objcopy", "--redefine-syms=" + tmp + "/redef", o]), lobj))
    json.dump({"seams": sorted((und & seams) - defd), "direct": sorted(x for x in und - seams - defd if not x.startswith("__tsan") and not x.startswith("__sanitizer"))}, open(tmp + "/symbols.json", "w"))
    sh(["clang++" if any(f.endswith(".cpp") for f in srcs) else "clang", "-no-pie", "-o", tmp + "/simrun"] + cobj + lobj + ["-lpthread", "-lm"])
    open(tmp + "/ok", "w").close()
    shutil.rmtree(tmp + "/cm", ignore_errors=True)
    try: os.rename(tmp, bd)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe

if __name__ == "__main__":
    print(build("-v" in sys.argv))
