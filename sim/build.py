#!/usr/bin/env python3
"""Builds the simulator executable from /repo's current sources. Objects are cached by content in /verif/.build."""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SKIP = {"ACSTest", "DLTMK5Q8380417N256", "DLTMK6Q8380417N256", "SocketReceiver", "SocketSender"}  # stale: not part of the project's own build
CPU = "-mavx2 -maes -mpclmul -mrdrnd -mrdseed -msha -mbmi2 -mxsave -fno-strict-aliasing -fwrapv -fno-omit-frame-pointer"
MS = "-fms-extensions -fms-compatibility -fms-compatibility-version=19.30 -fgnuc-version=4.2.1 -fdelayed-template-parsing -fcxx-exceptions -D__EXCEPTIONS=1 -D__STDC__=1 -DNDEBUG"
TS = "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -mllvm -tsan-handle-cxx-exceptions=0"

def h(*parts):
    d = hashlib.sha256()
    for p in parts: d.update(p if isinstance(p, bytes) else p.encode()); d.update(b"\0")
    return d.hexdigest()[:24]

def rd(f): return open(f, "rb").read()

def run(cmd): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

INC = re.compile(r'^[ \t]*#[ \t]*include[ \t]+[<"]([^">]+)[">]', re.M)

def closure(hars):
    """CEX sources reachable from these harness files: a header brings the source of the same name along."""
    cex = {os.path.basename(f): rd(f).decode(errors="replace") for f in glob.glob(REPO + "/CEX/*.h") + glob.glob(REPO + "/CEX/*.cpp")}
    low = {f.lower(): f for f in cex}  # includes are written without regard to case
    seen, todo = set(), list(hars)
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        for i in INC.findall(cex[f] if f in cex else rd(f).decode()):
            b = low.get(os.path.basename(i).lower())
            if b: todo.append(b)
            elif f not in cex and os.path.exists(os.path.join(os.path.dirname(f), i)): todo.append(os.path.normpath(os.path.join(os.path.dirname(f), i)))
        if f in cex and f.endswith(".h") and (f[:-2] + ".cpp").lower() in low: todo.append(low[(f[:-2] + ".cpp").lower()])
    return {f[:-4] for f in seen if f in cex and f.endswith(".cpp")}

def build(prop=None):
    """The whole simulator, or with a property only its scenarios and the sources they reach."""
    if prop:
        mine = [f for f in sorted(glob.glob(os.path.join(V, "sim/h/*.cpp"))) if any(prop in m.split(",") for m in re.findall(r'SCENARIO(?:_WARM)?\(\w+, *"([^"]*)"', rd(f).decode()))]
        e = build_(mine, closure(mine), prop) if mine else None
        if e: return e
    return build_(sorted(glob.glob(os.path.join(V, "sim/h/*.cpp"))), None)

HEAVY = {"C14", "C15"}  # properties whose runs hash for seconds
HASHES = {"Keccak", "SHA2256", "SHA2512", "SHA2", "XmssCore", "XmssUtils", "SphincsPlus", "SPXBase"}

def build_(hars, only, prop=None):
    bdir = os.environ.get("SIM_BUILD", os.path.join(V, ".build")); os.makedirs(bdir, exist_ok=True)
    sim = os.path.join(V, "sim")
    rh = h(*[os.path.basename(f) + ":" + hashlib.sha256(rd(f)).hexdigest() for f in sorted(glob.glob(REPO + "/CEX/*.h"))])
    fh = h(*[os.path.basename(f) + ":" + hashlib.sha256(rd(f)).hexdigest() for f in sorted(glob.glob(sim + "/fakewin/*") + [sim + "/prelude.h"])])
    sh = h(*[os.path.basename(f) + ":" + hashlib.sha256(rd(f)).hexdigest() for f in sorted(glob.glob(sim + "/*.h") + glob.glob(sim + "/h/*.h"))])
    base = f"clang++ -std=c++17 -g1 -w {CPU}"
    # the precompiled prelude is the standard library only; delayed template parsing is for CEX's own headers
    pre = f"{base} -O1 {MS.replace('-fdelayed-template-parsing', '-fno-delayed-template-parsing')} {TS} -I{sim}/fakewin -I{REPO}/CEX"
    pch = f"{bdir}/prelude-{h(pre, fh, rh)}.pch"
    if not os.path.exists(pch):
        tmp = pch + f".{os.getpid()}.tmp"; r = run(f"{pre} -x c++-header {sim}/prelude.h -o {tmp}")
        if r.returncode: print("build: prelude failed:\n" + r.stdout[-3000:], file=sys.stderr); return None
        os.replace(tmp, pch)
    pchf = f"-fdelayed-template-parsing -include-pch {pch}"
    cex = f"{pre} {pchf}"
    jobs = []
    for f in sorted(glob.glob(REPO + "/CEX/*.cpp")):
        n = os.path.basename(f)[:-4]
        if n in SKIP or (only is not None and n not in only): continue
        ig = []  # long hashing is compiled with optimisation and without access checks
        if n.startswith("MPKC") or (prop in HEAVY and n in HASHES): ig = ["heavy"] + (["leaves"] if prop == "C15" else [])
        fl = cex + (" -O2" if ig else "") + "".join(f" -fsanitize-ignorelist={sim}/{x}.txt" for x in ig)
        jobs.append(("cex", n, f, fl, h(fl, rh, fh, rd(f), *[rd(f"{sim}/{x}.txt") for x in ig])))
    har = f"{pre} -I{sim} {pchf}"
    for f in hars:
        jobs.append(("har", os.path.basename(f)[:-4], f, har, h(har, rh, fh, sh, rd(f))))
    rt = f"{base} -O2 -fms-extensions -I{sim}"
    for n in ("rt", "os", "file", "net", "main"):
        f = f"{sim}/{n}.cpp"; jobs.append(("rt", n, f, rt, h(rt, fh, sh, rd(f))))
    objs, todo = {}, []
    for kind, n, f, fl, k in jobs:
        o = f"{bdir}/{kind}-{n}-{k}.o"; objs[(kind, n)] = o
        if not os.path.exists(o): todo.append((os.path.getsize(f), kind, n, f, fl, o))
    todo.sort(reverse=True)
    fails = []
    def cc(t):
        _, kind, n, f, fl, o = t
        tmp = o + f".{os.getpid()}.tmp"
        p = run(f"{fl} -c {f} -o {tmp}")
        # without the few probes that reach into internal classes, where those have changed
        if p.returncode and kind == "har" and b"SIM_NO_INTERNALS" in rd(f): p = run(f"{fl} -DSIM_NO_INTERNALS -c {f} -o {tmp}")
        if p.returncode: return (kind, n, p.stdout)
        os.replace(tmp, o); return None
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", "8"))) as ex:
        for r in ex.map(cc, todo):
            if r: fails.append(r)
    for kind, n, msg in fails:
        print(f"build: {kind} {n} failed:\n{msg[-3000:]}", file=sys.stderr)
        if kind != "cex": return None
        objs.pop((kind, n))
    order = [objs[k] for k in sorted(objs) if k[0] == "cex"] + [objs[k] for k in sorted(objs) if k[0] == "har"] + [objs[k] for k in sorted(objs) if k[0] == "rt"]
    exe = f"{bdir}/simcex-{h(*order)}"
    if not os.path.exists(exe):
        rsp = exe + f".{os.getpid()}.rsp"; open(rsp, "w").write("\n".join(order))
        tmp = exe + f".{os.getpid()}.tmp"
        p = run(f"clang++ -no-pie -rdynamic -fuse-ld=bfd @{rsp} -o {tmp} -lpthread -ldl -Wl,-z,now")
        os.remove(rsp)
        if p.returncode:
            print("build: link failed:\n" + p.stdout[-4000:], file=sys.stderr); return None
        os.replace(tmp, exe)
    # drop what older trees left
    keep = set(order) | {exe, pch}
    if len(os.listdir(bdir)) > 3000:
        for f in glob.glob(bdir + "/*"):
            if f not in keep and not os.path.isdir(f): os.remove(f)
    return exe

if __name__ == "__main__":
    e = build(sys.argv[1] if len(sys.argv) > 1 else None)
    if not e: sys.exit(2)
    print(e)
