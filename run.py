#!/usr/bin/env python3
"""Driver: build the symbolic executables from /repo's current tree, run a property's harnesses, replay
counterexamples against the real code compiled natively, and write the evidence file.
usage: run.py check ID [quick|thorough] | run.py setup | run.py exe FILE (build only)"""
import sys, os, re, json, hashlib, subprocess, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("F2C_REPO", "/repo")
B = os.path.join(V, "build"); SRC = REPO + "/src/fields2cover/"
ENG = V + "/engine/"
CXX = "clang++-18"
INC = ["-I" + V + "/shim", "-I" + REPO + "/include", "-I/usr/include/gdal", "-I" + V + "/engine", "-I" + V + "/model", "-I" + V + "/harness"]
BASE = ["-std=c++17", "-O1", "-g0", "-w", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-DF2C_VERIF"]
SYM = BASE + ["-I" + V + "/engine/std", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
LEAVE_OUT = {"utils/visualizer.cpp", "utils/parser.cpp"}
pool = ThreadPoolExecutor(8)

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]
def rd(f):
    with open(f, "rb") as fh: return fh.read()
_inc = None
def inc_hash():
    global _inc
    if _inc is None:
        fs = sorted(glob.glob(REPO + "/include/**/*", recursive=True)) + sorted(glob.glob(V + "/shim/**/*", recursive=True)) + \
             sorted(glob.glob(V + "/harness/*.h") + glob.glob(V + "/engine/*.h") + glob.glob(V + "/engine/std/bits/*") + glob.glob(V + "/model/*.h"))
        _inc = h(*[x for f in fs if os.path.isfile(f) for x in (f.replace(REPO, "R").replace(V, "V"), rd(f))])
    return _inc
class BuildError(Exception): pass
def make(key, ext, cmdf):
    os.makedirs(B + "/o", exist_ok=True)
    out = f"{B}/o/{key}{ext}"
    if os.path.exists(out): return out
    tmp = out + f".{os.getpid()}.tmp" + ext
    r = sh(cmdf(tmp))
    if r.returncode: raise BuildError(" ".join(cmdf(tmp)) + "\n" + r.stdout[-6000:])
    os.rename(tmp, out); return out
_llvm = None
def plugin():
    fl = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split() if not os.path.exists(f"{B}/o/{h('pass', rd(ENG+'pass.cpp'))}.so") else []
    return make(h("pass", rd(ENG + "pass.cpp")), ".so", lambda o: [CXX, "-shared", "-fPIC", "-O1", "-g0", *fl, "-fno-rtti", "-w", ENG + "pass.cpp", "-o", o])
def obj(src, flags, kind, plug=None, comp=CXX):
    extra = ["-fpass-plugin=" + plug] if plug else []
    key = h(kind, os.path.basename(src), rd(src), inc_hash(), " ".join(flags).replace(REPO, "R").replace(V, "V"), os.path.basename(plug or ""))
    return make(key, ".o", lambda o: [comp, *flags, *INC, *extra, "-c", src, "-o", o])
def directives(f):
    d = {"src": [], "native": "model", "bound": [], "assume": [], "budget": {}, "thorough_only": [], "def": [], "libs": []}
    for l in open(f):
        m = re.match(r"//@ (\w+):\s*(.*)", l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == "src": d["src"] += v.split()
        elif k == "native": d["native"] = v
        elif k in ("bound", "assume"): d[k].append(v)
        elif k == "budget":
            p = v.split(); d["budget"][p[0]] = (float(p[1]), float(p[2]) if len(p) > 2 else float(p[1]))
        elif k == "libs": d["libs"] += v.split()
        elif k == "thorough_only": d["thorough_only"] += v.split()
        elif k == "def": d["def"] += v.split()
    return d
def all_src(): return sorted(os.path.relpath(f, SRC) for f in glob.glob(SRC + "**/*.cpp", recursive=True) if os.path.relpath(f, SRC) not in LEAVE_OUT) + (["../fields2cover.cpp"] if os.path.exists(SRC + "../fields2cover.cpp") else [])
def stubs(names):
    s = ".text\n"
    for i, n in enumerate(sorted(names)):
        s += f".globl {n}\n.type {n},@function\n{n}:\n subq $8,%rsp\n leaq .Ls{i}(%rip),%rdi\n call sx_unmodelled\n ud2\n"
    s += ".section .rodata\n" + "".join(f'.Ls{i}: .asciz "{n}"\n' for i, n in enumerate(sorted(names))) + '.section .note.GNU-stack,"",@progbits\n'
    p = f"{B}/o/stub_{h(s)}.s"
    if not os.path.exists(p):
        with open(p, "w") as f: f.write(s)
    return p
def link(objs, libs, linkflags, tag, allobjs, full=False, rtobj=()):
    """link objs; undefined f2c symbols pull in all sources, other undefined functions become 'unmodelled' stubs"""
    os.makedirs(B + "/o", exist_ok=True)
    key = h("link", tag, *[os.path.basename(o) for o in objs], str(full))
    out = f"{B}/o/{key}.exe"
    if os.path.exists(out): return out
    stub, names = [], set()
    for _ in range(6):
        tmp = out + f".{os.getpid()}.tmp"
        r = sh(["g++", *linkflags, *objs, *stub, *libs, "-Wl,--no-demangle", "-o", tmp])
        if r.returncode == 0:
            os.rename(tmp, out); return out
        u = set(re.findall(r"undefined reference to `([^']+)'", r.stdout))
        if not u - names: raise BuildError("link: " + r.stdout[-5000:])
        if not full and any("3f2c" in n for n in u): return link(allobjs(), libs, linkflags, tag, allobjs, True)
        bad = [n for n in u if re.match(r"_ZT[VIS]", n)]
        if bad: raise BuildError("undefined data symbols: " + " ".join(bad))
        names |= u; stub = [stubs(names)]
    raise BuildError("link did not converge: " + r.stdout[-3000:])
def build_sym(hf):
    d = directives(hf)
    jobs = {}
    fp = pool.submit(plugin)
    jrt = pool.submit(lambda: make(h("rt3", rd(ENG + "rt.cpp"), rd(ENG + "sx.h")), ".so", lambda o: ["g++", "-std=c++17", "-O1", "-g0", "-w", "-shared", "-fPIC", "-I" + ENG, ENG + "rt.cpp", "-o", o, "-lgmpxx", "-lgmp", "-lpthread", "-ldl"]))
    plug = fp.result()
    df = ["-D" + x for x in d["def"]]
    def one(s): return obj(s, SYM, "sym", plug)
    js = [pool.submit(obj, hf, SYM + df, "sym", plug)] + [pool.submit(one, SRC + s) for s in d["src"] if os.path.exists(SRC + s)]
    js += [pool.submit(one, V + "/model/ogr_model.cpp"), pool.submit(one, V + "/model/text.cpp")]
    jl = pool.submit(lambda: make(h("sxlib", rd(ENG + "sxlib.c"), plug), ".o", lambda o: ["clang-18", "-O1", "-fno-builtin", "-fno-vectorize", "-fpass-plugin=" + plug, "-c", ENG + "sxlib.c", "-o", o]))
    objs = [j.result() for j in js] + [jl.result(), jrt.result()]
    def allobjs():
        js = [pool.submit(obj, hf, SYM + df, "sym", plug)] + [pool.submit(one, SRC + s) for s in all_src() + [x for x in d["src"] if x in LEAVE_OUT]] + [pool.submit(one, V + "/model/ogr_model.cpp"), pool.submit(one, V + "/model/text.cpp")]
        return [j.result() for j in js] + [jl.result(), jrt.result()]
    return link(objs, ["-lpthread", "-ldl", *d["libs"]], ["-no-pie"], "sym", allobjs)
def build_native(hf):
    d = directives(hf); df = ["-D" + x for x in d["def"]]
    model = d["native"] == "model"
    mk = lambda s: obj(s, BASE, "nat")
    jr = pool.submit(obj, ENG + "rt_replay.cpp", BASE, "nat")
    def objs_of(ss):
        js = [pool.submit(obj, hf, BASE + df + ["-DSX_NATIVE"] + ([] if model else ["-DSX_GDAL"]), "nat")] + [pool.submit(mk, SRC + s) for s in ss if os.path.exists(SRC + s)]
        if model: js.append(pool.submit(mk, V + "/model/ogr_model.cpp"))
        return [j.result() for j in js] + [jr.result()]
    libs = ["-lpthread", "-ldl", *d["libs"]] + ([] if model else ["-lgdal", "-lgeos_c"])
    return link(objs_of(d["src"]), libs, ["-no-pie"], "nat" + d["native"], lambda: objs_of(all_src() + [x for x in d["src"] if x in LEAVE_OUT]))

def replay(exe, harness, f):
    try: r = sh([exe, harness, f], timeout=90)
    except subprocess.TimeoutExpired: return 1, "timeout"
    return r.returncode, r.stdout
def known():
    o = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) assert=\"([^\"]*)\"\s*(.*)", l)
            if m: o.append(m.groups())
    return o
def check(pid, tier):
    t0 = time.time(); cached = len(glob.glob(B + "/o/*"))
    hf = f"{V}/harness/{pid}.cpp"; d = directives(hf)
    ev = V + "/evidence"; os.makedirs(ev, exist_ok=True)
    exe = build_sym(hf)
    natf = ThreadPoolExecutor(1).submit(build_native, hf)
    bt = time.time() - t0
    names = [n for n in sh([exe]).stdout.split() if n.startswith(pid)]
    if tier == "quick": names = [n for n in names if n not in d["thorough_only"]]
    rp = f"{ev}/replay/{pid}"; shutil.rmtree(rp, ignore_errors=True); os.makedirs(rp, exist_ok=True)
    run = f"{B}/run/{pid}.{os.getpid()}"; shutil.rmtree(run, ignore_errors=True)
    tot = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, infeasible=0, unsupported=0, timeouts=0, engine_crashes=0, ignored=0, undecided=0, assumed_away=0); solver = 0.0
    funcs, per, samples, viols, problems = set(), [], [], [], []
    validated = 0; mism = []
    nat = None
    for n in names:
        q, t = d["budget"].get(n, (60, 300)); bud = q if tier == "quick" else t
        od = f"{run}/{n}"; os.makedirs(od)
        ht = time.time()
        env = dict(os.environ, SX_TIER=tier)
        try: r = sh([exe, n, str(bud), od, "8", "8" if tier == "quick" else "24"], timeout=bud * 2 + 60, env=env)
        except subprocess.TimeoutExpired: problems.append(f"{n}: engine did not stop"); continue
        try: res = json.load(open(od + "/result.json"))
        except Exception: problems.append(f"{n}: no result: {r.stdout[-500:]}"); continue
        for k in tot: tot[k] += int(res.get(k, 0))
        solver += res.get("solver_s", 0); funcs |= set(res.get("functions", []))
        per.append({k: res.get(k) for k in ("harness", "paths", "forks", "queries", "sat", "unsat", "unknown", "timeouts", "unsupported", "undecided", "asserts", "reach", "solver_s")} | {"wall_s": round(time.time() - ht, 2)})
        if res.get("unsupported"): problems.append(f"{n}: {res['unsupported']} unsupported paths {res.get('unsupported_reasons')}")
        if res.get("timeouts"): problems.append(f"{n}: exploration budget used up ({res['timeouts']})")
        if res.get("engine_crashes"): problems.append(f"{n}: {res['engine_crashes']} engine crashes")
        if res.get("undecided"): problems.append(f"{n}: {res['undecided']} undecided assertions: " + str([a["msg"] for a in res["asserts"] if a.get("undecided")]))
        if res.get("paths", 0) - res.get("infeasible", 0) <= 0: problems.append(f"{n}: no path completed")
        if nat is None: nat = natf.result()
        # witnesses: replay path inputs against the real code
        for w in sorted(glob.glob(od + "/wit_*.in")):
            c, o = replay(nat, n, w)
            if c == 0: validated += 1
            elif c == 1: mism.append((n, w, o))
            if len(samples) < 6:
                samples.append({"harness": n, "replayed": {0: "agrees", 77: "rounding leaves the assumptions", 78: "unmodelled"}.get(c, "differs"), "inputs": [l.strip() for l in open(w) if l[0] != "#"][:12]})
        seen = {}
        for vf in sorted(glob.glob(od + "/viol_*.in") + glob.glob(od + "/viol_*.in.nomodel")):
            msg = open(vf).readline()[1:].strip()
            cur = seen.setdefault(msg, None)
            if cur: continue
            c, o = (99, "no model") if vf.endswith(".nomodel") else replay(nat, n, vf)
            if c == 1 and not cur:
                dst = f"{rp}/{n}_{len(viols)}.in"; shutil.copy(vf, dst)
                seen[msg] = dst; viols.append((n, msg, dst, o.strip()))
        for msg, s in seen.items():
            if not s: problems.append(f"{n}: counterexample to \"{msg}\" was not confirmed by the real code")
    # an input on which the native run fails although the symbolic run passed is still a real failing input of the assertion
    for n, w, o in mism:
        dst = f"{rp}/{n}_w{len(viols)}.in"; shutil.copy(w, dst)
        m = re.search(r"ASSERTION FAILED: (.*)|(CRASH.*)", o); problems.append(f"{n}: native run differs from symbolic run on {dst}: {m.group(0) if m else o[-200:]}")
    kn = [k for k in known() if k[0] == pid]; new = []; kf = {}
    for v in viols:
        k = [x for x in kn if x[1] == v[0] and v[1].startswith(x[2])]
        if k: kf[k[0]] = v
        else: new.append(v)
    shutil.rmtree(run, ignore_errors=True)
    evd = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
      "coverage": {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated, "samples": samples,
        "rule": "states = symbolic execution paths completed; transitions = two-way branch decisions made by the solver; traces validated = solver-generated path inputs re-run on the natively compiled code with the same verdict",
        "exhaustive": not (tot["timeouts"] or tot["unsupported"] or tot["undecided"] or tot["engine_crashes"]),
        "functions_encoded": sorted(funcs), "bounds": d["bound"], "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
        "solver_s": round(solver, 2), "build_s": round(bt, 2), "harnesses": per, "notes": problems},
      "assumptions": d["assume"], "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(evd, open(f"{ev}/{pid}.json", "w"), indent=1)
    for p in problems: print("NOTE " + p)
    for (p, hn, a, desc), v in kf.items(): print(f"KNOWN-FINDING: property={pid} {desc or a}")
    print(f"{pid} {tier}: {len(names)} harnesses, {tot['paths']} paths, {tot['queries']} queries ({solver:.1f}s solver), {validated} traces validated, {round(time.time()-t0,1)}s (build {bt:.1f}s, {cached} cached)")
    for n, msg, f, o in new:
        print(f"  {n}: {msg}\n    {o[-300:]}\n    re-run: {nat} {n} {f}")
    if new:
        print(f"VIOLATION property={pid} replay={new[0][2]}"); return 1
    if not names or (tot["paths"] == 0): print("no verdict: nothing was explored"); return 2
    return 0
def main():
    a = sys.argv[1:]
    try:
        if a[0] == "check": rc = check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
        elif a[0] == "exe": print(build_sym(a[1])); print(build_native(a[1])); rc = 0
        elif a[0] == "setup":
            plugin(); rc = 0
            for f in sorted(glob.glob(V + "/harness/*.cpp")): build_sym(f); build_native(f)
        else: rc = 2
    except BuildError as e:
        print("BUILD ERROR\n" + str(e)); rc = 2
    pool.shutdown(wait=False, cancel_futures=True); sys.stdout.flush(); os._exit(rc)
main()
