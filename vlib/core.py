"""Contract machinery: extraction of /repo's functions, contract enforcement with CBMC (DFCC), replay."""
import concurrent.futures, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("V_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18/bin/"
NCPU = os.cpu_count() or 8

def sh(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    def lim():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         cwd=cwd, preexec_fn=lim, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return -999, o, e

class ExtractionError(Exception):
    pass

# ------------------------------------------------------------------ contracts registry
class Contract:
    """requires/ensures over A (inputs) and O (outputs).  call: C++ statements of the bridge; None: a lemma
    (no code of /repo involved)."""
    def __init__(self, id, ins, outs=(), call=None, requires=(), ensures=(), group="schemes", unwind=34, split=None,
                 pre="", timeout=400, gen=None, real=(), spec=("spec.h",), models=(), object_bits=12, flags=(), level="proof",
                 bound=None, defines=(), heavy=0, solver=None, frame=True, thorough_only=False, quick=None, nogen=False, inner=None, use=(), uf=False, alt=None, deep=None):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})
        self.requires = [requires] if isinstance(requires, str) else list(requires)
        self.ensures = [(("post%d" % n), e) if isinstance(e, str) else e for n, e in enumerate(ensures)]
        self.cid = re.sub(r"\W", "_", id)
        self.loop_limits = {}  # loops whose limit had to be raised above 'inner'

CONTRACTS = {}
def contract(**kw):
    c = Contract(**kw)
    assert c.id not in CONTRACTS, c.id
    CONTRACTS[c.id] = c
    return c

GROUPS = {}
def group(name, tus, defines=(), bridge=(), models=()):
    """tus: globs relative to /repo/src"""
    GROUPS[name] = dict(tus=tus, defines=list(defines), bridge=list(bridge), models=list(models))

# ------------------------------------------------------------------ building blocks
def mpi_flags():
    rc, o, e = sh(["mpicc", "-showme:compile"])
    return o.split() if rc == 0 else ["-I/usr/lib/x86_64-linux-gnu/openmpi/include"]

def base_flags(debug=False):
    f = ["-I" + REPO + "/src", "-I" + REPO, "-I" + VERIF + "/vlib/include", *mpi_flags(),
         "-DT8_ENABLE_MPI=1", "-DT8_ENABLE_MPIIO=1", "-DT8_CMAKE_BUILD", "-DOMPI_SKIP_MPICXX", "-DMPICH_SKIP_MPICXX",
         "-include", VERIF + "/vlib/include/v_shim.h", "-w"]
    if debug:
        f.append("-DT8_ENABLE_DEBUG=1")
    return f

_tree_hash = None
def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for d, ds, fs in sorted(os.walk(REPO + "/src")):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".cxx", ".h", ".hxx", ".in")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
        for d in ("vlib", "models", "spec"):
            for p in sorted(glob.glob(VERIF + "/" + d + "/**/*", recursive=True)):
                if p.endswith((".h", ".hxx", ".c", ".py", ".cpp")):
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
        _tree_hash = h.hexdigest()[:16]
    return _tree_hash

def ensure_tools():
    os.makedirs(BUILD, exist_ok=True)
    src = VERIF + "/tools/ll2c.cpp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    exe = BUILD + "/ll2c-" + h
    if not os.path.exists(exe):
        cfg = lambda *a: sh([LLVM + "llvm-config", *a])[1].split()
        tmp = exe + ".tmp%d" % os.getpid()
        rc, o, e = sh(["clang++", "-O1", "-std=c++17", "-fno-rtti", "-w", *cfg("--cppflags"), src, "-o", tmp,
                       *cfg("--ldflags", "--libs", "core", "irreader", "support", "bitreader", "--system-libs")])
        if rc:
            raise ExtractionError("cannot build ll2c: " + e[-2000:])
        os.rename(tmp, exe)
    return exe

def pmap(fn, items, n=NCPU):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))

class Work:
    """one run: its scratch directory, groups' bitcode"""
    def __init__(self, contracts, debug=False):
        self.debug = debug
        self.contracts = contracts
        self.dir = os.path.join(BUILD, "run-%d" % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.bc = {}
        self.lock = threading.Lock()
        self.ll2c = ensure_tools()
        self.extracted = set()
        self.externals = {}
        rc, o, e = sh([sys.executable, VERIF + "/spec/gen_tables.py"])
        if rc:
            raise ExtractionError("gen_tables: " + e)
        open(self.dir + "/tables.h", "w").write(o)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- group bitcode
    def tus(self, g):
        r = []
        for pat in GROUPS[g]["tus"]:
            m = sorted(glob.glob(REPO + "/src/" + pat, recursive=True))
            r += [x for x in m if x not in r]
        for m in GROUPS[g]["models"]:
            r.append(VERIF + "/models/" + m)
        return r

    def compile_groups(self, names):
        cache = os.path.join(BUILD, "bc-" + tree_hash() + ("-dbg" if self.debug else ""))
        os.makedirs(cache, exist_ok=True)
        for old in glob.glob(BUILD + "/bc-*"):  # keep the cache small
            if old != cache and time.time() - os.path.getmtime(old) > 3 * 3600:
                shutil.rmtree(old, ignore_errors=True)
        jobs = {}
        for g in names:
            for t in self.tus(g):
                jobs[t] = os.path.join(cache, hashlib.sha256(t.encode()).hexdigest()[:12] + "_" + os.path.basename(t) + ".bc")
        fl = base_flags(self.debug)
        errs = []
        def comp(t):
            out = jobs[t]
            if os.path.exists(out):
                return
            cc = ["clang"] if t.endswith(".c") else ["clang++", "-std=c++20"]
            tmp = out + ".%d.tmp" % os.getpid()
            ml = []
            rc, o, e = sh(cc + ["-O0", "-Xclang", "-disable-O0-optnone", "-g0", "-fno-discard-value-names", "-emit-llvm", "-c", *fl, *ml, t, "-o", tmp])
            if rc:
                errs.append(t + ": " + "\n".join([l for l in e.splitlines() if "error" in l][:3]))
            else:
                os.rename(tmp, out)
        pmap(comp, sorted(jobs, key=lambda t: -os.path.getsize(t)))
        if errs:
            raise ExtractionError("compilation of /repo sources failed: " + " | ".join(errs))
        for g in names:
            self.bc[g] = [jobs[t] for t in self.tus(g)]

    # ---- bridge + io header for a set of contracts of one group
    def prepare(self):
        groups = sorted({c.group for c in self.contracts if c.call is not None})
        io = ["#ifndef V_IO_H", "#define V_IO_H", '#include "view.h"', "typedef char v_dummy;"]
        for c in self.contracts:
            io.append("typedef struct { %s int v_unused; } IN_%s;" % (" ".join("%s;" % decl(t, n) for t, n in c.ins), c.cid))
            io.append("typedef struct { %s int frame; } OUT_%s;" % (" ".join("%s;" % decl(t, n) for t, n in c.outs), c.cid))
        io.append("#endif")
        open(self.dir + "/io.h", "w").write("\n".join(io) + "\n")
        self.compile_groups(groups)
        self.linked = {}
        def link(g):
            b = self.bridge_src(g)
            src = "%s/bridge_%s.cxx" % (self.dir, g)
            open(src, "w").write(b)
            bb = src + ".bc"
            rc, o, e = sh(["clang++", "-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-g0", "-emit-llvm", "-c", *base_flags(self.debug),
                           "-I" + VERIF + "/vlib", "-I" + VERIF + "/spec", "-I" + self.dir, "-fno-threadsafe-statics", src, "-o", bb])
            if rc:
                raise ExtractionError("bridge for group %s does not compile: %s" % (g, "\n".join([l for l in e.splitlines() if "error" in l][:8])))
            all_ = "%s/%s.bc" % (self.dir, g)
            rc, o, e = sh([LLVM + "llvm-link", bb, *self.bc[g], "-o", all_])
            if rc:
                raise ExtractionError("llvm-link: " + e[-1500:])
            rc, o, e = sh([LLVM + "opt", "-phi-node-folding-threshold=0", "-two-entry-phi-node-folding-threshold=0", "-speculate-one-expensive-inst=false", "-passes=lowerinvoke,sroa,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>", all_, "-o", all_ + ".opt"])
            if rc:
                raise ExtractionError("opt: " + e[-1500:])
            self.linked[g] = all_ + ".opt"
        for r in pmap(link, groups):
            pass

    def bridge_src(self, g):
        b = ["#define V_%s 1" % g.upper()]
        b += ["#define %s" % d for d in GROUPS[g]["defines"]]
        b += ['#include "bridge.hxx"', '#include "io.h"']
        b += GROUPS[g]["bridge"]
        for c in self.contracts:
            if c.call is None or c.group != g:
                continue
            b.append('extern "C" void b_%s (const IN_%s *in, OUT_%s *out)\n{\n  const IN_%s &A = *in; OUT_%s &O = *out; (void) A;\n  O.frame = 0;\n  %s\n}'
                     % (c.cid, c.cid, c.cid, c.cid, c.cid, c.call))
        return "\n".join(b) + "\n"

    # ---- one contract: C file for CBMC
    def contract_c(self, c):
        L = ["#ifdef __cplusplus", 'extern "C" {', "#endif"] if False else []
        L += ['#include "%s"' % s for s in c.spec]
        if c.use:
            L.append('#include "stubs.h"')
        L += ['#include "io.h"', "typedef IN_%s IN_T; typedef OUT_%s OUT_T;" % (c.cid, c.cid)]
        if c.pre:
            L.append(c.pre)
        L.append("#define A (*in)\n#define O (*out)")
        lines = {}
        if c.call is not None:
            L.append("void b_%s (char *in, char *out);" % c.cid)
        L.append("void c_%s (const IN_T *in, OUT_T *out)" % c.cid)
        for r in c.requires:
            L.append("__CPROVER_requires(%s)" % r)
        L.append("__CPROVER_assigns(__CPROVER_object_whole(out))")
        ens = list(c.ensures)
        if c.call is not None and c.frame:
            ens.append(("frame", "O.frame == 0"))
        text = "\n".join(L)
        ln = text.count("\n") + 1
        for lab, e in ens:
            ln += 1
            lines[ln] = (lab, e)
            text += "\n__CPROVER_ensures(%s)" % e.replace("\n", " ")
        text += "\n{ %s }\n" % ("b_%s ((char *) in, (char *) out);" % c.cid if c.call is not None else "out->frame = 0;")
        text += "#undef A\n#undef O\nIN_T nondet_in (void);\nIN_T V_IN;\n"
        text += "#define A V_IN\n"
        for k, s in enumerate(self.splits(c)):
            text += "#if V_SPLIT == %d\nvoid harness (void) { V_IN = nondet_in (); OUT_T out; %s c_%s (&V_IN, &out); }\n" % (k, s["set"], c.cid)
            # vacuity: the precondition must be satisfiable (this assertion must FAIL)
            text += "void vac (void) { V_IN = nondet_in (); %s __CPROVER_assume(%s); __CPROVER_assert(0, \"vacuity\"); }\n#endif\n" % (
                s["set"], " && ".join("(%s)" % r for r in c.requires) or "1")
        if c.split:
            text += "void cover_all (void) { V_IN = nondet_in (); __CPROVER_assume(%s); __CPROVER_assert(%s, \"case split is complete\"); }\n" % (
                " && ".join("(%s)" % r for r in c.requires) or "1", " || ".join(s["cond"] for s in self.splits(c)))
        return text, lines

    def splits(self, c):
        """case split: a list of {variable: constant}; or (variable, values)"""
        if not c.split:
            return [dict(label="", set="", cond="1")]
        cases = c.split
        if isinstance(cases, tuple):
            cases = [{cases[0]: v} for v in cases[1]]
        return [dict(label=",".join("%s=%s" % (k.replace("A.", ""), v) for k, v in s.items() if not isinstance(v, str) or " " not in v), set=" ".join("%s = %s;" % kv for kv in s.items()),
                     cond="(" + " && ".join("%s == %s" % kv for kv in s.items()) + ")", case=s, quick=c.quick is None or c.quick(s)) for s in cases]
    def tasks(self, c, lines, quick):
        r = [Task(c, k, s["label"], lines) for k, s in enumerate(self.splits(c)) if s.get("quick", True) or not quick]
        if r:
            r[0].first = True
        c.partial = len(r) < len(self.splits(c)) or c.level != "proof"
        if len(r) < len(self.splits(c)) and c.level == "proof":
            c.level, c.bound = "bounded", "quick tier: %d of %d cases of the split (%s ...); all of them in the thorough tier" % (
                len(r), len(self.splits(c)), "; ".join(t.label for t in r[:12]))
        return r

    def build_contract(self, c):
        """writes the contract file, extracts the code; returns the line map"""
        d = self.dir
        text, lines = self.contract_c(c)
        cf = "%s/%s.c" % (d, c.cid)
        open(cf, "w").write(text)
        if c.call is not None:
            tc = "%s/%s_x.c" % (d, c.cid)
            rc, o, e = sh([self.ll2c, self.linked[c.group], tc, "b_" + c.cid],
                          env=dict(os.environ, LL2C_POLICY=VERIF + "/vlib/externals.policy", LL2C_REPLACE=";".join(u if "=" in u else "%s=v_use_%s" % (u, u) for u in c.use)))
            if rc:
                raise ExtractionError("ll2c %s: %s" % (c.id, e[-500:]))
            rep = json.loads(o)
            if rep["missing_roots"]:
                raise ExtractionError("no function b_" + c.cid)
            self.extracted.update(rep["functions"])
            c.functions = [f for f in rep["functions"] if not f.startswith("b_")]
            c.externals = rep["externals"]
            c.replaced = rep["replaced"]
            if rep["warnings"]:
                raise ExtractionError("%s: not translatable: %s" % (c.id, "; ".join(rep["warnings"])[:500]))
            c.xgb = "%s/%s_x.gb" % (d, c.cid)
            rc, o, e = sh(["goto-cc", "-c", tc, "-o", c.xgb])
            if rc:
                raise ExtractionError("goto-cc %s: %s" % (c.id, (o + e)[-1500:]))
        return cf, lines

    def link_split(self, c, k):
        gb = "%s/%s_%d.gb" % (self.dir, c.cid, k)
        rc, o, e = sh(["goto-cc", "-I" + self.dir, "-I" + VERIF + "/spec", "-DV_SPLIT=%d" % k, *["-D" + x for x in c.defines], *(["-DV_UF"] if c.uf else []),
                       "%s/%s.c" % (self.dir, c.cid), *([c.xgb] if c.call is not None else []), "--function", "harness", "-o", gb])
        if rc:
            raise ExtractionError("goto-cc %s: %s" % (c.id, (o + e)[-1500:]))
        return gb

def decl(t, n):
    m = re.match(r"(.*?)((\[\w+\])+)$", t)
    return "%s %s%s" % (m.group(1), n, m.group(2)) if m else "%s %s" % (t, n)

# ------------------------------------------------------------------ running obligations
class Result:
    pass

def cbmc_json(args, timeout, mem_gb=10, start=8):
    """run cbmc; the object bits (pointer encoding) start small and grow when cbmc reports that they do not suffice"""
    i = args.index("--object-bits")
    top, t0 = int(args[i + 1]), time.time()
    for b in range(min(start, top), top + 1):
        a = args[:i + 1] + [str(b)] + args[i + 2:]
        r = cbmc_json1(a, max(5, timeout - (time.time() - t0)), mem_gb)
        if r[0] is not None or "object" not in r[1]:
            break
    args[i + 1] = str(b)
    return r[0], r[1], time.time() - t0

def cbmc_json1(args, timeout, mem_gb=10):
    t0 = time.time()
    rc, o, e = sh(["cbmc", "--json-ui", *args], timeout=timeout, mem_gb=mem_gb)
    dt = time.time() - t0
    if rc == -999:
        return None, "timeout", dt
    try:
        msgs = json.loads(o)
    except ValueError:
        return None, "error: " + (o[-300:] + e[-300:]), dt
    res = None
    err = ""
    for m in msgs:
        if "result" in m:
            res = m["result"]
        if m.get("messageType") == "ERROR":
            err += m.get("messageText", "") + "; "
    if res is None:
        return None, "error: rc=%s %s %s" % (rc, err[:500], e[-300:]), dt
    return res, "", dt

SPECS = ["line", "quad", "hex", "tri", "tet", "vertex", "prism", "pyra", "svertex", "sline", "squad", "shex"]
CHECK_FLAGS = ["--unwinding-assertions", "--no-malloc-may-fail"]

def classify(p):
    """kind of an obligation from CBMC's property id/description"""
    d = p.get("description", "")
    n = p.get("property", "")
    if d.startswith("extraction:"):
        return "extraction"
    if d.startswith("abort:"):
        return "abort"
    if "unwinding assertion" in d or ".unwind." in n or n.endswith(".recursion"):
        return "unwind"
    if ".postcondition." in n or "ensures clause" in d:
        return "post"
    if ".assigns." in n or "is assignable" in d:
        return "assigns"
    return "safety"

class Task:
    def __init__(self, c, k, label, lines):
        self.c, self.k, self.label, self.lines = c, k, label, lines
        self.status = None      # proved | failed | undecided
        self.failed = []
        self.n = 0
        self.time = 0.0
        self.msg = ""
        self.vacuous = None
        self.cover = None
        self.first = False
        self.kinds = {}
    @property
    def name(self):
        return self.c.id + ("[%s]" % self.label if self.label else "")

def run_task(t, work, deadline):
    c = t.c
    try:
        gb = work.link_split(c, t.k)
    except ExtractionError as e:
        t.status, t.msg = "undecided", str(e)
        return t
    gb2 = gb[:-3] + "_i.gb"
    rc, o, e = sh(["goto-instrument", "--dfcc", "harness", "--enforce-contract", "c_" + c.cid, gb, gb2], timeout=120)
    if rc:
        t.status, t.msg = "undecided", "goto-instrument: " + (o + e)[-400:]
        return t
    base = ["--unwind", str(c.unwind), "--object-bits", str(c.object_bits)]
    # vacuity and split completeness
    res = None
    if os.environ.get("V_TIER") == "thorough" or t.first or t.k % 8 == 0:
        res, err, dt = cbmc_json(["--function", "vac", *base, "--no-standard-checks", gb], 100)
    if res is not None:
        v = [p for p in res if p.get("description") == "vacuity"]
        t.vacuous = not (v and v[0]["status"] == "FAILURE")
    if c.split and t.first:
        res, err, dt = cbmc_json(["--function", "cover_all", *base, "--no-standard-checks", gb], 100)
        if res is not None:
            v = [p for p in res if p.get("description") == "case split is complete"]
            t.cover = bool(v and v[0]["status"] == "SUCCESS")
    if t.vacuous or (c.split and t.first and not t.cover):
        t.status, t.msg = "undecided", "precondition is unsatisfiable" if t.vacuous else "case split is incomplete"
        return t
    to = max(5, min(c.timeout, deadline - time.time()))
    args = base + [*CHECK_FLAGS, *c.flags]
    if c.solver:
        args += c.solver
    res, err, dt = None, "", 0.0
    # Loops of contracts with 'inner', and all recursions, get a small limit first; the ones whose unwinding assertion
    # fails get the full one (the unwinding assertions decide: nothing is ever cut silently)
    loops = []
    if c.inner:
        loops = [l["name"] for m in json.loads(sh(["cbmc", "--json-ui", "--show-loops", gb2])[1]) for l in m.get("loops", [])]
    spec_fn = re.compile(r"^(%s)_" % "|".join(SPECS))
    have = set(re.findall(r"/\* (\w+) \*/", sh(["goto-instrument", "--list-goto-functions", gb2])[1]))
    cfun = set(getattr(c, "functions", []))
    fns = [f for f in sorted(have) if f in cfun or f.startswith("l_") and re.sub(r"_\d+$", "", f[2:]) in {re.sub(r"\W", "_", re.sub(r"\.\d+$", "", x)) for x in cfun}]
    inner = c.inner(work.splits(c)[t.k].get("case")) if callable(c.inner) else c.inner
    for attempt in range(8):
        lim = {l: (c.unwind if spec_fn.match(l) else c.loop_limits.get(l, inner)) for l in loops}
        lim.update({f: (min(c.unwind, c.deep(work.splits(c)[t.k].get("case"))) if c.deep and f in c.loop_limits else c.loop_limits.get(f, 3)) for f in fns})
        us = ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(lim.items()))] if lim else []
        run = args + us + [gb2]
        res, err, dt1 = cbmc_json(run, max(5, to - dt), start=c.__dict__.get("ob", 8))
        ob = run[run.index("--object-bits") + 1]
        if res is not None:
            c.ob = max(int(ob), c.__dict__.get("ob", 8))
        dt += dt1
        if res is None:
            break
        bad = [p["property"] for p in res if p["status"] == "FAILURE"]
        up = [p.replace(".unwind.", ".") for p in bad if ".unwind." in p] + [p[:-10] for p in bad if p.endswith(".recursion")]
        full = lambda u: min(c.unwind, c.deep(work.splits(c)[t.k].get("case"))) if c.deep and u in fns else c.unwind
        up = [u for u in up if lim.get(u, c.unwind) < full(u)]
        if not up:
            break
        for u in up:
            c.loop_limits[u] = c.unwind
    args = args + us
    args[args.index("--object-bits") + 1] = ob
    t.time = dt
    if res is None:
        t.status, t.msg = "undecided", err
        return t
    t.n = len(res)
    for p in res:
        k = classify(p)
        t.kinds[k] = t.kinds.get(k, 0) + 1
    t.failed = [p for p in res if p["status"] == "FAILURE"]
    unk = [p for p in res if p["status"] not in ("SUCCESS", "FAILURE")]
    if not any(classify(p) == "post" for p in res):
        t.status, t.msg = "undecided", "no postcondition obligation was generated"
        return t
    if t.failed:
        t.status = "failed"
        t.gb2 = gb2
        t.args = args
    elif unk:
        t.status, t.msg = "undecided", "%d obligations unknown" % len(unk)
    else:
        t.status = "proved"
        os.unlink(gb2)
    os.unlink(gb)
    return t
