"""Native replay of counterexamples and native search for failing inputs, on the real code (sanitizers on)."""
import hashlib, json, os, re, shutil, time
from . import core
from .core import sh, VERIF, REPO, BUILD, GROUPS, pmap, base_flags, ExtractionError

SAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

def view_types():
    t = {}
    for m in re.finditer(r"typedef struct \{(.*?)\} (V_\w+);", open(VERIF + "/spec/view.h").read()):
        mem = []
        for d in m.group(1).split(";"):
            d = d.strip()
            if d:
                ty, names = d.split(None, 1)
                for n in names.split(","):
                    n = n.strip()
                    a = re.match(r"(\w+)((\[\w+\])*)$", n)
                    mem.append((ty + a.group(2), a.group(1)))
        t[m.group(2)] = mem
    return t
VIEW = view_types()
SCALAR = {"int", "int32_t", "u64", "i64", "int8_t", "int64_t", "uint64_t", "uint32_t", "double", "size_t", "char", "bool"}

def leaves(t, n):
    """all scalar lvalues of a declaration"""
    m = re.match(r"(.*?)\[(\w+)\]((\[\w+\])*)$", t)
    if m:
        for i in range(int(m.group(2))):
            yield from leaves(m.group(1) + m.group(3), "%s[%d]" % (n, i))
    elif t in VIEW:
        for mt, mn in VIEW[t]:
            yield from leaves(mt, n + "." + mn)
    else:
        yield t, n

def elems(t, n):
    """lvalues of the view-typed or scalar components"""
    m = re.match(r"(.*?)\[(\w+)\]((\[\w+\])*)$", t)
    if m:
        for i in range(int(m.group(2))):
            yield from elems(m.group(1) + m.group(3), "%s[%d]" % (n, i))
    else:
        yield t, n

def driver_src(c, work):
    """C file: requires, ensures, generators, printing of one contract"""
    text, _ = work.contract_c(c)
    L = ["#include <stdio.h>", "#include <stdlib.h>", "#include <string.h>", "#include <unistd.h>", "#include <time.h>",
         "#include <sys/mman.h>", "#include <sys/wait.h>"]
    L += ['#include "%s"' % s for s in c.spec]
    L += ['#include "io.h"', "typedef IN_%s IN_T; typedef OUT_%s OUT_T;" % (c.cid, c.cid), c.pre,
          "#define A (*in)\n#define O (*out)"]
    if c.call is not None:
        L.append("void b_%s (const IN_T *in, OUT_T *out);" % c.cid)
    L.append("static int n_requires (const IN_T *in) { return %s; }" % (" && ".join("(%s)" % r for r in c.requires) or "1"))
    L.append("static int n_ensures (const IN_T *in, OUT_T *out) {")
    for lab, e in list(c.ensures) + ([("frame", "O.frame == 0")] if c.call is not None and c.frame else []):
        L.append('  if (!(%s)) { printf ("FAILS %s\\n"); return 0; }' % (e, lab))
    L.append("  return 1; }")
    L.append("static void n_call (const IN_T *in, OUT_T *out) { %s }" % ("b_%s (in, out);" % c.cid if c.call is not None else "out->frame = 0;"))
    L.append("#undef A\n#undef O")
    fmt = lambda t: '"%.17g", (double)' if t == "double" else '"%lld", (long long)'
    L.append("static void show_in (const IN_T *in) {")
    for t, n in c.ins:
        for lt, ln in leaves(t, n):
            L.append('  printf ("IN %s = "); printf (%s in->%s); printf ("\\n");' % (ln, fmt(lt), ln))
    L.append("}\nstatic void show_out (const OUT_T *out) {")
    for t, n in c.outs:
        for lt, ln in leaves(t, n):
            L.append('  printf ("OUT %s = "); printf (%s out->%s); printf ("\\n");' % (ln, fmt(lt), ln))
    L.append("}")
    L.append('''
static u64 rs;
static u64 rnd (void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static int gen_int (void) { switch (rnd () % 8) { case 0: return (int) (rnd () % 3) - 1; case 1: return (int) (rnd () % 40); case 2: return (int) (rnd () % 4);
  case 3: case 4: return (int) (rnd () % 8); case 5: return (int) (rnd () % 24); case 6: return (int) (rnd () % 12); default: return rnd () % 64 ? (int) (rnd () % 32) : (int) rnd (); } }
static u64 gen_u64 (void) { return rnd () % 8 ? rnd () >> (rnd () % 64) : ~(u64) 0 >> (rnd () % 64); }
static u64 gen_id (u64 n) { u64 r; if (n == 0) return 0; switch (rnd () % 6) { case 0: return n - 1; case 1: return 0; case 2: r = rnd () >> (rnd () % 64); return r % n; default: return rnd () % n; } }
static int gen_level (int ml) { switch (rnd () % 4) { case 0: return ml; case 1: return (int) (rnd () % 4) % (ml + 1); default: return (int) (rnd () % (u64) (ml + 1)); } }
''')
    need = set()
    def walk(t):
        m = re.match(r"(.*?)(\[\w+\])+$", t)
        t = m.group(1) if m else t
        if t in VIEW and not t.startswith("V_x"):
            need.add(t)
    for t, n in c.ins:
        walk(t)
    for t in sorted(need):
        p = t[2:]
        L.append("static %s gen_%s (void) { int l = gen_level (%s_ML ()); return %s_from (gen_id (%s_count (%s_root (), l)), l); }" % (t, t, p, p, p, p))
    L.append("static void generate (IN_T *in) {")
    el = [(lt, ln) for t, n in c.ins for lt, ln in elems(t, n)]
    prev = {}
    for lt, ln in el:
        if lt in need:
            p = lt[2:]
            L.append("  in->%s = gen_%s ();" % (ln, lt))
            if lt in prev:  # related elements
                q = prev[lt]
                L.append("  switch (rnd () %% 6) { case 0: in->%s = in->%s; break; case 1: in->%s = %s_anc (in->%s, (int) (rnd () %% (u64) (%s_level (in->%s) + 1))); break;"
                         % (ln, q, ln, p, q, p, q))
                L.append("    case 2: if (%s_level (in->%s) > 0) { %s pa = %s_parent (in->%s); in->%s = %s_child (pa, (int) (rnd () %% (u64) %s_nchild (pa))); } break; default: break; }"
                         % (p, q, lt, p, q, ln, p, p))
            prev[lt] = ln
        elif lt in ("u64", "i64", "uint64_t", "int64_t", "size_t"):
            L.append("  in->%s = gen_u64 ();" % ln)
        elif lt == "double":
            L.append("  in->%s = (double) (int64_t) rnd () / 4e18;" % ln)
        elif lt in VIEW:
            for a, b in leaves(lt, ln):
                L.append("  in->%s = %s ();" % (b, "gen_u64" if a in ("u64", "i64") else "gen_int"))
        else:
            L.append("  in->%s = gen_int ();" % ln)
    sp = work.splits(c)
    if c.split:
        L.append("#define A (*in)\n  if (rnd () %% 2) switch (rnd () %% %d) {" % len(sp))
        for k, s in enumerate(sp):
            L.append("  case %d: %s break;" % (k, s["set"]))
        L.append("  }\n#undef A")
    if c.gen:
        L.append("#define A (*in)\n%s\n#undef A" % c.gen)
    L.append("}")
    L.append('''
static IN_T in; static OUT_T out;
static int one (u64 seed, u64 it) {
  rs = seed * 0x9E3779B97F4A7C15ULL + it * 0xD1B54A32D192ED03ULL + 88172645463325252ULL; rnd (); rnd ();
  memset (&in, 0, sizeof in); memset (&out, 0xa5, sizeof out);
  generate (&in);
  if (!n_requires (&in)) return -1;
  n_call (&in, &out);
  return n_ensures (&in, &out);
}
int main (int argc, char **argv) {
  if (argc > 1 && !strcmp (argv[1], "search")) { /* search seed seconds */
    u64 seed = strtoull (argv[2], 0, 10); double lim = atof (argv[3]);
    u64 *sh = mmap (0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork ();
    if (p == 0) {
      time_t t0 = time (0);
      for (u64 i = 0;; i++) {
        sh[0] = i;
        if ((i & 255) == 0 && time (0) - t0 > lim) _exit (0);
        int r = one (seed, i);
        if (r >= 0) sh[1]++;
        if (r == 0) { fflush (stdout); _exit (3); }
      }
    }
    int st; waitpid (p, &st, 0);
    printf ("TRIED %llu SATISFYING %llu\\n", (unsigned long long) sh[0], (unsigned long long) sh[1]);
    if (WIFEXITED (st) && (WEXITSTATUS (st) == 0 || WEXITSTATUS (st) == 77)) return 0;
    if (!WIFEXITED (st) || WEXITSTATUS (st) != 3) printf ("FAILS crash/abort/sanitizer\\n");
    printf ("FOUND %llu %llu\\n", (unsigned long long) seed, (unsigned long long) sh[0]);
    return 3;
  }
  if (argc > 1 && !strcmp (argv[1], "one")) {
    u64 seed = strtoull (argv[2], 0, 10), it = strtoull (argv[3], 0, 10);
    rs = seed * 0x9E3779B97F4A7C15ULL + it * 0xD1B54A32D192ED03ULL + 88172645463325252ULL; rnd (); rnd ();
    memset (&in, 0, sizeof in); memset (&out, 0xa5, sizeof out);
    generate (&in);
  }
#ifdef V_REPLAY
  else {
    memset (&in, 0, sizeof in); memset (&out, 0xa5, sizeof out);
#include "replay_init.inc"
  }
#endif
  show_in (&in); fflush (stdout);
  if (!n_requires (&in)) { printf ("PRECONDITION DOES NOT HOLD\\n"); return 0; }
  n_call (&in, &out);
  show_out (&out);
  int r = n_ensures (&in, &out);
  printf (r ? "HOLDS\\n" : "VIOLATED\\n");
  return r ? 0 : 3;
}''')
    return "\n".join(L) + "\n"

class Native:
    def __init__(self, work):
        self.work = work
        self.dir = work.dir + "/native"
        os.makedirs(self.dir, exist_ok=True)
        self.objs = {}

    def group_objs(self, g):
        if g in self.objs:
            return self.objs[g]
        objs = []
        errs = []
        fl = [x for x in base_flags(False)]
        def comp(t):
            o = "%s/%s_%s.o" % (self.dir, hashlib.sha256(t.encode()).hexdigest()[:10], os.path.basename(t))
            cc = ["clang"] if t.endswith(".c") else ["clang++", "-std=c++20"]
            rc, so, e = sh(cc + [*SAN, "-c", *fl, t, "-o", o])
            if rc:
                errs.append(e[-500:])
            return o
        tus = [t for t in self.work.tus(g) if not t.startswith(VERIF)] + [VERIF + "/vlib/native_shim.c"]
        objs = pmap(comp, tus)
        if not errs:
            # one bridge object for all contracts of the group
            src = "%s/bridge_%s.cxx" % (self.work.dir, g)
            o = "%s/bridge_%s.o" % (self.dir, g)
            rc, so, e = sh(["clang++", "-std=c++20", *SAN, "-DV_NATIVE", "-c", *fl, "-I" + VERIF + "/vlib", "-I" + VERIF + "/spec", "-I" + self.work.dir, src, "-o", o])
            if rc:
                errs.append(e[-800:])
            objs.append(o)
        if errs:
            raise ExtractionError("native build: " + " | ".join(errs)[:1500])
        self.objs[g] = objs
        return objs

    def build(self, c, init=None):
        d = "%s/%s_%d" % (self.dir, c.cid, time.time_ns())
        os.makedirs(d)
        src = d + "/driver.c"
        open(src, "w").write(driver_src(c, self.work))
        open(d + "/replay_init.inc", "w").write(init or "")
        exe = d + "/driver"
        rc, o, e = sh(["clang", *SAN, "-w", *(["-DV_REPLAY"] if init is not None else []), *["-D" + x for x in c.defines], "-I" + d, "-I" + VERIF + "/spec", "-I" + self.work.dir,
                       "-c", src, "-o", exe + ".o"])
        if rc:
            raise ExtractionError("driver: " + e[-1500:])
        objs = self.group_objs(c.group) if c.call is not None else []
        def link(extra=()):
            return sh(["clang++", *SAN, exe + ".o", *objs, *extra, "-o", exe, "-Wl,--no-demangle", "-lp4est", "-lsc", "-lmpi", "-lm", "-lz"])
        rc, o, e = link()
        if rc:
            # functions of parts of t8code that are not linked in: a call to one ends the replay without a verdict
            und = sorted(set(re.findall(r"undefined reference to `([^']+)'", e)) | set(re.findall(r"undefined symbol: (\S+)", e)))
            st = [".text"]
            for u in und:
                st += [".globl " + u, u + ":", "jmp v_missing"]
            open(d + "/stubs.s", "w").write("\n".join(st) + "\n")
            open(d + "/missing.c", "w").write("#include <unistd.h>\nvoid v_missing (void) { _exit (77); }\n")
            rc, o, e = sh(["clang", "-c", d + "/stubs.s", "-o", d + "/stubs.o"])
            rc, o, e = sh(["clang", "-c", d + "/missing.c", "-o", d + "/missing.o"])
            rc, o, e = link([d + "/stubs.o", d + "/missing.o"])
        if rc:
            raise ExtractionError("native link: " + e[-1500:])
        return exe

    ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")

    def replay(self, c, values):
        init = "\n".join("  in.%s = %s;" % kv for kv in values.items())
        exe = self.build(c, init)
        rc, o, e = sh([exe], timeout=60, env=self.ENV, cwd=self.dir)
        bad = rc not in (0, 77, 127) and "IN " in o + "IN " * (not c.ins) and "error while loading" not in e
        return bad, (o + "\n" + e)

    def search(self, c, seed, secs):
        exe = self.build(c)
        rc, o, e = sh([exe, "search", str(seed), str(secs)], timeout=secs + 60, env=self.ENV, cwd=self.dir)
        if rc == 0:
            return None, o
        m = re.search(r"FOUND (\d+) (\d+)", o)
        if not m:
            return None, o + e
        rc1, o1, e1 = sh([exe, "one", m.group(1), m.group(2)], timeout=60, env=self.ENV, cwd=self.dir)
        if rc1 in (0, 77, 127):
            return None, o + o1
        return dict(re.findall(r"IN (\S+) = (\S+)", o1)), o + o1 + e1[-3000:]

def trace_values(c, t):
    """input values of CBMC's counterexample for task t's first relevant failed obligation"""
    rel = [p for p in t.failed if core.classify(p) in ("post", "abort", "safety", "assigns")]
    out = []
    for p in rel[:2]:
        rc, o, e = sh(["cbmc", "--json-ui", "--trace", "--property", p["property"], *t.args, t.gb2], timeout=300, mem_gb=12)
        try:
            msgs = json.loads(o)
        except ValueError:
            continue
        for m in msgs:
            for r in m.get("result", []):
                if r.get("status") == "FAILURE" and "trace" in r:
                    vals = {}
                    def put(path, v):
                        if "members" in v:
                            for mm in v["members"]:
                                put(path + "." + mm["name"], mm["value"])
                        elif "elements" in v:
                            for mm in v["elements"]:
                                put("%s[%d]" % (path, mm["index"]), mm["value"])
                        elif "data" in v:
                            x = v["data"]
                            x = re.sub(r"^\((.*?)\)", "", str(x))
                            x = {"TRUE": "1", "FALSE": "0"}.get(x.upper(), x)
                            vals[path] = x
                    for s in r["trace"]:
                        if s.get("stepType") == "assignment" and re.match(r"V_IN\b", s.get("lhs", "")) and "value" in s:
                            lhs = re.sub(r"\[(\d+)[lu]*\]", r"[\1]", s["lhs"])
                            put(lhs, s["value"])
                    ok = {}
                    names = {ln for ty, n in c.ins for _, ln in leaves(ty, n)}
                    for k, v in vals.items():
                        k2 = k[5:] if k.startswith("V_IN.") else k
                        if k2 in names:
                            ok[k2] = v
                    out.append((p, ok))
    return out
