#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   -- exit 0: holds; 1: VIOLATION; other: no answer."""
import argparse, copy, json, os, re, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, native
from vlib.props import PROPS, load_contracts

def known_findings(prop):
    r = []
    for l in open(core.VERIF + "/known_findings.txt"):
        m = re.match(r"known: property=(\S+) contract=(\S+) when=\{(.*?)\} (.*)", l)
        if m and m.group(1) == prop:
            r.append(m.groups()[1:])
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    os.environ["V_TIER"] = a.tier
    P = PROPS[a.property]
    load_contracts(a.tier)
    import fnmatch
    cs = P.select(core.CONTRACTS)
    if a.only:
        cs = [c for c in cs if fnmatch.fnmatch(c.id, a.only)]
    assert cs, "no contracts"
    for cid, cond, what in known_findings(a.property):
        for c in cs:
            if c.id == cid:
                c.requires.append("!(%s)" % cond)
                print("KNOWN-FINDING: property=%s %s: %s" % (a.property, cid, what), flush=True)
    quick = a.tier != "thorough"
    limit = 840 if quick else 4 * 3600
    deadline = t0 + (560 if quick else 3 * 3600)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = core.Work(cs, debug=P.debug)
    rc = 2
    try:
        rc = run(a, P, cs, work, t0, deadline, limit, seed, quick)
    except core.ExtractionError as e:
        print("NO ANSWER: the code could not be brought to the verifier: %s" % e)
        evidence(a, P, cs, [], work, t0, seed, [], "extraction failed: %s" % e)
    finally:
        if not a.keep:
            work.cleanup()
    sys.exit(rc)

def run(a, P, cs, work, t0, deadline, limit, seed, quick):
    work.prepare()
    tasks = []
    undec = []
    lines = {}
    def b(c):
        try:
            return c, work.build_contract(c), None
        except core.ExtractionError as e:
            return c, None, str(e)
    for c, r, err in core.pmap(b, cs):
        if err:
            t = core.Task(c, 0, "", {})
            t.status, t.msg = "undecided", err
            undec.append(t)
            continue
        tasks += work.tasks(c, r[1], quick)
    tasks.sort(key=lambda t: -t.c.heavy)
    stop = threading.Event()
    done = []
    lock = threading.Lock()
    def real_fail(t):
        return t.status == "failed" and any(core.classify(p) in ("post", "abort", "safety", "assigns") for p in t.failed)
    def go(t):
        if stop.is_set():
            return
        if time.time() > deadline:
            t.status, t.msg = "undecided", "time limit of the run"
        else:
            core.run_task(t, work, deadline)
        if t.status != "proved":
            print("  %s: %s %s %s" % (t.name, t.status, t.msg[:300], [describe(t, p) for p in t.failed[:3]]), flush=True)
        if real_fail(t):
            stop.set()
    nat = native.Native(work)
    replays = []
    tried = set()
    while True:
        todo = [t for t in tasks if t.status is None]
        core.pmap(go, todo)
        fails = [t for t in tasks if real_fail(t) and t.c.id not in tried]
        viol = None
        for t in fails:
            if t.c.id in tried:
                continue
            tried.add(t.c.id)
            if time.time() > t0 + limit - 60:
                break
            viol = reproduce(a, P, t, nat, seed, work)
            if viol:
                break
        if viol:
            return finish_violation(a, P, cs, tasks + undec, work, t0, seed, viol)
        # a failure that only the abstraction of the callees explains: decide the contract again with the callees' code
        for c in {t.c.id: t.c for t in tasks if real_fail(t)}.values():
            if c.alt is None:
                continue
            c2 = copy.copy(c)
            c2.__dict__.update(dict(use=(), uf=False, split=None, quick=None, deep=None, inner=None, loop_limits={}))
            c2.__dict__.update(c.alt)
            c2.alt = None
            c2.replaced_by_code = True
            cs[cs.index(c)] = c2
            tasks = [t for t in tasks if t.c is not c]
            r = work.build_contract(c2)
            tried.discard(c.id)
            tasks += work.tasks(c2, r[1], quick)
            print("  %s: not reproduced on the real code; deciding it again without contracts for the callees" % c.id, flush=True)
        stop.clear()
        if not [t for t in tasks if t.status is None]:
            break
    allt = tasks + undec
    fails = [t for t in allt if real_fail(t)]
    if fails:
        t = fails[0]
        return finish_violation(a, P, cs, allt, work, t0, seed,
                                dict(task=t, values=None, output=getattr(t, "search_log", ""), props=[describe(t, p) for p in t.failed]))
    und = [t for t in allt if t.status != "proved"]
    bounded = []
    # contracts of which only part of the case split was proved: a native search over all cases, labelled bounded
    part = [c for c in cs if c.call is not None and getattr(c, "partial", False) and c.id not in {t.c.id for t in und}]
    if part:
        try:
            for g in {c.group for c in part}:
                nat.group_objs(g)
        except core.ExtractionError as e:
            part = []
            bounded.append("no complementary search (%s)" % str(e)[:200])
    secs = max(1, min(6, 120 / max(1, len(part))))
    def comp(c):
        try:
            return c, nat.search(c, seed, secs)
        except core.ExtractionError as e:
            return c, (None, "no search: " + str(e)[:200])
    for c, (vals, log) in core.pmap(comp, part):
        if vals is not None:
            t = core.Task(c, 0, "", {})
            return finish_violation(a, P, cs, allt, work, t0, seed, dict(task=t, values=vals, output=log, props=["native search on the real code"]))
        bounded.append("%s: cases not in the quick tier: native search: %s" % (c.id, log.strip().splitlines()[-1] if log.strip() else ""))
    if und:
        # a bounded stand-in on the real code: native search for a failing input, labelled bounded
        seen = set()
        left = max(5, (t0 + limit - 30 - time.time()))
        ids = {t.c.id for t in und}
        for t in und:
            if t.c.id in seen:
                continue
            seen.add(t.c.id)
            secs = max(2, min(20, left / max(1, len(ids)) / 2))
            try:
                vals, log = nat.search(t.c, seed, secs)
            except core.ExtractionError as e:
                bounded.append("%s: no stand-in (%s)" % (t.c.id, str(e)[:200]))
                continue
            if vals is not None:
                return finish_violation(a, P, cs, allt, work, t0, seed, dict(task=t, values=vals, output=log, props=["native search on the real code"]))
            bounded.append("%s: bounded stand-in: %s" % (t.c.id, log.strip().splitlines()[-1] if log.strip() else ""))
    evidence(a, P, cs, allt, work, t0, seed, [], None, bounded)
    n = sum(t.n for t in allt)
    print("%s: %d contracts, %d cases proved of %d, %d obligations discharged, %.0f s%s" % (
        P.id, len(cs), sum(t.status == "proved" for t in allt), len(allt), sum(t.n for t in allt if t.status == "proved"), time.time() - t0,
        "" if not und else "; UNDECIDED (bounded stand-in only): " + ", ".join(sorted({t.name for t in und})[:20])))
    return 0

def describe(t, p):
    loc = p.get("sourceLocation", {})
    lab = ""
    if core.classify(p) == "post":
        try:
            lab = " <%s>" % t.lines[int(loc.get("line", 0))][0]
        except (KeyError, ValueError):
            pass
    return "%s: %s%s" % (p["property"], p.get("description", ""), lab)

def reproduce(a, P, t, nat, seed, work):
    c = t.c
    log = ""
    try:
        for p, vals in native.trace_values(c, t):
            bad, out = nat.replay(c, vals)
            log += out
            if bad:
                return dict(task=t, values=vals, output=out, props=[describe(t, p)])
        vals, out = nat.search(c, seed, 20)
        log += out
        if vals is not None:
            return dict(task=t, values=vals, output=out, props=[describe(t, p) for p in t.failed])
    except core.ExtractionError as e:
        log += str(e)
    t.search_log = log
    return None

def finish_violation(a, P, cs, tasks, work, t0, seed, v):
    t = v["task"]
    d = os.path.join(core.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % P.id)
    json.dump(dict(property=P.id, contract=t.c.id, case=t.label, requires=t.c.requires, ensures=[list(e) for e in t.c.ensures],
                   bridge=t.c.call, failed_obligations=v["props"], all_failed=[describe(t, p) for p in t.failed],
                   verifier="goto-instrument --dfcc harness --enforce-contract c_%s; cbmc" % t.c.cid,
                   input=v["values"], native_output=v["output"][-6000:]), open(path, "w"), indent=1)
    evidence(a, P, cs, tasks, work, t0, seed, [dict(contract=t.name, obligations=v["props"], input=v["values"], replay=path)], None)
    print("failed obligation: %s %s" % (t.name, v["props"]))
    if v["values"] is not None:
        print("failing input on the real code: %s" % v["values"])
    print("VIOLATION property=%s replay=%s%s" % (P.id, path, "" if v["values"] is not None else " no-failing-input-found"))
    return 1

def evidence(a, P, cs, tasks, work, t0, seed, violations, error, bounded=()):
    ob = sum(t.n for t in tasks)
    dis = sum(t.n - len(t.failed) for t in tasks if t.status in ("proved", "failed"))
    kinds = {}
    for t in tasks:
        for k, n in t.kinds.items():
            kinds[k] = kinds.get(k, 0) + n
    ext = sorted({e for c in cs for e in getattr(c, "externals", [])})
    fn = sorted(f for f in work.extracted if not f.startswith(("b_", "_ZN2InI", "_ZN3OutI", "_ZN5InOutI")))
    lemmas = sorted(c.id for c in cs if c.call is None)
    und = sorted({t.name + ": " + t.msg[:120] for t in tasks if t.status not in ("proved", "failed")})
    ev = dict(property=P.id, tier=a.tier, seed=seed, level=P.level,
              coverage=dict(obligations=ob, discharged=dis,
                            checker_cmd="goto-instrument --dfcc harness --enforce-contract c_<contract>; cbmc --unwinding-assertions (SAT back end: MiniSat)",
                            trusted_base=["clang 18 front end and opt (lowerinvoke, sroa, simplifycfg)", "tools/ll2c.cpp (LLVM IR to C)", "goto-cc, goto-instrument, cbmc 6.11",
                                          "spec/spec.h and spec/gen_tables.py (specification)", "vlib/bridge.hxx (conversion of views)",
                                          "models/ (assumed contracts of p4est and libsc functions written as bodies)"],
                            contracts=len(cs), lemmas_over_contracts=lemmas, contract_ids=sorted(c.id for c in cs if c.call is not None),
                            slowest=[[t.name, round(t.time, 1)] for t in sorted(tasks, key=lambda t: -t.time)[:12]],
                            time_by_contract={c.id: round(sum(t.time for t in tasks if t.c is c), 1) for c in cs if sum(t.time for t in tasks if t.c is c) > 5},
                            cases=len(tasks), cases_proved=sum(t.status == "proved" for t in tasks), obligation_kinds=kinds,
                            solver_time_s=round(sum(t.time for t in tasks), 1), functions_extracted=fn, n_functions_extracted=len(fn),
                            external_functions=ext, preconditions_shown_satisfiable=sum(t.vacuous is False for t in tasks),
                            case_splits_shown_complete=sum(t.cover is True for t in tasks), undecided=und, bounded=list(bounded),
                            bounded_contracts=sorted(c.id + (": " + c.bound if c.bound else "") for c in cs if c.level != "proof")),
              assumptions=P.assumptions, wall_s=round(time.time() - t0, 1), violations=violations)
    if error:
        ev["coverage"]["error"] = error
    os.makedirs(core.VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(core.VERIF + "/evidence/%s.json" % P.id, "w"), indent=1)

if __name__ == "__main__":
    main()
