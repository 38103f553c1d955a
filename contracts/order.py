"""Contracts of comparison, successors, descendants, common ancestors, families, packing."""
from vlib.core import contract, CONTRACTS
from contracts.schemes import SHAPES, QUICK

SN = {"svertex": 0, "sline": 1, "squad": 2, "shex": 4}
PYRA_LID = ["t8_dpyramid_linear_id", "t8_dpyramid_init_linear_id"]
def FAM(s):
    """native search: families, families with one member replaced, families shifted by one element"""
    sh = {"point": "", "cube": "for (int a = 0; a < %d; a++) @_st (&A.e[i], a, @_co (A.e[i], a) + (d >> a & 1) * h);" % s.D,
          "simplex": "for (int a = 0; a < %d; a++) @_st (&A.e[i], a, @_co (A.e[i], a) + (d >> a & 1) * h);" % s.D,
          "prism": "A.e[i].tri.x += (d & 1) * h; A.e[i].tri.y += (d >> 1 & 1) * h; A.e[i].line.x += (d >> 2) * 2 * h;",
          "pyramid": "A.e[i].x += (d & 1) * h; A.e[i].y += (d >> 1 & 1) * h; A.e[i].z += (d >> 2) * h;"}[s.kind]
    ln = "" if s.kind == "point" else "int h = %s;" % ("tri_len (A.e[0].tri.level)" if s.kind == "prism" else "@_len (A.e[0].level)")
    return s.f("if (rnd () % 8 && @_valid (A.e[0]) && @_level (A.e[0]) > 0) { int i; if (rnd () % 2) A.e[0] = @_child (@_parent (A.e[0]), 0); for (i = 1; i < %N; i++) "
            "if (i < @_nchild (@_parent (A.e[0]))) A.e[i] = @_child (@_parent (A.e[0]), i); else A.e[i] = A.e[0];"
            "if (rnd () % 2) { i = rnd () % %N; int c = rnd () % 4; A.e[i] = c == 0 ? @_parent (A.e[i]) : c == 1 && @_level (A.e[i]) < %ML ? @_child (A.e[i], 0) : c == 2 ? A.e[rnd () % %N] : @_child (@_parent (A.e[i]), (int) (rnd () % (u64) @_nchild (@_parent (A.e[i]))));" + ("" if s.kind == "point" or s.kind == "cube" else
            " if (rnd () % 2) A.e[i]." + ("tri." if s.kind == "prism" else "") + "type = rnd () % " + {"tri": "2", "prism": "2", "tet": "6", "pyra": "8"}[s.p] + ";") +
            "} if (rnd () % 2) {" + ln + " int d = rnd () % 8; for (i = 0; i < %N; i++) { " + sh + " } }" + ("if (rnd () % 2 && A.e[0].line.level > 2) { int i = 1 + rnd () % 3; if (A.e[i].line.level > 2) A.e[i].line.x ^= line_len (A.e[i].line.level) * 2; if (A.e[i].line.level > 2) A.e[i + 4].line.x ^= line_len (A.e[i].line.level) * 2; }" if s.kind == "prism" else "") + " }")

for s in SHAPES.values():
    p, V, f, ML = s.p, s.V, s.f, s.ML
    valid, LV = f("@_valid (A.e)"), f("@_level (A.e)")
    uw = 24 if p in ("tet", "pyra", "shex") else 258 if s.kind == "point" else 34
    ql = s.qlevels()
    k = "A.%s.line.level" if s.kind == "prism" else "A.%s.level"
    def qp(cond, s=s, k=k):
        return lambda d: cond(d.get(k % "e"), d.get(k % "g"))
    def C(name, **kw):
        kw.setdefault("unwind", uw)
        return contract(id=p + "." + name, **kw)
    e1 = [(V, "e")]
    e2 = [(V, "e"), (V, "g")]
    v2 = [valid, f("@_valid (A.g)")]
    near = f("if (rnd () % 3 == 0 && @_valid (A.e)) { A.g = @_anc (A.e, (int) (rnd () % (u64) (@_level (A.e) + 1))); "
             "while (@_level (A.g) < %ML && rnd () % 3) A.g = @_child (A.g, (int) (rnd () % (u64) @_nchild (A.g))); }")
    # ---- comparison
    sub = s.pairs(b="g", b_is_elem=True) if s.kind != "point" else None
    k = "A.%s.line.level" if s.kind == "prism" else "A.%s.level"
    def qp(cond, s=s, k=k):
        return lambda d: cond(d.get(k % "e"), d.get(k % "g"))
    SMEM = lambda m: "_ZN20t8_standalone_schemeIL9t8_eclass%dEE%s" % (SN.get(p, 9), m)
    lid = {"tri": ["t8_dtri_linear_id"], "tet": ["t8_dtet_linear_id"], "prism": ["t8_dprism_linear_id"], "pyra": PYRA_LID[:1]}.get(p,
           [SMEM("21element_get_linear_idEPK10t8_elementh")] if not s.std else None)
    full = dict(split=sub, quick=qp(lambda x, y, ql=ql, s=s: x in (1, 2, 3) and y in (x, x - 1, x + 1, 4)), use=PYRA_LID[:1] if p == "pyra" else ())
    C("compare", ins=e2, outs=[("int", "r"), ("int", "t")], requires=[x.replace("_valid", "_gvalid") for x in v2], gen=near,
      call=f("In<%V> e (A.e, O.frame); In<%V> g (A.g, O.frame); O.r = S<%V> ().element_compare (e, g); O.t = S<%V> ().element_compare (g, e);"),
      ensures=[("sign", f("(O.r > 0) - (O.r < 0) == @_cmp (A.e, A.g)")), ("antisymmetry", "(O.r > 0) - (O.r < 0) == (O.t < 0) - (O.t > 0)")],
      **(dict(use=lid, uf=True, alt=full) if lid else full))
    if s.kind != "point":
        C("lemma.cmp_order", ins=e2, requires=v2 + [f("@_level (A.e) <= @_level (A.g)")], gen=near, thorough_only=True,
          ensures=[("zero only for equal elements", f("@_cmp (A.e, A.g) != 0 || @_eq (A.e, A.g)")),
                   ("an ancestor precedes its descendants", f("!@_isanc (A.e, A.g) || @_eq (A.e, A.g) || @_cmp (A.e, A.g) < 0")),
                   ], split=[d for d in sub if d[k % "e"] <= d[k % "g"]])
    # ---- successor
    lev1 = s.levsplit(lo=1)
    if s.kind != "point":
        full = dict(deep=lambda d, k=k: d[k % "e"] + 2, split=lev1, quick=lambda d, s=s, k=k: d[k % "e"] in (s.qlevels() if s.kind == "cube" else (1, 2, 3, 4)))
        su = p in ("tri", "tet", "prism")
        tyx = ["compute_type_ext=v_use_%s_compute_type_ext" % ("tet" if p == "tet" else "tri")]
        C("successor", ins=e1, outs=[(V, "s")], requires=[f("@_gvalid (A.e)"), LV + " > 0"] + ([f("@_tyax (A.e)"), f("!@_endu (A.e)")] if su else [f("!@_end (A.e)")]),
          call=f("In<%V> e (A.e, O.frame); Out<%V> s (O.s); S<%V> ().element_construct_successor (e, s);"),
          ensures=[("next element of the same level", f("@_eq (O.s, @_succ%s (A.e))" % ("u" if su else "")))], **(dict(use=tyx, uf=True, alt=full, split=lev1, deep=full["deep"], quick=lambda d, s=s, k=k: d[k % "e"] in ((1, 2, 3, 4, 6) if s.kind == "prism" else (1, 2, 3, 4, 7, s.ML // 2, s.ML))) if su else full))
        C("lemma.successor", ins=e1, requires=[valid, LV + " > 0", f("!@_end (A.e)")], thorough_only=True,
          ensures=[("valid", f("@_valid (@_succ (A.e))")), ("same level", f("@_level (@_succ (A.e)) == @_level (A.e)")),
                   ("index grows by one", f("@_lid (@_succ (A.e), @_level (A.e)) == @_lid (A.e, @_level (A.e)) + 1"))], split=lev1)
    # ---- first and last descendants
    for last, nm in ((0, "first"), (1, "last")):
        full = dict(use=PYRA_LID if p == "pyra" else (), split=s.pairs(cond=lambda x, y: x <= y) if s.kind in ("simplex", "prism", "pyramid") or not s.std and s.D else None,
                    quick=s.qpair(lambda x, y, s=s: x in s.qlevels() and y in (x, x + 1, s.ML)))
        us = {"tri": ["t8_dtri_linear_id", "t8_dtri_init_linear_id"], "tet": ["t8_dtet_linear_id", "t8_dtet_init_linear_id"], "prism": ["t8_dtri_linear_id", "t8_dtri_init_linear_id"], "pyra": PYRA_LID}.get(p)
        C(nm + "_descendant", ins=e1 + [("int", "l")], outs=[(V, "d")],
          requires=[f("@_gvalid (A.e)"), f("A.l >= @_level (A.e) && A.l <= %ML")],
          call=f("In<%%V> e (A.e, O.frame); Out<%%V> d (O.d); S<%%V> ().element_get_%s_descendant (e, d, A.l);" % nm),
          ensures=[(nm + " descendant", f("@_eq (O.d, @_descu (A.e, A.l, %d))" % last))],
          **(dict(use=us, uf=True, alt=full, split=s.lsplit() if p == "pyra" else None) if us else full))
    C("lemma.descendants", ins=e1 + [("int", "l")], requires=[valid, f("A.l >= @_level (A.e) && A.l <= %ML")], thorough_only=True,
      ensures=[("by index", f("@_eq (@_desc (A.e, A.l, 0), @_descu (A.e, A.l, 0)) && @_eq (@_desc (A.e, A.l, 1), @_descu (A.e, A.l, 1))")),
               ("descendants are valid", f("@_valid (@_desc (A.e, A.l, 0)) && @_valid (@_desc (A.e, A.l, 1))")),
               ("the element is their ancestor", f("@_isanc (A.e, @_desc (A.e, A.l, 0)) && @_isanc (A.e, @_desc (A.e, A.l, 1))")),
               ("index of the first", f("@_lid (@_desc (A.e, A.l, 0), A.l) == @_lid (A.e, A.l)")),
               ("index of the last", f("@_lid (@_desc (A.e, A.l, 1), A.l) + 1 == @_lid (A.e, A.l) + @_count (A.e, A.l)"))],
      split=s.pairs(cond=lambda x, y: x <= y))
    # ---- nearest common ancestor
    ANC = f("@_ancu") if s.kind == "simplex" else f("@_anc")
    full = dict(split=s.pairs(b="g", b_is_elem=True) if s.kind in ("simplex", "prism", "pyramid") else None,
                quick=qp(lambda x, y, s=s, p=p: p != "pyra" and (x, y) in ((0, 0), (0, 3), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (4, 4), (3, 5)) + (((6, 6),) if s.kind != "pyramid" and p != "tet" else ())), deep=(lambda d: 5) if p == "pyra" else None, inner=(lambda d, k=k: min(d[k % "e"], d[k % "g"]) + 2) if s.kind in ("simplex", "prism", "pyramid") else None)
    C("nca", ins=e2, outs=[(V, "n")], requires=[x.replace("_valid", "_gvalid") for x in v2] + ([f("@_tyax (A.e) && @_tyax (A.g)")] if s.kind == "simplex" else []), gen=near,
      call=f("In<%V> e (A.e, O.frame); In<%V> g (A.g, O.frame); Out<%V> n (O.n); S<%V> ().element_get_nca (e, g, n);"),
      ensures=[("level", f("@_level (O.n) >= 0 && @_level (O.n) <= @_level (A.e) && @_level (O.n) <= @_level (A.g)")),
               ("ancestor of the first element", f("@_level (O.n) < 0 || @_eq (O.n, %s (A.e, @_level (O.n)))" % ANC)), ("ancestor of the second element", f("@_level (O.n) < 0 || @_eq (O.n, %s (A.g, @_level (O.n)))" % ANC)),
               ("no common ancestor is finer", f("@_level (O.n) < 0 || @_level (O.n) >= @_level (A.e) || @_level (O.n) >= @_level (A.g) || !@_eq (%s (A.e, @_level (O.n) + 1), %s (A.g, @_level (O.n) + 1))" % (ANC, ANC)))],
      **full)
    if s.kind == "simplex":
        C("ancestor", ins=e1 + [("int", "l")], outs=[(V, "a")], requires=[valid.replace("_valid", "_gvalid"), f("A.l >= 0 && A.l <= @_level (A.e)")],
          call=f("In<%%V> e (A.e, O.frame); Out<%%V> a (O.a); t8_d%s_ancestor (&e.r, A.l, &a.r);" % p),
          ensures=[("ancestor at the level", f("@_eq (O.a, @_anc (A.e, A.l))"))], split=s.pairs(cond=lambda x, y: y <= x),
          quick=s.qpair(lambda x, y, s=s: x in (0, 1, 2, 3, 5, 8, s.ML) and y in (0, 1, 2, x // 2, x - 1, x)))
    if s.kind == "simplex":
        C("lemma.geometric", ins=e1, requires=[f("@_aligned (A.e)")], thorough_only=True, split=s.levsplit(),
          ensures=[("valid exactly if geometrically inside the root", f("@_valid (A.e) == @_gvalid (A.e)"))])
        C("lemma.geometric_ancestor", ins=e2, requires=v2, thorough_only=True, split=s.pairs(b="g", b_is_elem=True, cond=lambda x, y: x <= y), gen=near,
          ensures=[("ancestors are exactly the elements that contain the descendant", f("@_isanc (A.e, A.g) == @_ganc (A.e, A.g)"))])
    C("is_ancestor", ins=e2, outs=[("int", "r")], requires=[x.replace("_valid", "_gvalid") for x in v2], gen=near,
      call=f("In<%V> e (A.e, O.frame); In<%V> g (A.g, O.frame); O.r = S<%V> ().element_is_ancestor (e, g);"),
      use=() if s.std else ["_ZNK20t8_standalone_schemeIL9t8_eclass%dEE%sEiPP10t8_element" % (SN[p], m) for m in ("11element_new", "15element_destroy")],
      ensures=[("is ancestor", f("(O.r != 0) == @_ganc (A.e, A.g)"))], split=s.pairs(b="g", b_is_elem=True) if s.kind in ("simplex", "prism", "pyramid") else None,
      quick=qp(lambda x, y, s=s, p=p: (x, y) in (((0, 0), (0, 3), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (2, 4), (1, 6)) + (() if p == "pyra" else ((3, 5), (4, 4), (2, 8)) if p == "tet" else ((3, 5), (4, 4), (2, s.ML), (s.ML // 2, s.ML // 2 + 2), (s.ML, s.ML))))))
    # ---- families
    n = s.nch
    C("family", ins=[(V + "[%d]" % n, "e")], outs=[("int", "r")],
      call=f("InArr<%V, %N> e (A.e, O.frame); O.r = S<%V> ().elements_are_family (e);"),
      requires=[f("@_valid (A.e[0])")] + [f("@_weak (A.e[%d])" % i) for i in range(1, n)],
      ensures=[("family", f("(O.r != 0) == @_family ((%V *) A.e)"))],
      use=() if s.std else ["_ZN20t8_standalone_schemeIL9t8_eclass%dEE15element_compareEPK10t8_elementS4_" % SN[p]],
      split=s.levsplit("e[0]") if s.kind == "pyramid" else None, quick=lambda d, s=s, k=k: d[k % "e[0]"] in s.qlevels(),
      gen=FAM (s))
contract(id="pyra.lemma.sw_unique", ins=[("V_pyra", "e"), ("V_pyra", "g")], requires=["pyra_valid (A.e) && pyra_valid (A.g) && pyra_eqx (A.e, A.g)"], unwind=24,
         ensures=[("switch level is determined", "A.e.sw == A.g.sw")], split=SHAPES["pyra"].levsplit(), thorough_only=True, gen="A.g = A.e; A.g.sw = rnd () % 22;")
