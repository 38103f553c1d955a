"""Contracts of the face and geometry functions of the element schemes (specification: spec/geom.h)."""
from vlib.core import contract
from contracts.schemes import SHAPES, QUICK

G = ("spec.h", "geom.h")
BND = {"quad": [("line", "1")], "tri": [("line", "1")], "hex": [("quad", "1")], "tet": [("tri", "1")],
       "prism": [("quad", "A.f < 3"), ("tri", "A.f >= 3")], "pyra": [("quad", "A.f == 4"), ("tri", "A.f < 4")],
       "squad": [("sline", "1")], "shex": [("squad", "1")]}
NFC = {"line": 1, "quad": 2, "hex": 4, "tri": 2, "tet": 4, "prism": 4, "pyra": 4, "sline": 1, "squad": 2, "shex": 4}
ECL = {"vertex": 0, "line": 1, "quad": 2, "tri": 3, "hex": 4, "tet": 5, "prism": 6, "pyra": 7, "svertex": 0, "sline": 1, "squad": 2, "shex": 4}
for s in SHAPES.values():
    p, V, f, ML = s.p, s.V, s.f, s.ML
    if s.kind == "point":
        continue
    valid = f("@_gvalid (A.e)")
    fr = f("A.f >= 0 && A.f < @_nf (A.e)")
    e1 = [(V, "e"), ("int", "f")]
    n = NFC[p]
    uw = 34 if p != "shex" and p != "tet" and p != "pyra" else 24
    def C(name, **kw):
        kw.setdefault("unwind", uw)
        kw.setdefault("spec", G)
        return contract(id=p + "." + name, **kw)
    # ---- neighbours
    C("face_neighbor", ins=e1, outs=[(V, "n"), ("int", "nf"), ("int", "r")],
      call=f("In<%V> e (A.e, O.frame); Out<%V> n (O.n); O.r = S<%V> ().element_get_face_neighbor_inside (e, n, A.f, &O.nf);"),
      requires=[valid, fr],
      ensures=[("inside iff the face is not on the tree's boundary", f("(O.r != 0) == (@_rootface (A.e, A.f) < 0)")),
               ("neighbour is an element of the same level", f("O.r == 0 || (@_gvalid (O.n) && @_level (O.n) == @_level (A.e))")),
               ("neighbour is another element", f("O.r == 0 || !@_eq (O.n, A.e)")),
               ("face number of the neighbour", f("O.r == 0 || (O.nf >= 0 && O.nf < @_nf (O.n))")),
               ("neighbour shares exactly this face", f("O.r == 0 || (O.nf >= 0 && O.nf < @_nf (O.n) && @_share (A.e, A.f, O.n, O.nf))"))],
      inner=None if s.std else s.nch + 1, split=[{"A.f": k} for k in range(s.faces)] if not s.std else s.levsplit() if s.D == 3 else None, quick=None if not s.std else lambda d, s=s: d["A.e.line.level" if s.kind == "prism" else "A.e.level"] in ((0, 1, 2) if s.kind == "pyramid" else (0, 1, 2, 3, s.ML // 2, s.ML)))
    C("root_boundary", ins=e1, outs=[("int", "r")],
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_is_root_boundary (e, A.f);"),
      requires=[valid, fr], ensures=[f("(O.r != 0) == (@_rootface (A.e, A.f) >= 0)")],
      split=s.levsplit() if s.kind == "pyramid" else None, quick=s.qlf((0, 1, 2, 3, 21)) if s.kind == "pyramid" else None)
    C("tree_face", ins=e1, outs=[("int", "r")],
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_get_tree_face (e, A.f);"),
      requires=[valid, fr, f("@_rootface (A.e, A.f) >= 0")], ensures=[f("O.r == @_rootface (A.e, A.f)")],
      split=s.levsplit() if s.kind == "pyramid" else None, quick=s.qlf((0, 1, 2, 3)) if s.kind == "pyramid" else None)
    if s.kind in ("cube", "prism"):
        C("lemma.own_root_face", ins=e1, requires=[valid, fr], ensures=[("a face lies in the equally numbered root face or in none", f("@_rootface (A.e, A.f) < 0 || @_rootface (A.e, A.f) == A.f"))])
    # ---- children at a face
    fsp = dict(split=s.levface(hi=ML - 1), quick=s.qlf((0, 1, 2, ML - 1) if p != "pyra" else (0, 1, 2))) if s.D == 3 else dict(split=[{"A.f": k} for k in range(s.faces)])
    if s.D == 3: fsp["inner"] = s.nch + 1
    chl = [valid, fr, f("@_level (A.e) < %ML")]
    cu = {"line": ["t8_dline_child"], "tri": ["t8_dtri_child"], "tet": ["t8_dtet_child"], "prism": ["t8_dprism_child"], "pyra": ["t8_dpyramid_child", "t8_dtet_child"], "hex": ["_ZNK21t8_default_scheme_hex17element_get_childEPK10t8_elementiPS0_"],
          "quad": ["_ZNK22t8_default_scheme_quad17element_get_childEPK10t8_elementiPS0_"]}.get(p, ["_ZN20t8_standalone_schemeIL9t8_eclass%dEE17element_get_childEPK10t8_elementiPS2_" % ECL[p]])
    fch = dict(use=cu, uf=True, alt=fsp, split=[{"A.f": k} for k in range(s.faces)], inner=s.nch + 1) if s.D == 3 else fsp
    C("face_children", ins=e1, outs=[(V + "[%d]" % n, "c"), ("int[%d]" % n, "ci"), ("int", "n")],
      call=f("In<%%V> e (A.e, O.frame); OutArr<%%V, %d> c (O.c); O.n = S<%%V> ().element_get_num_face_children (e, A.f); S<%%V> ().element_get_children_at_face (e, A.f, c, O.n, O.ci);" % n),
      requires=chl, ensures=[("number of children at the face", f("O.n == @_nfch (A.e, A.f)"))]
      + [("child %d at the face" % i, f("O.n <= %d || @_eq (O.c[%d], @_childu (A.e, @_fch (A.e, A.f, %d)))" % (i, i, i))) for i in range(n)]
      + [("index of child %d at the face" % i, f("O.n <= %d || O.ci[%d] == @_fch (A.e, A.f, %d)" % (i, i, i))) for i in range(n)],
      **fch)
    C("face_children_inplace", ins=e1, outs=[(V + "[%d]" % n, "c"), ("int", "n")],
      call=f("OutArr<%%V, %d> c (O.c); Tr<%%V>::to (A.e, c.r[0]); O.n = S<%%V> ().element_get_num_face_children (c.p[0], A.f); S<%%V> ().element_get_children_at_face (c.p[0], A.f, c, O.n, nullptr);" % n),
      requires=chl, ensures=[("child %d at the face" % i, f("O.n <= %d || @_eq (O.c[%d], @_childu (A.e, @_fch (A.e, A.f, %d)))" % (i, i, i))) for i in range(n)],
      **fch)
    C("face_child_face", ins=e1 + [("int", "i")], outs=[("int", "r")],
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_face_get_child_face (e, A.f, A.i);"),
      requires=chl + [f("A.i >= 0 && A.i < @_nfch (A.e, A.f)")], ensures=[f("O.r == @_kidface (A.e, A.f, @_fch (A.e, A.f, A.i))")])
    C("face_parent_face", ins=e1, outs=[("int", "r")],
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_face_get_parent_face (e, A.f);"),
      requires=[valid, fr, f("@_level (A.e) > 0")], ensures=[f("O.r == @_pf (@_parent (A.e), @_cid (A.e), A.f)")])
    C("lemma.face_refinement", ins=e1 + [("int", "i")], requires=chl + [f("A.i >= 0 && A.i < @_nfch (A.e, A.f)")],
      ensures=[("the child's face has the face as parent face", f("@_pf (A.e, @_fch (A.e, A.f, A.i), @_kidface (A.e, A.f, @_fch (A.e, A.f, A.i))) == A.f")),
               ("a child face on the boundary of the tree iff the face is", f("(@_rootface (@_child (A.e, @_fch (A.e, A.f, A.i)), @_kidface (A.e, A.f, @_fch (A.e, A.f, A.i))) == @_rootface (A.e, A.f))"))],
      thorough_only=s.D == 3, **fsp)
    for last, nm in ((0, "first"), (1, "last")):
        # induction step: the descendant of e at its face equals that of the first/last child at the face (which has a face inside it)
        k = f("@_fch (A.e, A.f, %s)" % ("@_nfch (A.e, A.f) - 1" if last else "0"))
        if s.kind in ("simplex", "prism"):
            # these functions compute the index of the descendant: lemma.face_desc carries the induction
            full = dict(split=s.pairs(cond=lambda x, y: x <= y), quick=s.qpair(lambda x, y: x in (0, 1, 2, 3) and y in (x, x + 1, 4)))
            T = "tet" if p == "tet" else "tri"
            C(nm + "_desc_face", ins=e1 + [("int", "l")], outs=[(V, "d")],
              call=f("In<%%V> e (A.e, O.frame); Out<%%V> d (O.d); S<%%V> ().element_get_%s_descendant_face (e, A.f, d, A.l);" % nm),
              requires=[valid, fr, f("A.l >= @_level (A.e) && A.l <= %ML"), f("@_lidax (A.e, A.l)")],
              ensures=[("element with the index of the %s descendant at the face" % nm, f("@_eq (O.d, @_fdu (A.e, A.f, A.l, %d))" % last))],
              use=["t8_d%s_linear_id" % T, "t8_d%s_init_linear_id" % T], uf=True, alt=full, split=[{"A.f": k} for k in range(s.faces)])
            continue
        if s.kind == "pyramid":
            C(nm + "_desc_face", ins=e1 + [("int", "l")], outs=[(V, "d")],
              call=f("In<%%V> e (A.e, O.frame); Out<%%V> d (O.d); S<%%V> ().element_get_%s_descendant_face (e, A.f, d, A.l);" % nm),
              requires=[valid, fr, f("A.l >= @_level (A.e) && A.l <= %ML")],
              ensures=[("%s descendant at the face" % nm, f("@_eq (O.d, @_fdesc (A.e, A.f, A.l, %d))" % last))],
              use=["t8_dpyramid_first_descendant", "t8_dpyramid_last_descendant", "t8_dpyramid_child"], alt=dict(split=s.pairs(cond=lambda x, y: x <= y), quick=s.qpair(lambda x, y: x in (0, 1, 2) and y in (x, x + 1))),
              split=s.pairs(cond=lambda x, y: x <= y), quick=s.qpair(lambda x, y: x in (0, 1, 2, 3, 21) and y in (x, x + 1, x + 2)))
            continue
        C(nm + "_desc_face", ins=e1 + [("int", "l"), (V, "c"), ("int", "g")], outs=[(V, "d"), (V, "d2")],
          call=f(("In<%%V> e (A.e, O.frame); { Out<%%V> d (O.d); S<%%V> ().element_get_%s_descendant_face (e, A.f, d, A.l); }"
                  "if (A.l > S<%%V> ().element_get_level (e)) { In<%%V> c (A.c, O.frame); Out<%%V> d2 (O.d2); S<%%V> ().element_get_%s_descendant_face (c, A.g, d2, A.l); }") % (nm, nm)),
          requires=[valid, fr, f("A.l >= @_level (A.e) && A.l <= %ML"),
                    f("A.l == @_level (A.e) || (@_eq (A.c, @_child (A.e, %s)) && A.g == @_kidface (A.e, A.f, %s))" % (k, k))],
          ensures=[("same level: the element itself", f("A.l > @_level (A.e) || @_eq (O.d, A.e)")),
                   ("descends through the %s child at the face" % nm, f("A.l == @_level (A.e) || @_eq (O.d, O.d2)"))],
          gen=f("if (@_level (A.e) < %%ML && @_valid (A.e) && A.f >= 0 && A.f < @_nf (A.e)) { int k = %s; A.c = @_child (A.e, k); A.g = @_kidface (A.e, A.f, k); if (rnd () %% 4) A.l = @_level (A.e) + (int) (rnd () %% (u64) (%%ML + 1 - @_level (A.e))); }" % k),
          split=[{"A.f": k} for k in range(s.faces)])
    if s.kind in ("simplex", "prism"):
        pq = s.qpair(lambda x, y: x in (0, 1, 2, 3) and y in (x, x + 1, x + 2))
        C("lemma.face_desc", ins=e1 + [("int", "l")], requires=[valid, fr, f("A.l >= @_level (A.e) && A.l <= %ML")], split=s.pairs(cond=lambda x, y: x <= y), quick=pq,
          ensures=[("the element with this index is reached through the %s children at the face" % ("first", "last")[k], f("@_eq (@_fdu (A.e, A.f, A.l, %d), @_fdesc (A.e, A.f, A.l, %d))" % (k, k))) for k in (0, 1)])
    if s.kind == "simplex":
        C("lemma.lid_shift", ins=e1 + [("int", "l")], requires=[valid, f("A.l >= @_level (A.e) && A.l <= %ML")], split=s.pairs(cond=lambda x, y: x <= y), quick=s.qpair(lambda x, y, s=s: x in s.qlevels() and y in (x, x + 1, s.ML)),
          ensures=[("index of the first descendant", f("@_lidax (A.e, A.l)"))])
    # ---- boundary and extrusion
    for B, cond in BND.get(p, []):
        bf = f("@_%s_bound" % B)
        bfaces = [k for k in range(s.faces) if eval(cond.replace("A.f", str(k)))]
        C("boundary_" + B, ins=e1, outs=[("V_" + B, "b")],
          call=f("In<%%V> e (A.e, O.frame); Out<V_%s> b (O.b); S<%%V> ().element_get_boundary_face (e, A.f, b, nullptr);" % B),
          requires=[valid, fr, cond, f("@_onface (A.e, A.f, A.f)" if s.kind in ("cube", "prism") else "@_rootface (A.e, A.f) >= 0")],  # lemma.own_root_face
          ensures=[("face element is valid", "%s_gvalid (O.b)" % B), ("face element is this face", "%s (A.e, A.f, %s, O.b)" % (bf, "A.f" if s.kind in ("cube", "prism") else f("@_rootface (A.e, A.f)")))],
          split=s.levface(faces=bfaces) if s.kind == "pyramid" else [{"A.f": k} for k in bfaces], quick=s.qlf((0, 2) if B == "tri" else (2,)) if s.kind == "pyramid" else None)
        C("extrude_" + B, ins=[("V_" + B, "b"), ("int", "f")], outs=[(V, "e"), ("int", "r")],
          call=f("In<V_%s> b (A.b, O.frame); Out<%%V> e (O.e); O.r = S<%%V> ().element_extrude_face (b, e, A.f, nullptr);" % B),
          requires=["%s_gvalid (A.b) && %s_level (A.b) <= %d" % (B, B, ML), "A.f >= 0 && A.f < %d" % s.faces, cond],
          ensures=[("element is valid", f("@_gvalid (O.e)")), ("face number", f("O.r >= 0 && O.r < @_nf (O.e)")),
                   ("this face of the element is the face element", f("O.r >= 0 && O.r < @_nf (O.e) && @_%s_bound (O.e, O.r, A.f, A.b)" % B))],
          split=[{"A.f": k, "A.b.level": l} for k in bfaces for l in range(ML + 1)] if s.kind == "pyramid" and B == "tri" else [{"A.f": k} for k in bfaces],
          quick=(lambda d: d["A.b.level"] in (1, 3)) if s.kind == "pyramid" and B == "tri" else None)
    if s.D == 1:
        B = "vertex" if s.std else "svertex"
        C("boundary_" + B, ins=e1, outs=[("V_" + B, "b")],
          call=f("In<%%V> e (A.e, O.frame); Out<V_%s> b (O.b); S<%%V> ().element_get_boundary_face (e, A.f, b, nullptr);" % B),
          requires=[valid, fr], ensures=[("level", "O.b.level == A.e.level")])
        C("extrude_" + B, ins=[("V_" + B, "b"), ("int", "f")], outs=[(V, "e"), ("int", "r")],
          call=f("In<V_%s> b (A.b, O.frame); Out<%%V> e (O.e); O.r = S<%%V> ().element_extrude_face (b, e, A.f, nullptr);" % B),
          requires=["A.b.level >= 0 && A.b.level <= %d" % ML, "A.f >= 0 && A.f < 2"],
          ensures=[("element is valid", f("@_gvalid (O.e)")), ("level", "O.e.level == A.b.level"), ("face", f("O.r == A.f && @_rootface (O.e, O.r) == A.f"))])
    # ---- transformation of face elements
    if p in ("line", "quad", "tri"):
        no = {"line": 2, "quad": 4, "tri": 3}[p]
        tr = [(V, "e"), ("int", "o"), ("int", "s"), ("int", "small")]
        rq = [valid, "A.o >= 0 && A.o < %d && A.s >= 0 && A.s < 2 && A.small >= 0 && A.small < 2" % no]
        en = [("valid", f("@_gvalid (O.g)")), ("image under the symmetry", f("@_image (A.e, O.g, A.o, A.s, !A.small)"))]
        tsp = dict(split=s.levsplit(), quick=s.qlf((0, 1, 2, 3, 4, 8, 14, 20, 28))) if p == "tri" else {}
        C("transform_face", ins=tr, outs=[(V, "g")], requires=rq, ensures=en, **tsp,
          call=f("In<%V> e (A.e, O.frame); Out<%V> g (O.g); S<%V> ().element_transform_face (e, g, A.o, A.s, A.small);"))
        C("transform_face_inplace", ins=tr, outs=[(V, "g")], requires=rq, ensures=en, **tsp,
          call=f("InOut<%V> g (A.e, O.g); S<%V> ().element_transform_face (g, g, A.o, A.s, A.small);"))
        C("transform_roundtrip", split=tsp.get("split"), ins=tr, outs=[(V, "g"), (V, "h")], requires=rq, ensures=[("transforming back from the other side gives the element", f("@_eq (O.h, A.e)"))],
          call=f("In<%V> e (A.e, O.frame); { Out<%V> g (O.g); S<%V> ().element_transform_face (e, g, A.o, A.s, A.small); } In<%V> g2 (O.g, O.frame); Out<%V> h (O.h); S<%V> ().element_transform_face (g2, h, A.o, A.s, !A.small);"))
    # ---- shapes, corners
    shp = {"pyra": "(A.e.type < 6 ? 5 : 7)"}.get(p, str(ECL[p]))
    fsh = {"line": "0", "sline": "0", "quad": "1", "squad": "1", "tri": "1", "hex": "2", "shex": "2", "tet": "3", "prism": "(A.f < 3 ? 2 : 3)", "pyra": "(A.e.type >= 6 && A.f == 4 ? 2 : 3)"}[p]
    C("shape", ins=e1, outs=[("int", "s"), ("int", "nf"), ("int", "mf"), ("int", "nc"), ("int", "fs")],
      call=f("In<%V> e (A.e, O.frame); O.s = S<%V> ().element_get_shape (e); O.nf = S<%V> ().element_get_num_faces (e); O.mf = S<%V> ().element_get_max_num_faces (e); O.nc = S<%V> ().element_get_num_corners (e); O.fs = S<%V> ().element_get_face_shape (e, A.f);"),
      requires=[valid, fr], ensures=[("shape", "O.s == " + shp), ("number of faces", f("O.nf == @_nf (A.e)")), ("maximal number of faces", "O.mf >= O.nf && O.mf <= %d" % s.faces),
                                     ("number of corners", f("O.nc == @_nv (A.e)")), ("shape of the face", "O.fs == " + fsh)])
    C("face_corner", ins=e1 + [("int", "k")], outs=[("int", "r")],
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_get_face_corner (e, A.f, A.k);"),
      requires=[valid, fr, f("A.k >= 0 && A.k < @_nfv (A.e, A.f)")], ensures=[f("O.r == @_fv (A.e, A.f, A.k)")])
    # ---- coordinates
    if s.std: C("vertex_coords", ins=[(V, "e"), ("int", "v")], outs=[("int[3]", "c")],
      call=f("In<%V> e (A.e, O.frame); S<%V> ().element_get_vertex_integer_coords (e, A.v, O.c);"),
      requires=[valid, f("A.v >= 0 && A.v < @_nv (A.e)")],
      ensures=[("coordinate %d" % a, f("(i64) O.c[%d] == (@_vx (A.e, A.v, %d) >> %d)" % (a, a, (8 if a < 2 else 9) if p == "prism" else 0))) for a in range(s.D)])
contract(id="pyra.lemma.inside", ins=[("V_pyra", "e")], requires=["pyra_valid (A.e)"], unwind=24, spec=G, ensures=[("all vertices lie in the root", "pyra_inside (A.e)")], split=SHAPES["pyra"].levsplit(),
         quick=SHAPES["pyra"].qlf((0, 1, 2, 3, 4)))
