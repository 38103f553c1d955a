"""Contracts of the element functions of the default and the standalone scheme:
hierarchy, linear order, descendants, ancestors, families, leaf counts.  (Faces and geometry: faces.py)"""
import os
from vlib.core import contract, group

QUICK = os.environ.get("V_TIER", "quick") != "thorough"
group("schemes", ["t8_schemes/**/*.c", "t8_schemes/**/*.cxx", "t8_eclass/*.c", "t8_element/*.c"],
      models=["p4est_model.c", "p8est_model.c", "sc_model.c"])

class Shape:
    sibling = True
    def __init__(self, p, D, ML, nch, faces, verts, **kw):
        self.p, self.D, self.ML, self.nch, self.faces, self.verts = p, D, ML, nch, faces, verts
        self.V = "V_" + p
        self.__dict__.update(kw)
    def f(self, t):
        return t.replace("@", self.p).replace("%V", self.V).replace("%N", str(self.nch)).replace("%ML", str(self.ML))
    def lev(self, var, v):
        """assignments that set the level of an element"""
        if self.kind == "prism":
            return {"A.%s.line.level" % var: v, "A.%s.tri.level" % var: v}
        return {"A.%s.level" % var: v}
    def levsplit(self, var="e", lo=0, hi=None):
        if self.kind == "point":
            return None
        return [self.lev(var, v) for v in range(lo, (self.ML if hi is None else hi) + 1)]
    def levface(self, lo=0, hi=None, faces=None):
        """case split over (level of e, face)"""
        return [dict(d, **{"A.f": k}) for d in self.levsplit("e", lo, hi) for k in (range(self.faces) if faces is None else faces)]
    def qlf(self, levels):
        return lambda d: d["A.e.line.level" if self.kind == "prism" else "A.e.level"] in levels
    def qlevels(self):
        return {0, 1, 2, 3, self.ML // 2, self.ML - 1, self.ML}
    def qpair(self, g):
        """predicate on a case of a split, g (level of e, l)"""
        def q(d):
            k = "A.e.line.level" if self.kind == "prism" else "A.e.level"
            return g(d.get(k), d.get("A.l"))
        return q
    def lsplit(self, lo=0, hi=None):
        if self.kind == "point":
            return None
        return ("A.l", range(lo, (self.ML if hi is None else hi) + 1))
    def pairs(self, a="e", b="l", cond=lambda x, y: True, b_is_elem=False):
        """case split over (level of a, level b)"""
        if self.kind == "point":
            return None
        r = []
        for x in range(self.ML + 1):
            for y in range(self.ML + 1):
                if cond(x, y):
                    d = dict(self.lev(a, x))
                    d.update(self.lev(b, y) if b_is_elem else {"A." + b: y})
                    r.append(d)
        return r

SHAPES = {s.p: s for s in [
    Shape("vertex", 0, 254, 1, 0, 1, kind="point", std=True),
    Shape("line", 1, 30, 2, 2, 2, kind="cube", sibling=False, std=True),
    Shape("quad", 2, 29, 4, 4, 4, kind="cube", std=True),
    Shape("hex", 3, 18, 8, 6, 8, kind="cube", std=True),
    Shape("tri", 2, 29, 4, 3, 3, kind="simplex", std=True),
    Shape("tet", 3, 21, 8, 4, 4, kind="simplex", std=True),
    Shape("prism", 3, 21, 8, 5, 6, kind="prism", sibling=False, std=True),
    Shape("pyra", 3, 21, 10, 5, 5, kind="pyramid", sibling=False, std=True),
    Shape("svertex", 0, 254, 1, 0, 1, kind="point", sibling=False, std=False),
    Shape("sline", 1, 30, 2, 2, 2, kind="cube", sibling=False, std=False),
    Shape("squad", 2, 30, 4, 4, 4, kind="cube", sibling=False, std=False),
    Shape("shex", 3, 21, 8, 6, 8, kind="cube", sibling=False, std=False),
]}

for s in SHAPES.values():
    p, V, f = s.p, s.V, s.f
    valid, LV = f("@_valid (A.e)"), f("@_level (A.e)")
    uw = 24 if p in ("tet", "pyra", "shex") else 258 if p == "svertex" else 34
    def C(name, **kw):
        kw.setdefault("unwind", uw)
        return contract(id=p + "." + name, **kw)
    e1 = [(V, "e")]
    ch = [valid, f("@_level (A.e) < %ML && A.i >= 0 && A.i < @_nchild (A.e)")]
    # the child functions are also callees on elements of other trees (tetrahedra inside pyramids): only alignment is required there
    chw = [x.replace("_valid", "_weak") for x in ch] if s.kind == "simplex" else ch
    # ---------------- hierarchy
    C("level", ins=e1, outs=[("int", "r"), ("int", "rf")], call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_get_level (e); O.rf = S<%V> ().element_is_refinable (e);"),
      requires=valid, ensures=["O.r == " + LV, f("(O.rf != 0) == (@_level (A.e) < %ML)")])
    C("parent", ins=e1, outs=[(V, "p")],
      call=f("In<%V> e (A.e, O.frame); Out<%V> p (O.p); S<%V> ().element_get_parent (e, p);"),
      requires=[valid, LV + " > 0"], ensures=[f("@_eq (O.p, @_parent (A.e))")])
    C("parent_inplace", ins=e1, outs=[(V, "p")],
      call=f("InOut<%V> p (A.e, O.p); S<%V> ().element_get_parent (p, p);"),
      requires=[valid, LV + " > 0"], ensures=[f("@_eq (O.p, @_parent (A.e))")])
    C("child", ins=e1 + [("int", "i")], outs=[(V, "c")],
      call=f("In<%V> e (A.e, O.frame); Out<%V> c (O.c); S<%V> ().element_get_child (e, A.i, c);"),
      requires=chw, ensures=[f("@_eq (O.c, @_child (A.e, A.i))")])
    C("child_inplace", ins=e1 + [("int", "i")], outs=[(V, "c")],
      call=f("InOut<%V> c (A.e, O.c); S<%V> ().element_get_child (c, A.i, c);"),
      requires=chw, ensures=[f("@_eq (O.c, @_child (A.e, A.i))")])
    C("children", ins=e1, outs=[(V + "[%d]" % s.nch, "c")],
      call=f("In<%V> e (A.e, O.frame); OutArr<%V, %N> c (O.c); S<%V> ().element_get_children (e, S<%V> ().element_get_num_children (e), c);"),
      requires=[valid, f("@_level (A.e) < %ML")],
      ensures=[("child%d" % i, (f("@_nchild (A.e) <= %d || " % i) if s.kind == "pyramid" else "") + f("@_eq (O.c[%d], @_child (A.e, %d))" % (i, i))) for i in range(s.nch)],
      split=("A.e.type", range(8)) if s.kind == "pyramid" else None)
    C("children_inplace", ins=e1, outs=[(V + "[%d]" % s.nch, "c")],
      call=f("OutArr<%V, %N> c (O.c); Tr<%V>::to (A.e, c.r[0]); S<%V> ().element_get_children (c.p[0], S<%V> ().element_get_num_children (c.p[0]), c);"),
      requires=[valid, f("@_level (A.e) < %ML")],
      ensures=[("child%d" % i, (f("@_nchild (A.e) <= %d || " % i) if s.kind == "pyramid" else "") + f("@_eq (O.c[%d], @_child (A.e, %d))" % (i, i))) for i in range(s.nch)],
      split=("A.e.type", range(8)) if s.kind == "pyramid" else None)
    C("child_id", ins=e1, outs=[("int", "r")],
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_get_child_id (e);"),
      requires=[valid, LV + " > 0"], ensures=[f("O.r == @_cid (A.e)")])
    C("ancestor_id", ins=e1 + [("int", "l")], outs=[("int", "r")], heavy=2 if p in ("tet", "pyra") else 0,
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_get_ancestor_id (e, A.l);"),
      requires=[valid, "A.l > 0 && A.l <= " + LV], ensures=[f("O.r == @_cid_at (A.e, A.l)")],
      split=s.levsplit(lo=1) if s.kind == "pyramid" else None, quick=lambda d: d["A.e.level"] in (1, 2, 3, 4, 5, 6, 11))
    if s.sibling:
        C("sibling", ins=e1 + [("int", "i")], outs=[(V, "c")],
          call=f("In<%V> e (A.e, O.frame); Out<%V> c (O.c); S<%V> ().element_get_sibling (e, A.i, c);"),
          requires=[valid, f("@_level (A.e) > 0 && A.i >= 0 && A.i < @_nchild (@_parent (A.e))")],
          ensures=[f("@_eq (O.c, @_child (@_parent (A.e), A.i))")])
    C("num_children", ins=e1, outs=[("int", "r"), ("int", "s"), ("int", "m"), ("int", "irr")],
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_get_num_children (e); O.s = S<%V> ().element_get_num_siblings (e); O.m = S<%V> ().get_max_num_children (); O.irr = S<%V> ().refines_irregular ();"),
      requires=valid, ensures=[f("O.r == @_nchild (A.e)"), f("@_level (A.e) == 0 || O.s == @_nchild (@_parent (A.e))"), f("O.m == %N"),
                               ("irregular refinement", "(O.irr != 0) == %d" % (s.kind == "pyramid"))])
    C("copy_equal", ins=e1 + [(V, "g")], outs=[(V, "c"), ("int", "r")],
      call=f("In<%V> e (A.e, O.frame); In<%V> g (A.g, O.frame); Out<%V> c (O.c); S<%V> ().element_copy (e, c); O.r = S<%V> ().element_is_equal (e, g);"),
      requires=[valid, f("@_valid (A.g)")], ensures=[f("@_eq (O.c, A.e)"), f("(O.r != 0) == @_eq (A.e, A.g)")])
    C("root", ins=[], outs=[(V, "c"), ("int", "m"), ("u64", "sz")],
      call=f("{ Out<%V> c (O.c); S<%V> ().set_to_root (c); } O.m = S<%V> ().get_maxlevel (); O.sz = sizeof (Tr<%V>::R);"), requires=[],
      ensures=[f("@_eq (O.c, @_root ())"), f("O.m == %ML")])
    # lemmas over the specification
    C("lemma.child_parent", ins=e1 + [("int", "i")], requires=ch,
      ensures=[("child valid", f("@_valid (@_child (A.e, A.i))")), ("parent(child)", f("@_eq (@_parent (@_child (A.e, A.i)), A.e)")),
               ("child_id(child)", f("@_cid (@_child (A.e, A.i)) == A.i")), ("level", f("@_level (@_child (A.e, A.i)) == @_level (A.e) + 1"))])
    C("lemma.parent_child", ins=e1, requires=[valid, LV + " > 0"],
      ensures=[("parent valid", f("@_valid (@_parent (A.e))")), ("child(parent, child_id)", f("@_eq (@_child (@_parent (A.e), @_cid (A.e)), A.e)")),
               ("child id range", f("@_cid (A.e) >= 0 && @_cid (A.e) < @_nchild (@_parent (A.e))"))])
    # ---------------- linear index
    ql = s.qlevels()
    pair = s.kind in ("simplex", "pyramid", "prism") or (not s.std and s.kind == "cube")
    lidreq = [valid, f("A.l >= 0 && A.l <= %ML")]
    LB = s.ML
    kw = {}
    if s.kind == "pyramid":
        LB = 4 if QUICK else 7
        lidreq.append("A.l <= %d" % LB)
        kw = dict(level="bounded", bound="target level <= %d" % LB)
    C("linear_id", ins=e1 + [("int", "l")], outs=[("u64", "r")],
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_get_linear_id (e, A.l);"), inner=s.nch + 1 if not s.std else None,
      requires=lidreq, ensures=[f("O.r == @_lid (A.e, A.l)")],
      split=s.pairs(cond=lambda x, y: y <= LB) if pair else s.levsplit(),
      quick=s.qpair(lambda x, y: x in ql and y in (0, x // 2, x - 1, x, x + 1, min(s.ML, LB))) if pair else None, **kw)
    kw = {}
    if s.kind == "pyramid":
        LB = 4 if QUICK else 9
        kw = dict(level="bounded", bound="level <= %d" % LB)
    C("set_linear_id", ins=[("u64", "id"), ("int", "l")], outs=[(V, "c")], inner=s.nch + 1 if not s.std else None,
      call=f("Out<%V> c (O.c); S<%V> ().element_set_linear_id (c, A.l, A.id);"),
      requires=[f("A.l >= 0 && A.l <= %d && A.id < @_count (@_root (), A.l)" % LB)], ensures=[f("@_eq (O.c, @_from (A.id, A.l))")],
      split=s.lsplit(hi=LB), quick=None if s.kind != "cube" else s.qpair(lambda x, y: y in ql), **kw)
    C("lemma.from_lid", thorough_only=True, ins=[("u64", "id"), ("int", "l")],
      requires=[f("A.l >= 0 && A.l <= %ML && A.id < @_count (@_root (), A.l)")],
      ensures=[("valid", f("@_valid (@_from (A.id, A.l))")), ("lid(from(id)) == id", f("@_lid (@_from (A.id, A.l), A.l) == A.id"))],
      split=s.lsplit())
    C("lemma.lid_from", thorough_only=True, ins=e1, requires=[valid],
      ensures=[("range", f("@_lid (A.e, @_level (A.e)) < @_count (@_root (), @_level (A.e))")), ("from(lid(e)) == e", f("@_eq (@_from (@_lid (A.e, @_level (A.e)), @_level (A.e)), A.e)"))],
      split=s.levsplit())
    # ---------------- leaf counts
    C("count_leaves", ins=e1 + [("int", "l")], outs=[("i64", "r"), ("i64", "q")],
      call=f("In<%V> e (A.e, O.frame); O.r = S<%V> ().element_count_leaves (e, A.l); O.q = S<%V> ().count_leaves_from_root (A.l);"),
      requires=[valid, f("A.l >= 0 && A.l <= %ML && (i64) @_count (@_root (), A.l) > 0")], ensures=[("leaves of the element", f("O.r == (i64) @_count (A.e, A.l)")), ("leaves of the root", f("O.q == (i64) @_count (@_root (), A.l)"))],
      split=s.pairs(cond=lambda x, y: y < s.ML) if s.kind == "pyramid" else None,
      quick=s.qpair(lambda x, y: x in ql and y in (0, x - 1, x, x + 1, x + 2, s.ML - 1)) if s.kind == "pyramid" else None)
    C("lemma.count", ins=e1 + [("int", "l")], requires=[valid, f("A.l > @_level (A.e) && A.l <= %ML")],
      pre=f("static u64 sumc (%V e, int l) { u64 s = 0; for (int i = 0; i < %N; i++) if (i < @_nchild (e)) s += @_count (@_child (e, i), l); return s; }"),
      ensures=[("leaves = sum over the children", f("@_count (A.e, A.l) == sumc (A.e, A.l)"))], split=s.lsplit(1) if s.kind == "pyramid" else None)
