"""Contracts of the coarse mesh partition tables, face codes and the stash."""
from vlib.core import contract, group

group("cmesh", ["t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c", "t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx", "t8_eclass/*.c",
                "t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c"],
      bridge=['#include <t8.h>', '#include <t8_eclass/t8_eclass.h>', '#include <t8_cmesh/t8_cmesh.hxx>', '#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>',
              '#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h>', 
              '#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.h>'],
      models=["sc_model.c"])
SP = ("cmesh.h",)
MPB = "at most 4 processes; tree numbers b or 2^40 + b with b < 16"
def ENT(*names):
    return {"A.%s.a[%d]" % (n, i): "of_entry_of (A.e%s[%d])" % (n, i) for n in names for i in range(5)}
def REQ(*names):
    return ["A.%s.a[%d] == of_entry_of (A.e%s[%d])" % (n, i, n, i) for n in names for i in range(5)] + ["of_valid (A.%s, A.P)" % n for n in names]
# native search: codes of increasing numbers, some negative
def GEN(*names):
    r = "A.P = 1 + rnd () % 4; { int n = 1 + rnd () % 5, h = rnd () % 4 ? 16 : (int) (rnd () % 4);"
    for n in names:
        r += (" { int c = 0; for (int i = 0; i < 5; i++) { if (i) c += rnd () %% 3; if (c > n || i == A.P) c = n; A.e%s[i] = i == 0 ? 0 : c | (h <= i && c ? 16 : 0) | (c && i != A.P && rnd () %% 2 ? 32 : 0);"
              " A.%s.a[i] = of_entry_of (A.e%s[i]); } }" % (n, n, n))
    return r + " }"
def C(id, **kw):
    kw.setdefault("spec", SP)
    kw.setdefault("group", "cmesh")
    kw.setdefault("unwind", 9)
    return contract(id=id, **kw)

# ---------------------------------------------------------------- partition tables
def S(id, ins=(), outs=(), req=(), names="o", P=(1, 2, 3, 4), **kw):
    vs = [n for _, n in ins]
    g = GEN(*names) + "".join(" A.%s = rnd () %% A.P;" % x for x in vs if x in "pq") + (" if (A.o.a[A.P] > 0) { A.t = rnd () % A.o.a[A.P]; A.et = rnd () % 3; A.t = A.et == 1 ? A.o.a[A.P] - 1 : A.et == 2 ? rnd () % 4 : A.t; A.et = (int) (A.t & 15) | (int) (A.t >> 36 & 16); }" if "t" in vs else "") + kw.pop("gen", "")
    ins = [("int", "P")] + [("V_xoff", n) for n in names] + [("int[5]", "e" + n) for n in names] + list(ins) + ([("int", "et")] if "t" in vs else [])
    cases = [{"A.P": x} for x in P]
    for v in vs:
        if v in "pq":
            cases = [dict(c, **{"A." + v: k}) for c in cases for k in range(-1 if kw.get("neg") else 0, c["A.P"])]
    kw.pop("neg", 0)
    kw.setdefault("quick", (lambda d, m=kw.pop("qp", 9): d["A.P"] <= m))
    e = ENT(*names)
    if "t" in vs:
        e["A.t"] = "of_num_of (A.et)"
        req = list(req) + ["A.t == of_num_of (A.et)"]
    C("offset." + id, ins=ins, outs=list(outs), requires=["1 <= A.P && A.P <= 4" + ("" if 3 in P else " && A.P != 3")] + REQ(*names) + list(req), split=[dict(c, **e) for c in cases],
      gen=g, level="bounded", bound=MPB, **kw)
p, t = ("int", "p"), ("i64", "t")
IP = "0 <= A.p && A.p < A.P"
IT = "A.t < A.o.a[A.P]"
S("range", [p, t], [("i64", "first"), ("i64", "last"), ("i64", "num"), ("int", "empty"), ("int", "in")], [IP],
  call="O.first = t8_offset_first (A.p, A.o.a); O.last = t8_offset_last (A.p, A.o.a); O.num = t8_offset_num_trees (A.p, A.o.a); O.empty = t8_offset_empty (A.p, A.o.a); O.in = t8_offset_in_range (A.t, A.p, A.o.a);",
  ensures=[("first tree", "O.first == of_first (A.o, A.p)"), ("last tree", "O.last == of_last (A.o, A.p)"), ("number of trees", "O.num == of_num (A.o, A.p)"),
           ("empty", "(O.empty != 0) == (of_num (A.o, A.p) == 0)"), ("in range", "(O.in != 0) == of_has (A.o, A.p, A.t)")])
C("offset.entry", ins=[("i64", "t"), ("int", "s")], outs=[("i64", "e"), ("i64", "first")], requires=["0 <= A.t && A.t < INT64_MAX", "A.s == 0 || A.s == 1"],
  call="O.e = t8_offset_first_tree_to_entry (A.t, A.s); t8_gloidx_t o[1] = { O.e }; O.first = t8_offset_first (0, o);",
  ensures=[("shared", "(O.e < 0) == A.s"), ("round trip", "O.first == A.t")])
S("next_nonempty", [p], [("int", "r")], ["-1 <= A.p && A.p < A.P"], call="O.r = t8_offset_next_nonempty_rank (A.p, A.P, A.o.a);",
  ensures=[("next process with trees", "O.r == of_next_nonempty (A.o, A.P, A.p)")], gen=" A.p -= rnd () % 2;", neg=1)
S("any_owner", [p, t], [("int", "r"), ("int", "s")], [IP, IT],
  call="O.r = t8_offset_any_owner_of_tree (A.P, A.t, A.o.a); O.s = t8_offset_any_owner_of_tree_ext (A.P, A.p, A.t, A.o.a);",
  ensures=[("owner", "0 <= O.r && O.r < A.P && of_has (A.o, O.r, A.t)"), ("owner from any start", "0 <= O.s && O.s < A.P && of_has (A.o, O.s, A.t)")])
for nm, sp in (("first", "min"), ("last", "max")):
    S(nm + "_owner", [t, p], [("int", "r"), ("int", "q")], [IT, "A.p == -1 || (%s && of_has (A.o, A.p, A.t))" % IP],
      call="O.q = A.p; O.r = t8_offset_%s_owner_of_tree (A.P, A.t, A.o.a, &O.q);" % nm, gen=" if (rnd () % 2) A.p = -1;", neg=1,
      quick=lambda d: d["A.P"] in (1, 4), ensures=[("%s owner" % nm, "O.r == of_%s_owner (A.o, 0, A.P, A.t)" % sp), ("some owner", "0 <= O.q && O.q < A.P && of_has (A.o, O.q, A.t)")])
for nm, sp in (("next", "of_min_owner (A.o, A.p + 1, A.P, A.t)"), ("prev", "of_max_owner (A.o, 0, A.p, A.t)")):
    S(nm + "_owner", [t, p], [("int", "r")], [IT, IP, "of_has (A.o, A.p, A.t)"], call="O.r = t8_offset_%s_owner_of_tree (A.P, A.t, A.o.a, A.p);" % nm,
      ensures=[("%s owner" % nm, "O.r == " + sp)])
# ---------------------------------------------------------------- who sends which tree
def M(id, ins, outs, req, P=(1, 2, 4), **kw):
    S(id, [("i64", "t")] + list(ins), outs, ["A.o.a[A.P] == A.f.a[A.P]"] + list(req), names="of", P=P, **kw)
q = ("int", "q")
IQ = "0 <= A.q && A.q < A.P"
M("sends_tree", [p, q], [("int", "r")], [IP, IQ, IT], call="O.r = t8_offset_sendstree (A.p, A.q, A.t, A.f.a, A.o.a);",
  ensures=[("who sends", "(O.r != 0) == of_sends (A.f, A.o, A.P, A.p, A.q, A.t)")])
M("one_sender", [q], [("int", "n")], [IQ, IT], call="O.n = 0; for (int s = 0; s < A.P; s++) O.n += t8_offset_sendstree (s, A.q, A.t, A.f.a, A.o.a) != 0;",
  ensures=[("exactly one sender per tree and new owner", "O.n == of_has (A.o, A.q, A.t)")])
M("sends_to", [p, q], [("int", "r")], [IP, IQ, IT], call="O.r = t8_offset_sendsto (A.p, A.q, A.f.a, A.o.a);",
  ensures=[("a process that sends a tree sends", "!of_sends (A.f, A.o, A.P, A.p, A.q, A.t) || O.r != 0"), ("a process that sends has a tree to send", "O.r == 0 || of_sends_any (A.f, A.o, A.P, A.p, A.q)")])
M("range_send", [p, q, ("int", "b")], [("int", "n")], [IP, IQ, "0 <= A.b && A.b < A.P"], P=(1, 2, 4), qp=2, call="O.n = t8_offset_range_send (A.p, A.q, A.b, A.f.a, A.o.a);",
  ensures=[("number of senders", "O.n == " + " + ".join("(A.p <= %d && %d <= A.q && of_sends_any (A.f, A.o, A.P, %d, A.b))" % (i, i, i) for i in range(4)))])

# ---------------------------------------------------------------- codes of face connections
C("facecode", ins=[("int", "d"), ("int", "f"), ("int", "o")], outs=[("int", "c"), ("int", "f"), ("int", "o")],
  requires=["0 <= A.d && A.d <= 3", "0 <= A.f && A.f < (A.d == 0 ? 0 : A.d == 1 ? 2 : A.d == 2 ? 4 : 6)", "0 <= A.o && A.o <= 3"], gen="A.d = 1 + rnd () % 3; A.f = rnd () % 6; A.o = rnd () % 4;",
  call="int8_t c = t8_cmesh_tree_to_face_encode (A.d, A.f, A.o); O.c = c; t8_cmesh_tree_to_face_decode (A.d, c, &O.f, &O.o);",
  ensures=[("face survives", "O.f == A.f"), ("orientation survives", "O.o == A.o"), ("documented code", "O.c == A.o * (A.d == 1 ? 2 : A.d == 2 ? 4 : 6) + A.f")])
BIGP = [(1 << 16, (1 << 15) + 1), (1 << 31, 1 << 30), (1 << 31, 5)]
C("first_element", ins=[("u64", "P"), ("u64", "p"), ("u64", "n")], outs=[("u64", "r")], level="bounded",
  bound="1 to 4 processes, and three ranks of 2^16 and 2^31 processes; any number of elements below 2^61",
  requires=["(1 <= A.P && A.P <= 4 && A.p <= A.P) || " + " || ".join("(A.P == %d && A.p == %d)" % x for x in BIGP), "A.n < ((u64) 1 << 61)"],
  split=[{"A.P": P, "A.p": p} for P in range(1, 5) for p in range(P + 1)] + [{"A.P": P, "A.p": p} for P, p in BIGP],
  gen="if (rnd () % 2) { A.P = 1 + rnd () % 4; A.p = rnd () % (A.P + 1); } A.n = gen_u64 () >> 3;",
  call="O.r = t8_cmesh_get_first_element_of_process ((uint32_t) A.p, (uint32_t) A.P, A.n);",
  ensures=[("equal shares, rounded down", "(unsigned __int128) O.r * A.P <= (unsigned __int128) A.n * A.p && (unsigned __int128) A.n * A.p - (unsigned __int128) O.r * A.P < A.P")])
