/* contracts that stand for callees (the bridge routes the calls here: v_use_...); each is proved by the contract of its own */
#ifndef V_STUBS_H
#define V_STUBS_H
#ifndef V_STUB_PRE
#define V_STUB_PRE(c, t) __CPROVER_assert (c, "precondition of " t)
#endif
void sp_assume (int c) { __CPROVER_assume (c); }
#define LIDU(P, ML) u64 sp_##P##_lidu (char *e, int l) { V_##P v = *(V_##P *) e; V_STUB_PRE (P##_gvalid (v) && l >= 0 && l <= ML, "linear_id"); u64 r = P##_lidu (v, l); __CPROVER_assume (r < P##_count (P##_root (), l)); return r; }
LIDU (tri, 29)
LIDU (tet, 21)
LIDU (prism, 21)
LIDU (sline, 30)
LIDU (svertex, 254)
LIDU (squad, 30)
LIDU (shex, 21)
#define FROMU(P, D, ML) void sp_##P##_fromu (u64 id, int l, char *e) { V_STUB_PRE (l >= 0 && l <= ML && id < (u64) 1 << (D * l), "init_linear_id"); *(V_##P *) e = P##_fromu (id, l); }
FROMU (tri, 2, 29)
FROMU (tet, 3, 21)
u64 sp_pyra_lid (char *e, int l) { V_pyra v = *(V_pyra *) e; V_STUB_PRE (pyra_gvalid (v) && l >= 0 && l <= 21, "linear_id"); u64 r = pyra_lidu (v, l); __CPROVER_assume (l < v.level ? r < pyra_weight (6, l) : r <= pyra_weight (6, l) - pyra_count (v, l)); return r; }
void sp_pyra_from (u64 id, int l, char *e) { V_STUB_PRE (l >= 0 && l <= 21 && id < pyra_weight (6, l), "init_linear_id"); *(V_pyra *) e = pyra_fromu (id, l); }
void sp_pyra_parent (char *e, char *p) { V_pyra v = *(V_pyra *) e; V_STUB_PRE (v.level > 0, "parent"); *(V_pyra *) p = pyra_parent (v); }
void sp_pyra_desc (char *e, int l, int last, char *d) { V_pyra v = *(V_pyra *) e; V_STUB_PRE (pyra_gvalid (v) && l >= v.level && l <= 21, "descendant"); *(V_pyra *) d = pyra_desc (v, l, last); }
int sp_pyra_cid (char *e) { V_pyra v = *(V_pyra *) e; V_STUB_PRE (v.level > 0, "child_id"); return pyra_cid (v); }
int sp_pyra_type_at (char *e, int l) { V_pyra v = *(V_pyra *) e; return pyra_type_at (v, l); }
#define CHILDU(P, OK, NC, ML) void sp_##P##_childu (char *e, int k, char *c) { V_##P v = *(V_##P *) e; V_STUB_PRE (OK (v) && P##_level (v) < ML && k >= 0 && k < NC, "child"); *(V_##P *) c = P##_childu (v, k); }
CHILDU (line, line_gvalid, 2, 30)
CHILDU (quad, quad_gvalid, 4, 29)
CHILDU (hex, hex_gvalid, 8, 18)
CHILDU (tri, tri_weak, 4, 29)
CHILDU (tet, tet_weak, 8, 21)
CHILDU (prism, prism_gvalid, 8, 21)
CHILDU (pyra, pyra_gvalid, pyra_nchild (v), 21)
CHILDU (sline, sline_gvalid, 2, 30)
CHILDU (squad, squad_gvalid, 4, 30)
CHILDU (shex, shex_gvalid, 8, 21)
#define TYU(P) int sp_##P##_tyu (char *e, int l, int kt, int kl) { V_##P v = *(V_##P *) e; \
  V_STUB_PRE (l >= 0 && l <= kl && kl <= v.level && kt == P##_tyu (v, kl), "compute_type_ext"); return P##_tyu (v, l); } \
void sp_##P##_ancu (char *e, int l, char *a) { V_##P v = *(V_##P *) e; V_STUB_PRE (l >= 0 && l <= v.level, "ancestor"); *(V_##P *) a = P##_ancu (v, l); }
TYU (tri)
TYU (tet)
int nondet_nonzero (void);
/* comparison: zero exactly for equal elements (contract compare and lemma.cmp_order) */
#define EQCMP(P) int sp_##P##_eqcmp (char *a, char *b) { V_##P v = *(V_##P *) a, w = *(V_##P *) b; V_STUB_PRE (P##_valid (v) && P##_valid (w), "element_compare"); \
  int r = nondet_nonzero (); __CPROVER_assume (r != 0); return P##_eq (v, w) ? 0 : r; }
EQCMP (svertex)
EQCMP (sline)
EQCMP (squad)
EQCMP (shex)
#endif
