/* Specification functions: mathematics of the refinement trees, independent of /repo's code. */
#ifndef V_SPEC_H
#define V_SPEC_H
#include "view.h"
#include "tables.h" /* generated from geometry by gen_tables.py */
#ifdef __CPROVER__
#define V_INLINE static inline
#else
#define V_INLINE static inline
#endif
#ifndef HEX_ML /* refinement limit of hexahedra: p4est's P8EST_OLD_QMAXLEVEL */
#define HEX_ML 18
#endif

/* ---------------- cubes: line, quad, hex (default and standalone) ---------------- */
#define C_FOR_1(M) M (x)
#define C_FOR_2(M) M (x) M (y)
#define C_FOR_3(M) M (x) M (y) M (z)
/* P prefix, D dimension, SC log2 of the root length, ML maximum level */
#define CUBE(P, D, SC, ML)                                                                                    \
  V_INLINE int P##_level (V_##P e) { return e.level; }                                                        \
  V_INLINE int P##_ML (void) { return ML; }                                                                   \
  V_INLINE int32_t P##_len (int l) { return ((int32_t) 1) << (SC - l); }                                      \
  V_INLINE int32_t P##_get (V_##P e, int a) { return P##_co (e, a); }                                         \
  V_INLINE bool P##_eq (V_##P a, V_##P b)                                                                     \
  {                                                                                                           \
    bool r = a.level == b.level;                                                                              \
    for (int i = 0; i < D; i++) r = r && P##_co (a, i) == P##_co (b, i);                                      \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE bool P##_inside (V_##P e)                                                                          \
  {                                                                                                           \
    bool r = true;                                                                                            \
    for (int i = 0; i < D; i++) r = r && P##_co (e, i) >= 0 && P##_co (e, i) < P##_len (0);                   \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE bool P##_aligned (V_##P e)                                                                         \
  {                                                                                                           \
    bool r = e.level >= 0 && e.level <= ML;                                                                   \
    if (!r) return false;                                                                                     \
    for (int i = 0; i < D; i++) r = r && (P##_co (e, i) & (P##_len (e.level) - 1)) == 0;                      \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE bool P##_valid (V_##P e) { return P##_aligned (e) && P##_inside (e); }                             \
  V_INLINE int P##_nchild (V_##P e) { (void) e; return 1 << D; }                                              \
  V_INLINE V_##P P##_root (void) { V_##P r = { 0 }; return r; }                                               \
  V_INLINE V_##P P##_anc (V_##P e, int l)                                                                     \
  {                                                                                                           \
    V_##P r = e;                                                                                              \
    r.level = l;                                                                                              \
    for (int i = 0; i < D; i++) P##_st (&r, i, P##_co (e, i) & ~(P##_len (l) - 1));                           \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE V_##P P##_parent (V_##P e) { return P##_anc (e, e.level - 1); }                                    \
  V_INLINE int P##_cid_at (V_##P e, int l)                                                                    \
  {                                                                                                           \
    int c = 0;                                                                                                \
    if (l == 0) return 0;                                                                                     \
    for (int i = 0; i < D; i++) c |= (P##_co (e, i) & P##_len (l)) ? 1 << i : 0;                              \
    return c;                                                                                                 \
  }                                                                                                           \
  V_INLINE int P##_cid (V_##P e) { return P##_cid_at (e, e.level); }                                          \
  V_INLINE V_##P P##_child (V_##P e, int c)                                                                   \
  {                                                                                                           \
    V_##P r = e;                                                                                              \
    r.level = e.level + 1;                                                                                    \
    for (int i = 0; i < D; i++) P##_st (&r, i, P##_co (e, i) + ((c >> i) & 1 ? P##_len (e.level + 1) : 0));   \
    return r;                                                                                                 \
  }                                                                                                           \
  /* position along the curve among all level-'level' elements; for level > e.level: of the first descendant */ \
  V_INLINE u64 P##_lid (V_##P e, int level)                                                                   \
  {                                                                                                           \
    u64 id = 0;                                                                                               \
    for (int l = 1; l <= ML; l++)                                                                             \
      if (l <= level) id = (id << D) | (u64) (l <= e.level ? P##_cid_at (e, l) : 0);                          \
    return id;                                                                                                \
  }                                                                                                           \
  V_INLINE V_##P P##_from (u64 id, int level)                                                                 \
  {                                                                                                           \
    V_##P r = { 0 };                                                                                          \
    for (int l = ML; l >= 1; l--)                                                                             \
      if (l <= level) {                                                                                       \
        for (int i = 0; i < D; i++) P##_st (&r, i, P##_co (r, i) | ((id >> i) & 1 ? P##_len (l) : 0));        \
        id >>= D;                                                                                             \
      }                                                                                                       \
    r.level = level;                                                                                          \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE u64 P##_count (V_##P e, int level) { return level < e.level ? 0 : (u64) 1 << (D * (level - e.level)); }

V_INLINE int32_t line_co (V_line e, int a) { (void) a; return e.x; }
V_INLINE void line_st (V_line *e, int a, int32_t v) { (void) a; e->x = v; }
V_INLINE int32_t quad_co (V_quad e, int a) { return a == 0 ? e.x : e.y; }
V_INLINE void quad_st (V_quad *e, int a, int32_t v) { if (a == 0) e->x = v; else e->y = v; }
V_INLINE int32_t hex_co (V_hex e, int a) { return a == 0 ? e.x : a == 1 ? e.y : e.z; }
V_INLINE void hex_st (V_hex *e, int a, int32_t v) { if (a == 0) e->x = v; else if (a == 1) e->y = v; else e->z = v; }
#define sline_co(e, a) line_co (*(V_line *) &(e), a)
V_INLINE int32_t sl_co (V_sline e, int a) { (void) a; return e.x; }
V_INLINE void sline_st (V_sline *e, int a, int32_t v) { (void) a; e->x = v; }
#undef sline_co
V_INLINE int32_t sline_co (V_sline e, int a) { (void) a; return e.x; }
V_INLINE int32_t squad_co (V_squad e, int a) { return a == 0 ? e.x : e.y; }
V_INLINE void squad_st (V_squad *e, int a, int32_t v) { if (a == 0) e->x = v; else e->y = v; }
V_INLINE int32_t shex_co (V_shex e, int a) { return a == 0 ? e.x : a == 1 ? e.y : e.z; }
V_INLINE void shex_st (V_shex *e, int a, int32_t v) { if (a == 0) e->x = v; else if (a == 1) e->y = v; else e->z = v; }
CUBE (line, 1, 30, 30)
CUBE (quad, 2, 30, 29)
CUBE (hex, 3, 30, HEX_ML)
CUBE (sline, 1, 30, 30)
CUBE (squad, 2, 30, 30)
CUBE (shex, 3, 21, 21)

/* ---------------- simplices: tri (D=2, NT=2), tet (D=3, NT=6) ---------------- */
V_INLINE int32_t tri_co (V_tri e, int a) { return a == 0 ? e.x : e.y; }
V_INLINE void tri_st (V_tri *e, int a, int32_t v) { if (a == 0) e->x = v; else e->y = v; }
V_INLINE int32_t tet_co (V_tet e, int a) { return a == 0 ? e.x : a == 1 ? e.y : e.z; }
V_INLINE void tet_st (V_tet *e, int a, int32_t v) { if (a == 0) e->x = v; else if (a == 1) e->y = v; else e->z = v; }
#define SIMPLEX(P, D, NT, ML)                                                                                 \
  V_INLINE int P##_level (V_##P e) { return e.level; }                                                        \
  V_INLINE int P##_ML (void) { return ML; }                                                                   \
  V_INLINE int32_t P##_len (int l) { return ((int32_t) 1) << (ML - l); }                                      \
  V_INLINE bool P##_eq (V_##P a, V_##P b)                                                                     \
  {                                                                                                           \
    bool r = a.level == b.level && a.type == b.type;                                                          \
    for (int i = 0; i < D; i++) r = r && P##_co (a, i) == P##_co (b, i);                                      \
    return r;                                                                                                 \
  }                                                                                                           \
  /* subcube of the level l-1 ancestor's cube that contains e's level l ancestor */                           \
  V_INLINE int P##_cube (V_##P e, int l)                                                                      \
  {                                                                                                           \
    int c = 0;                                                                                                \
    for (int i = 0; i < D; i++) c |= (P##_co (e, i) & P##_len (l)) ? 1 << i : 0;                              \
    return c;                                                                                                 \
  }                                                                                                           \
  V_INLINE int P##_type_at (V_##P e, int level) /* type of the ancestor at 'level' <= e.level */              \
  {                                                                                                           \
    int b = e.type;                                                                                           \
    for (int l = ML; l >= 1; l--)                                                                             \
      if (l <= e.level && l > level) b = P##_PT[P##_cube (e, l)][b];                                          \
    return b;                                                                                                 \
  }                                                                                                           \
  V_INLINE bool P##_aligned (V_##P e)                                                                         \
  {                                                                                                           \
    bool r = e.level >= 0 && e.level <= ML && e.type >= 0 && e.type < NT;                                     \
    if (!r) return false;                                                                                     \
    for (int i = 0; i < D; i++) r = r && (P##_co (e, i) & (P##_len (e.level) - 1)) == 0;                      \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE bool P##_incube (V_##P e)                                                                          \
  {                                                                                                           \
    bool r = true;                                                                                            \
    for (int i = 0; i < D; i++) r = r && P##_co (e, i) >= 0 && P##_co (e, i) < P##_len (0);                   \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE bool P##_inside (V_##P e) { return P##_incube (e) && P##_type_at (e, 0) == 0; }                    \
  V_INLINE bool P##_valid (V_##P e) { return P##_aligned (e) && P##_inside (e); }                             \
  V_INLINE int P##_nchild (V_##P e) { (void) e; return 1 << D; }                                              \
  V_INLINE V_##P P##_root (void) { V_##P r = { 0 }; return r; }                                               \
  V_INLINE V_##P P##_anc (V_##P e, int l)                                                                     \
  {                                                                                                           \
    V_##P r = e;                                                                                              \
    r.level = l;                                                                                              \
    r.type = P##_type_at (e, l);                                                                              \
    for (int i = 0; i < D; i++) P##_st (&r, i, P##_co (e, i) & ~(P##_len (l) - 1));                           \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE V_##P P##_parent (V_##P e)                                                                         \
  {                                                                                                           \
    V_##P r = e;                                                                                              \
    r.level = e.level - 1;                                                                                    \
    r.type = P##_PT[P##_cube (e, e.level)][e.type];                                                           \
    for (int i = 0; i < D; i++) P##_st (&r, i, P##_co (e, i) & ~P##_len (e.level));                           \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE int P##_cid (V_##P e)                                                                              \
  {                                                                                                           \
    int c;                                                                                                    \
    if (e.level == 0) return 0;                                                                               \
    c = P##_cube (e, e.level);                                                                                \
    return P##_RK[P##_PT[c][e.type]][c][e.type];                                                              \
  }                                                                                                           \
  V_INLINE int P##_cid_at (V_##P e, int l) { return P##_cid (P##_anc (e, l)); }                               \
  V_INLINE V_##P P##_child (V_##P e, int c)                                                                   \
  {                                                                                                           \
    V_##P r = e;                                                                                              \
    int q = P##_CC[e.type][c];                                                                                \
    r.level = e.level + 1;                                                                                    \
    r.type = P##_CB[e.type][c];                                                                               \
    for (int i = 0; i < D; i++) P##_st (&r, i, P##_co (e, i) + ((q >> i) & 1 ? P##_len (e.level + 1) : 0));   \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE u64 P##_lid (V_##P e, int level)                                                                   \
  {                                                                                                           \
    u64 id = 0;                                                                                               \
    int b = e.type;                                                                                           \
    for (int l = ML; l >= 1; l--)                                                                             \
      if (l <= e.level) {                                                                                     \
        int c = P##_cube (e, l), p = P##_PT[c][b];                                                            \
        if (l <= level) id |= ((u64) P##_RK[p][c][b]) << (D * (level - l));                                   \
        b = p;                                                                                                \
      }                                                                                                       \
    return id;                                                                                                \
  }                                                                                                           \
  V_INLINE V_##P P##_from (u64 id, int level)                                                                 \
  {                                                                                                           \
    V_##P r = { 0 };                                                                                          \
    for (int l = 1; l <= ML; l++)                                                                             \
      if (l <= level) {                                                                                       \
        int k = (int) ((id >> (D * (level - l))) & ((1 << D) - 1)), q = P##_CC[r.type][k];                    \
        r.type = P##_CB[r.type][k];                                                                           \
        for (int i = 0; i < D; i++) P##_st (&r, i, P##_co (r, i) | ((q >> i) & 1 ? P##_len (l) : 0));         \
      }                                                                                                       \
    r.level = level;                                                                                          \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE u64 P##_count (V_##P e, int level) { return level < e.level ? 0 : (u64) 1 << (D * (level - e.level)); }
SIMPLEX (tri, 2, 2, 29)
SIMPLEX (tet, 3, 6, 21)

/* ---------------- vertices (a single element per level) ---------------- */
#define POINT(P, ML)                                                                                          \
  V_INLINE int P##_level (V_##P e) { return e.level; }                                                        \
  V_INLINE int P##_ML (void) { return ML; }                                                                   \
  V_INLINE bool P##_eq (V_##P a, V_##P b) { return a.level == b.level; }                                      \
  V_INLINE bool P##_valid (V_##P e) { return e.level >= 0 && e.level <= ML; }                                 \
  V_INLINE int P##_nchild (V_##P e) { (void) e; return 1; }                                                   \
  V_INLINE V_##P P##_root (void) { V_##P r = { 0 }; return r; }                                               \
  V_INLINE V_##P P##_anc (V_##P e, int l) { e.level = l; return e; }                                          \
  V_INLINE V_##P P##_parent (V_##P e) { e.level -= 1; return e; }                                             \
  V_INLINE int P##_cid_at (V_##P e, int l) { (void) e; (void) l; return 0; }                                  \
  V_INLINE int P##_cid (V_##P e) { (void) e; return 0; }                                                      \
  V_INLINE V_##P P##_child (V_##P e, int c) { (void) c; e.level += 1; return e; }                             \
  V_INLINE u64 P##_lid (V_##P e, int level) { (void) e; (void) level; return 0; }                             \
  V_INLINE V_##P P##_from (u64 id, int level) { V_##P r; (void) id; r.level = level; return r; }              \
  V_INLINE u64 P##_count (V_##P e, int level) { return level < e.level ? 0 : 1; }
POINT (vertex, 254)
POINT (svertex, 254)

/* ---------------- prisms: triangle x line ---------------- */
V_INLINE int prism_level (V_prism e) { return e.line.level; }
V_INLINE int prism_ML (void) { return 21; }
V_INLINE bool prism_eq (V_prism a, V_prism b) { return line_eq (a.line, b.line) && tri_eq (a.tri, b.tri); }
V_INLINE bool prism_valid (V_prism e) { return e.line.level == e.tri.level && e.line.level <= 21 && line_valid (e.line) && tri_valid (e.tri); }
V_INLINE int prism_nchild (V_prism e) { (void) e; return 8; }
V_INLINE V_prism prism_root (void) { V_prism r; r.line = line_root (); r.tri = tri_root (); return r; }
V_INLINE V_prism prism_anc (V_prism e, int l) { V_prism r; r.line = line_anc (e.line, l); r.tri = tri_anc (e.tri, l); return r; }
V_INLINE V_prism prism_parent (V_prism e) { V_prism r; r.line = line_parent (e.line); r.tri = tri_parent (e.tri); return r; }
V_INLINE int prism_cid_at (V_prism e, int l) { return tri_cid_at (e.tri, l) + 4 * line_cid_at (e.line, l); }
V_INLINE int prism_cid (V_prism e) { return tri_cid (e.tri) + 4 * line_cid (e.line); }
V_INLINE V_prism prism_child (V_prism e, int c) { V_prism r; r.line = line_child (e.line, c / 4); r.tri = tri_child (e.tri, c % 4); return r; }
V_INLINE u64 prism_lid (V_prism e, int level)
{
  u64 id = 0;
  int b = e.tri.type;
  for (int l = 21; l >= 1; l--)
    if (l <= e.line.level) {
      int c = tri_cube (e.tri, l), p = tri_PT[c][b];
      if (l <= level) id |= ((u64) (tri_RK[p][c][b] + 4 * line_cid_at (e.line, l))) << (3 * (level - l));
      b = p;
    }
  return id;
}
V_INLINE V_prism prism_from (u64 id, int level)
{
  V_prism r = prism_root ();
  for (int l = 1; l <= 21; l++)
    if (l <= level) {
      int k = (int) ((id >> (3 * (level - l))) & 7);
      r = prism_child (r, k);
    }
  return r;
}
V_INLINE u64 prism_count (V_prism e, int level) { return level < e.line.level ? 0 : (u64) 1 << (3 * (level - e.line.level)); }

/* ---------------- pyramids: types 6, 7 (pyramid shape) and 0..5 (tetrahedra) ----------------
 * sw: level of the coarsest tetrahedral ancestor, -1 for pyramid-shaped elements */
V_INLINE int pyra_level (V_pyra e) { return e.level; }
V_INLINE int pyra_ML (void) { return 21; }
V_INLINE int32_t pyra_len (int l) { return ((int32_t) 1) << (21 - l); }
V_INLINE bool pyra_eq (V_pyra a, V_pyra b)
{
  return a.level == b.level && a.type == b.type && a.x == b.x && a.y == b.y && a.z == b.z && a.sw == b.sw;
}
V_INLINE int pyra_cube (V_pyra e, int l)
{
  return ((e.x & pyra_len (l)) ? 1 : 0) | ((e.y & pyra_len (l)) ? 2 : 0) | ((e.z & pyra_len (l)) ? 4 : 0);
}
/* type of the parent of the level-l ancestor with type b, -1 if there is none */
V_INLINE int pyra_ptype (V_pyra e, int l, int b)
{
  return b < 6 && l > e.sw ? tet_PT[pyra_cube (e, l)][b] : pyra_PT[pyra_cube (e, l)][b];
}
V_INLINE int pyra_type_at (V_pyra e, int level)
{
  int b = e.type;
  for (int l = 21; l >= 1; l--)
    if (l <= e.level && l > level && b >= 0) b = pyra_ptype (e, l, b);
  return b;
}
V_INLINE bool pyra_valid (V_pyra e)
{
  int32_t m;
  if (!(e.level >= 0 && e.level <= 21 && e.type >= 0 && e.type < 8)) return false;
  if (e.type >= 6 ? e.sw != -1 : !(e.sw >= 1 && e.sw <= e.level)) return false;
  m = pyra_len (e.level) - 1;
  if ((e.x & m) || (e.y & m) || (e.z & m)) return false;
  if (!(e.x >= 0 && e.x < pyra_len (0) && e.y >= 0 && e.y < pyra_len (0) && e.z >= 0 && e.z < pyra_len (0))) return false;
  return pyra_type_at (e, 0) == 6;
}
V_INLINE int pyra_nchild (V_pyra e) { return e.type < 6 ? 8 : 10; }
V_INLINE V_pyra pyra_root (void) { V_pyra r = { 0, 6, 0, 0, 0, -1 }; return r; }
V_INLINE V_pyra pyra_anc (V_pyra e, int l)
{
  V_pyra r = e;
  int32_t m = ~(pyra_len (l) - 1);
  r.level = l;
  r.type = pyra_type_at (e, l);
  r.x &= m; r.y &= m; r.z &= m;
  if (r.type >= 6) r.sw = -1;
  return r;
}
V_INLINE V_pyra pyra_parent (V_pyra e)
{
  V_pyra r = e;
  int32_t m = ~pyra_len (e.level);
  r.level = e.level - 1;
  r.type = pyra_ptype (e, e.level, e.type);
  r.x &= m; r.y &= m; r.z &= m;
  if (r.type >= 6) r.sw = -1;
  return r;
}
V_INLINE int pyra_cid (V_pyra e)
{
  int c, p;
  if (e.level == 0) return 0;
  c = pyra_cube (e, e.level);
  p = pyra_ptype (e, e.level, e.type);
  return p >= 6 ? pyra_RK[p - 6][c][e.type] : tet_RK[p][c][e.type];
}
V_INLINE int pyra_cid_at (V_pyra e, int l) { return pyra_cid (pyra_anc (e, l)); }
V_INLINE V_pyra pyra_child (V_pyra e, int k)
{
  V_pyra r = e;
  int q = e.type >= 6 ? pyra_CC[e.type - 6][k] : tet_CC[e.type][k];
  int32_t h = pyra_len (e.level + 1);
  r.level = e.level + 1;
  r.type = e.type >= 6 ? pyra_CB[e.type - 6][k] : tet_CB[e.type][k];
  if (q & 1) r.x += h;
  if (q & 2) r.y += h;
  if (q & 4) r.z += h;
  r.sw = e.type < 6 ? e.sw : r.type < 6 ? r.level : -1;
  return r;
}
/* number of elements k levels below an element of type b */
V_INLINE u64 pyra_weight (int b, int k)
{
  u64 s = 1;
  for (int i = 0; i < 21; i++)
    if (i < k) s *= 6;
  return b < 6 ? (u64) 1 << (3 * k) : ((u64) 2 << (3 * k)) - s;
}
V_INLINE u64 pyra_count (V_pyra e, int level) { return level < e.level ? 0 : pyra_weight (e.type, level - e.level); }
V_INLINE u64 pyra_lid (V_pyra e, int level)
{
  u64 id = 0;
  int b = e.type;
  for (int l = 21; l >= 1; l--)
    if (l <= e.level) {
      int c = pyra_cube (e, l), p = pyra_ptype (e, l, b);
      if (l <= level) {
        int k = p >= 6 ? pyra_RK[p - 6][c][b] : tet_RK[p][c][b];
        int np = p >= 6 ? pyra_NP[p - 6][k] : 0;
        id += (u64) np * pyra_weight (6, level - l) + ((u64) (k - np) << (3 * (level - l)));
      }
      b = p;
    }
  return id;
}
V_INLINE V_pyra pyra_from (u64 id, int level)
{
  V_pyra r = pyra_root ();
  for (int l = 1; l <= 21; l++)
    if (l <= level) {
      int k = 0;
      if (r.type < 6) {
        k = (int) ((id >> (3 * (level - l))) & 7);
        id &= ((u64) 1 << (3 * (level - l))) - 1;
      }
      else {
        u64 wt = (u64) 1 << (3 * (level - l)), wp = pyra_weight (6, level - l);
        for (int i = 0; i < 9; i++) {
          u64 w = pyra_CB[r.type - 6][i] >= 6 ? wp : wt;
          if (k == i && id >= w) { id -= w; k++; }
        }
      }
      r = pyra_child (r, k);
    }
  return r;
}

/* simplices geometrically: e lies in the simplex of the given anchor, type and length (all its vertices do).
 * The vertices of type b are 0, e_i, e_i + e_j, ...: the simplex is { len >= d_i >= d_j >= ... >= 0 } */
#define SIMPGEO(P, D, NT)                                                                                     \
  V_INLINE int P##_rank (int b, int a) { int r = 0; for (int v = 1; v <= D; v++) r += P##_VX[b][v][a]; return r; } \
  V_INLINE bool P##_within (V_##P e, V_##P s) /* is e a subset of s */                                        \
  {                                                                                                           \
    bool r = true;                                                                                            \
    int64_t L = P##_len (s.level), l = P##_len (e.level);                                                     \
    for (int v = 0; v <= D; v++)                                                                              \
      for (int a = 0; a < D; a++) {                                                                           \
        int64_t da = (int64_t) P##_co (e, a) - P##_co (s, a) + (P##_VX[e.type][v][a] ? l : 0);                \
        r = r && da >= 0 && da <= L;                                                                          \
        for (int b = 0; b < a; b++) {                                                                         \
          int64_t db = (int64_t) P##_co (e, b) - P##_co (s, b) + (P##_VX[e.type][v][b] ? l : 0);              \
          r = r && (P##_rank (s.type, a) > P##_rank (s.type, b) ? da >= db : db >= da);                       \
        }                                                                                                     \
      }                                                                                                       \
    return r;                                                                                                 \
  }                                                                                                           \
  /* equivalent to valid (lemma.geometric) */                                                                 \
  V_INLINE bool P##_gvalid (V_##P e) { return P##_aligned (e) && P##_within (e, P##_root ()); }               \
  /* equivalent to isanc for valid elements (lemma.geometric_ancestor) */                                     \
  V_INLINE bool P##_ganc (V_##P a, V_##P b) { return a.level <= b.level && P##_within (b, a); }
SIMPGEO (tri, 2, 2)
SIMPGEO (tet, 3, 6)
V_INLINE bool prism_gvalid (V_prism e) { return e.line.level == e.tri.level && e.line.level <= 21 && line_valid (e.line) && tri_gvalid (e.tri); }
#define line_gvalid line_valid
#define quad_gvalid quad_valid
#define hex_gvalid hex_valid
#define sline_gvalid sline_valid
#define squad_gvalid squad_valid
#define shex_gvalid shex_valid
/* all vertices of the element lie in the root pyramid (follows from validity: pyra.lemma.inside) */
V_INLINE bool pyra_inside (V_pyra e)
{
  bool r = true;
  for (int v = 0; v < 5; v++)
    if (v < (e.type >= 6 ? 5 : 4)) {
      int c = e.type >= 6, t = c ? e.type - 6 : 0, w = c ? 0 : e.type, u = c ? 0 : v;
      i64 h = pyra_len (e.level), x = e.x + ((c ? pyra_VX[t][v][0] : tet_VX[w][u][0]) ? h : 0), y = e.y + ((c ? pyra_VX[t][v][1] : tet_VX[w][u][1]) ? h : 0),
          z = e.z + ((c ? pyra_VX[t][v][2] : tet_VX[w][u][2]) ? h : 0);
      r = r && z >= 0 && z <= x && z <= y && x <= pyra_len (0) && y <= pyra_len (0);
    }
  return r;
}
#ifdef V_UF
int __CPROVER_uninterpreted_pyra_valid (int, int, int, int, int, int);
V_INLINE bool pyra_gvalid (V_pyra e)
{
  return e.level >= 0 && e.level <= 21 && e.type >= 0 && e.type < 8 && (e.type >= 6 ? e.sw == -1 : e.sw >= 1 && e.sw <= e.level) && e.x >= 0 && e.x < pyra_len (0)
         && e.y >= 0 && e.y < pyra_len (0) && e.z >= 0 && e.z < pyra_len (0) && !((e.x | e.y | e.z) & (pyra_len (e.level) - 1)) && pyra_inside (e) && __CPROVER_uninterpreted_pyra_valid (e.level, e.type, e.x, e.y, e.z, e.sw);
}
#else
#define pyra_gvalid pyra_valid
#endif
#define vertex_gvalid vertex_valid
#define svertex_gvalid svertex_valid
/* weak validity: level, type, alignment and position in the cube are right, without the position in the refinement tree */
V_INLINE bool vertex_weak (V_vertex e) { return vertex_valid (e); }
V_INLINE bool svertex_weak (V_svertex e) { return svertex_valid (e); }
V_INLINE bool line_weak (V_line e) { return line_valid (e); }
V_INLINE bool quad_weak (V_quad e) { return quad_valid (e); }
V_INLINE bool hex_weak (V_hex e) { return hex_valid (e); }
V_INLINE bool sline_weak (V_sline e) { return sline_valid (e); }
V_INLINE bool squad_weak (V_squad e) { return squad_valid (e); }
V_INLINE bool shex_weak (V_shex e) { return shex_valid (e); }
V_INLINE bool tri_weak (V_tri e) { return tri_aligned (e) && tri_incube (e); }
V_INLINE bool tet_weak (V_tet e) { return tet_aligned (e) && tet_incube (e); }
V_INLINE bool prism_weak (V_prism e) { return e.line.level == e.tri.level && e.line.level <= 21 && line_valid (e.line) && tri_weak (e.tri); }
V_INLINE bool pyra_weak (V_pyra e)
{
  int32_t m;
  if (!(e.level >= 0 && e.level <= 21 && e.type >= 0 && e.type < 8)) return false;
  if (e.type >= 6 ? e.sw != -1 : !(e.sw >= 1 && e.sw <= e.level)) return false;
  m = pyra_len (e.level) - 1;
  if ((e.x & m) || (e.y & m) || (e.z & m)) return false;
  return e.x >= 0 && e.x < pyra_len (0) && e.y >= 0 && e.y < pyra_len (0) && e.z >= 0 && e.z < pyra_len (0);
}
/* pyramids: sw is determined by the other members of a valid element (lemma.sw_unique) */
V_INLINE bool pyra_eqx (V_pyra a, V_pyra b) { b.sw = a.sw; return pyra_eq (a, b); }
#define vertex_eqx vertex_eq
#define svertex_eqx svertex_eq
#define line_eqx line_eq
#define quad_eqx quad_eq
#define hex_eqx hex_eq
#define sline_eqx sline_eq
#define squad_eqx squad_eq
#define shex_eqx shex_eq
#define tri_eqx tri_eq
#define tet_eqx tet_eq
#define prism_eqx prism_eq
/* Where a contract stands for a callee (V_UF), the index functions of the callees are uninterpreted: what is proved
 * then holds for any index function, in particular for the specified one (which the callee's own contract establishes). */
#ifdef V_UF
#define UF1(P, f, ...) __CPROVER_uninterpreted_##P##_##f (__VA_ARGS__)
u64 __CPROVER_uninterpreted_tri_lid (int, int, int, int, int);
u64 __CPROVER_uninterpreted_tet_lid (int, int, int, int, int, int);
u64 __CPROVER_uninterpreted_prism_lid (int, int, int, int, int, int, int);
u64 __CPROVER_uninterpreted_pyra_lid (int, int, int, int, int, int, int);
u64 __CPROVER_uninterpreted_svertex_lid (int, int);
u64 __CPROVER_uninterpreted_sline_lid (int, int, int);
u64 __CPROVER_uninterpreted_squad_lid (int, int, int, int);
u64 __CPROVER_uninterpreted_shex_lid (int, int, int, int, int);
int __CPROVER_uninterpreted_tri_ft (u64, int); int __CPROVER_uninterpreted_tri_fx (u64, int); int __CPROVER_uninterpreted_tri_fy (u64, int);
int __CPROVER_uninterpreted_tet_ft (u64, int); int __CPROVER_uninterpreted_tet_fx (u64, int); int __CPROVER_uninterpreted_tet_fy (u64, int); int __CPROVER_uninterpreted_tet_fz (u64, int);
int __CPROVER_uninterpreted_pyra_ft (u64, int); int __CPROVER_uninterpreted_pyra_fx (u64, int); int __CPROVER_uninterpreted_pyra_fy (u64, int); int __CPROVER_uninterpreted_pyra_fz (u64, int); int __CPROVER_uninterpreted_pyra_fs (u64, int);
V_INLINE u64 tri_lidu (V_tri e, int l) { return __CPROVER_uninterpreted_tri_lid (e.level, e.type, e.x, e.y, l); }
V_INLINE u64 tet_lidu (V_tet e, int l) { return __CPROVER_uninterpreted_tet_lid (e.level, e.type, e.x, e.y, e.z, l); }
V_INLINE u64 prism_lidu (V_prism e, int l) { return __CPROVER_uninterpreted_prism_lid (e.line.level, e.line.x, e.tri.level, e.tri.type, e.tri.x, e.tri.y, l); }
V_INLINE u64 pyra_lidu (V_pyra e, int l) { return __CPROVER_uninterpreted_pyra_lid (e.level, e.type, e.x, e.y, e.z, e.sw, l); }
V_INLINE u64 svertex_lidu (V_svertex e, int l) { return __CPROVER_uninterpreted_svertex_lid (e.level, l); }
V_INLINE u64 sline_lidu (V_sline e, int l) { return __CPROVER_uninterpreted_sline_lid (e.level, e.x, l); }
V_INLINE u64 squad_lidu (V_squad e, int l) { return __CPROVER_uninterpreted_squad_lid (e.level, e.x, e.y, l); }
V_INLINE u64 shex_lidu (V_shex e, int l) { return __CPROVER_uninterpreted_shex_lid (e.level, e.x, e.y, e.z, l); }
V_INLINE V_tri tri_fromu (u64 i, int l) { V_tri r = { l, __CPROVER_uninterpreted_tri_ft (i, l), __CPROVER_uninterpreted_tri_fx (i, l), __CPROVER_uninterpreted_tri_fy (i, l) }; r.type = (int8_t) r.type; return r; }
V_INLINE V_tet tet_fromu (u64 i, int l) { V_tet r = { l, __CPROVER_uninterpreted_tet_ft (i, l), __CPROVER_uninterpreted_tet_fx (i, l), __CPROVER_uninterpreted_tet_fy (i, l), __CPROVER_uninterpreted_tet_fz (i, l) }; r.type = (int8_t) r.type; return r; }
V_INLINE V_pyra pyra_fromu (u64 i, int l) { V_pyra r = { l, __CPROVER_uninterpreted_pyra_ft (i, l), __CPROVER_uninterpreted_pyra_fx (i, l), __CPROVER_uninterpreted_pyra_fy (i, l), __CPROVER_uninterpreted_pyra_fz (i, l), __CPROVER_uninterpreted_pyra_fs (i, l) }; r.type = (int8_t) r.type; r.sw = (int8_t) r.sw; return r; }
#else
#define tri_lidu tri_lid
#define tet_lidu tet_lid
#define prism_lidu prism_lid
#define pyra_lidu pyra_lid
#define svertex_lidu svertex_lid
#define sline_lidu sline_lid
#define squad_lidu squad_lid
#define shex_lidu shex_lid
#define tri_fromu tri_from
#define tet_fromu tet_from
#define pyra_fromu pyra_from
#endif
#define line_lidu line_lid
#define quad_lidu quad_lid
#define hex_lidu hex_lid
/* descendants by their indices (equal to desc: lemma.descendants) */
#define DESCU(P, D) V_INLINE V_##P P##_descu (V_##P e, int l, int last) \
  { return P##_fromu (last ? (P##_lidu (e, e.level) << (D * (l - e.level))) | (((u64) 1 << (D * (l - e.level))) - 1) : P##_lidu (e, l), l); }
DESCU (tri, 2)
DESCU (tet, 3)
V_INLINE V_pyra pyra_descu (V_pyra e, int l, int last)
{
  if (e.type < 6) return pyra_fromu (pyra_lidu (e, l) + (last ? ((u64) 1 << (3 * (l - e.level))) - 1 : 0), l);
  int32_t o = last ? pyra_len (e.level) - pyra_len (l) : 0;
  e.x += o; e.y += o; e.z += o;
  e.level = l;
  return e;
}
#define CDESCU(P, D) V_INLINE V_##P P##_descu (V_##P e, int l, int last) \
  { int32_t o = last ? P##_len (e.level) - P##_len (l) : 0; for (int i = 0; i < D; i++) P##_st (&e, i, P##_co (e, i) + o); e.level = l; return e; }
CDESCU (line, 1)
CDESCU (quad, 2)
CDESCU (hex, 3)
CDESCU (sline, 1)
CDESCU (squad, 2)
CDESCU (shex, 3)
V_INLINE V_prism prism_descu (V_prism e, int l, int last) { e.tri = tri_descu (e.tri, l, last); e.line = line_descu (e.line, l, last); return e; }
V_INLINE V_vertex vertex_descu (V_vertex e, int l, int last) { e.level = l; return e; }
V_INLINE V_svertex svertex_descu (V_svertex e, int l, int last) { e.level = l; return e; }
/* children, as unknown functions */
#ifdef V_UF
int __CPROVER_uninterpreted_line_cx (int, int, int);
V_INLINE V_line line_childu (V_line e, int k) { V_line r; r.level = e.level + 1; r.x = __CPROVER_uninterpreted_line_cx (e.level, e.x, k); return r; }
int __CPROVER_uninterpreted_quad_cx (int, int, int, int); int __CPROVER_uninterpreted_quad_cy (int, int, int, int);
V_INLINE V_quad quad_childu (V_quad e, int k) { V_quad r; r.level = e.level + 1; r.x = __CPROVER_uninterpreted_quad_cx (e.level, e.x, e.y, k); r.y = __CPROVER_uninterpreted_quad_cy (e.level, e.x, e.y, k); return r; }
int __CPROVER_uninterpreted_hex_cx (int, int, int, int, int); int __CPROVER_uninterpreted_hex_cy (int, int, int, int, int); int __CPROVER_uninterpreted_hex_cz (int, int, int, int, int);
V_INLINE V_hex hex_childu (V_hex e, int k) { V_hex r; r.level = e.level + 1; r.x = __CPROVER_uninterpreted_hex_cx (e.level, e.x, e.y, e.z, k); r.y = __CPROVER_uninterpreted_hex_cy (e.level, e.x, e.y, e.z, k); r.z = __CPROVER_uninterpreted_hex_cz (e.level, e.x, e.y, e.z, k); return r; }
int __CPROVER_uninterpreted_tri_ctype (int, int, int, int, int); int __CPROVER_uninterpreted_tri_cx (int, int, int, int, int); int __CPROVER_uninterpreted_tri_cy (int, int, int, int, int);
V_INLINE V_tri tri_childu (V_tri e, int k) { V_tri r; r.level = e.level + 1; r.type = (int8_t) __CPROVER_uninterpreted_tri_ctype (e.level, e.type, e.x, e.y, k); r.x = __CPROVER_uninterpreted_tri_cx (e.level, e.type, e.x, e.y, k); r.y = __CPROVER_uninterpreted_tri_cy (e.level, e.type, e.x, e.y, k); return r; }
int __CPROVER_uninterpreted_tet_ctype (int, int, int, int, int, int); int __CPROVER_uninterpreted_tet_cx (int, int, int, int, int, int); int __CPROVER_uninterpreted_tet_cy (int, int, int, int, int, int); int __CPROVER_uninterpreted_tet_cz (int, int, int, int, int, int);
V_INLINE V_tet tet_childu (V_tet e, int k) { V_tet r; r.level = e.level + 1; r.type = (int8_t) __CPROVER_uninterpreted_tet_ctype (e.level, e.type, e.x, e.y, e.z, k); r.x = __CPROVER_uninterpreted_tet_cx (e.level, e.type, e.x, e.y, e.z, k); r.y = __CPROVER_uninterpreted_tet_cy (e.level, e.type, e.x, e.y, e.z, k); r.z = __CPROVER_uninterpreted_tet_cz (e.level, e.type, e.x, e.y, e.z, k); return r; }
int __CPROVER_uninterpreted_pyra_ctype (int, int, int, int, int, int, int); int __CPROVER_uninterpreted_pyra_cx (int, int, int, int, int, int, int); int __CPROVER_uninterpreted_pyra_cy (int, int, int, int, int, int, int); int __CPROVER_uninterpreted_pyra_cz (int, int, int, int, int, int, int); int __CPROVER_uninterpreted_pyra_csw (int, int, int, int, int, int, int);
V_INLINE V_pyra pyra_childu (V_pyra e, int k) { V_pyra r; r.level = e.level + 1; if (e.type < 6) { V_tet t = { e.level, e.type, e.x, e.y, e.z }; t = tet_childu (t, k); r.type = t.type; r.x = t.x; r.y = t.y; r.z = t.z; r.sw = e.sw; return r; } r.type = (int8_t) __CPROVER_uninterpreted_pyra_ctype (e.level, e.type, e.x, e.y, e.z, e.sw, k); r.x = __CPROVER_uninterpreted_pyra_cx (e.level, e.type, e.x, e.y, e.z, e.sw, k); r.y = __CPROVER_uninterpreted_pyra_cy (e.level, e.type, e.x, e.y, e.z, e.sw, k); r.z = __CPROVER_uninterpreted_pyra_cz (e.level, e.type, e.x, e.y, e.z, e.sw, k); r.sw = (int8_t) __CPROVER_uninterpreted_pyra_csw (e.level, e.type, e.x, e.y, e.z, e.sw, k); return r; }
int __CPROVER_uninterpreted_sline_cx (int, int, int);
V_INLINE V_sline sline_childu (V_sline e, int k) { V_sline r; r.level = e.level + 1; r.x = __CPROVER_uninterpreted_sline_cx (e.level, e.x, k); return r; }
int __CPROVER_uninterpreted_squad_cx (int, int, int, int); int __CPROVER_uninterpreted_squad_cy (int, int, int, int);
V_INLINE V_squad squad_childu (V_squad e, int k) { V_squad r; r.level = e.level + 1; r.x = __CPROVER_uninterpreted_squad_cx (e.level, e.x, e.y, k); r.y = __CPROVER_uninterpreted_squad_cy (e.level, e.x, e.y, k); return r; }
int __CPROVER_uninterpreted_shex_cx (int, int, int, int, int); int __CPROVER_uninterpreted_shex_cy (int, int, int, int, int); int __CPROVER_uninterpreted_shex_cz (int, int, int, int, int);
V_INLINE V_shex shex_childu (V_shex e, int k) { V_shex r; r.level = e.level + 1; r.x = __CPROVER_uninterpreted_shex_cx (e.level, e.x, e.y, e.z, k); r.y = __CPROVER_uninterpreted_shex_cy (e.level, e.x, e.y, e.z, k); r.z = __CPROVER_uninterpreted_shex_cz (e.level, e.x, e.y, e.z, k); return r; }
V_INLINE V_prism prism_childu (V_prism e, int k) { V_prism r; r.line = line_childu (e.line, k / 4); r.tri = tri_childu (e.tri, k % 4); return r; }
#else
#define line_childu line_child
#define quad_childu quad_child
#define hex_childu hex_child
#define tri_childu tri_child
#define tet_childu tet_child
#define pyra_childu pyra_child
#define sline_childu sline_child
#define squad_childu squad_child
#define shex_childu shex_child
#define prism_childu prism_child
#endif
/* type of the ancestor at a level, as a function known only by its recursion (tyax) */
#ifdef V_UF
int __CPROVER_uninterpreted_tri_ty (int, int, int, int, int);
int __CPROVER_uninterpreted_tet_ty (int, int, int, int, int, int);
V_INLINE int tri_tyu (V_tri e, int l) { return (int8_t) __CPROVER_uninterpreted_tri_ty (e.level, e.type, e.x, e.y, l); }
V_INLINE int tet_tyu (V_tet e, int l) { return (int8_t) __CPROVER_uninterpreted_tet_ty (e.level, e.type, e.x, e.y, e.z, l); }
#define TYAX(P, NT, ML) V_INLINE bool P##_tyax (V_##P e) \
  { bool r = P##_tyu (e, e.level) == e.type && P##_tyu (e, 0) == 0; \
    for (int l = ML; l >= 1; l--) if (l <= e.level) { int b = P##_tyu (e, l); r = r && b >= 0 && b < NT && P##_tyu (e, l - 1) == P##_PT[P##_cube (e, l)][b < 0 || b >= NT ? 0 : b]; } \
    return r; }
#else
#define tri_tyu tri_type_at
#define tet_tyu tet_type_at
#define TYAX(P, NT, ML) V_INLINE bool P##_tyax (V_##P e) { return true; }
#endif
TYAX (tri, 2, 29)
TYAX (tet, 6, 21)
V_INLINE bool prism_tyax (V_prism e) { return tri_tyax (e.tri); }
#define STYU(P, D, NT, ML) \
  V_INLINE V_##P P##_ancu (V_##P e, int l) { V_##P r = e; r.level = l; r.type = P##_tyu (e, l); for (int i = 0; i < D; i++) P##_st (&r, i, P##_co (e, i) & ~(P##_len (l) - 1)); return r; } \
  V_INLINE V_##P P##_succu_ (V_##P e, bool *end) /* succ, with the types of the ancestors from tyu */ \
  { \
    int L = e.level, u = 0, k[ML + 1]; \
    V_##P r = { 0 }; \
    for (int l = ML; l >= 1; l--) \
      if (l <= L) { \
        int p = P##_tyu (e, l - 1); p = p < 0 || p >= NT ? 0 : p; \
        int b = P##_tyu (e, l); b = b < 0 || b >= NT ? 0 : b; \
        k[l] = P##_RK[p][P##_cube (e, l)][b]; \
        if (u == 0 && k[l] != (1 << D) - 1) u = l; \
      } \
    *end = u == 0; if (u > 0) { r = P##_child (P##_ancu (e, u - 1), k[u] + 1); } \
    r.level = L; /* first descendant: same anchor and type */ \
    return r; \
  }
#define ENDU(P) V_INLINE V_##P P##_succu (V_##P e) { bool x; return P##_succu_ (e, &x); } V_INLINE bool P##_endu (V_##P e) { bool x; P##_succu_ (e, &x); return x; }
STYU (tri, 2, 2, 29)
STYU (tet, 3, 6, 21)
V_INLINE V_prism prism_succu_ (V_prism e, bool *end)
{
  int L = e.line.level, u = 0, k[22];
  V_prism r = { 0 };
  for (int l = 21; l >= 1; l--)
    if (l <= L) {
      int p = tri_tyu (e.tri, l - 1); p = p < 0 || p >= 2 ? 0 : p;
      int b = tri_tyu (e.tri, l); b = b < 0 || b >= 2 ? 0 : b;
      k[l] = tri_RK[p][tri_cube (e.tri, l)][b] + 4 * line_cid_at (e.line, l);
      if (u == 0 && k[l] != 7) u = l;
    }
  *end = u == 0;
  if (u > 0) { r.tri = tri_ancu (e.tri, u - 1); r.line = line_anc (e.line, u - 1); r = prism_child (r, k[u] + 1); }
  r.tri.level = r.line.level = L;
  return r;
}
ENDU (tri)
ENDU (tet)
ENDU (prism)
/* ---------------- order, ancestors, families (all shapes) ---------------- */
#define ORDER(P, NCH, ML)                                                                                     \
  /* sign of the comparison along the curve: by index at the finer level, coarser element first */            \
  V_INLINE int P##_cmp (V_##P a, V_##P b)                                                                     \
  {                                                                                                           \
    int la = P##_level (a), lb = P##_level (b), m = la > lb ? la : lb;                                        \
    u64 i = P##_lidu (a, m), j = P##_lidu (b, m);                                                             \
    return i < j ? -1 : i > j ? 1 : la < lb ? -1 : la > lb ? 1 : 0;                                           \
  }                                                                                                           \
  V_INLINE bool P##_islast (V_##P e) { return P##_cid (e) == P##_nchild (P##_parent (e)) - 1; }               \
  /* next element of the same level: the child indices of the ancestors, incremented like a number */         \
  V_INLINE V_##P P##_succ_ (V_##P e, bool *end)                                                               \
  {                                                                                                           \
    int L = P##_level (e), k[ML + 1], u = 0;                                                                  \
    V_##P a = e, r = P##_root ();                                                                             \
    for (int l = ML; l >= 1; l--)                                                                             \
      if (l <= L) {                                                                                           \
        V_##P q = P##_parent (a);                                                                             \
        k[l] = P##_cid (a);                                                                                   \
        if (u == 0 && k[l] != P##_nchild (q) - 1) u = l;                                                      \
        a = q;                                                                                                \
      }                                                                                                       \
    *end = u == 0;                                                                                            \
    for (int l = 1; l <= ML; l++)                                                                             \
      if (l <= L) r = P##_child (r, l < u ? k[l] : l == u ? k[l] + 1 : 0);                                    \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE V_##P P##_succ (V_##P e) { bool x; return P##_succ_ (e, &x); }                                     \
  V_INLINE bool P##_end (V_##P e) { bool x; P##_succ_ (e, &x); return x; }                                    \
  V_INLINE V_##P P##_desc (V_##P e, int level, int last)                                                      \
  {                                                                                                           \
    for (int l = 0; l < ML; l++)                                                                              \
      if (P##_level (e) < level) e = P##_child (e, last ? P##_nchild (e) - 1 : 0);                            \
    return e;                                                                                                 \
  }                                                                                                           \
  /* is a an ancestor of b (or b itself) */                                                                   \
  V_INLINE bool P##_isanc (V_##P a, V_##P b) { return P##_level (a) <= P##_level (b) && P##_eq (P##_anc (b, P##_level (a)), a); } \
  V_INLINE bool P##_family (V_##P *f)                                                                         \
  {                                                                                                           \
    if (P##_level (f[0]) == 0) return false;                                                                  \
    V_##P p = P##_parent (f[0]);                                                                              \
    bool r = true;                                                                                            \
    for (int i = 0; i < NCH; i++)                                                                             \
      if (i < P##_nchild (p)) r = r && P##_eqx (f[i], P##_child (p, i));                                      \
    return r;                                                                                                 \
  }
#define PORDER(P)                                                                                             \
  V_INLINE int P##_cmp (V_##P a, V_##P b) { return a.level < b.level ? -1 : a.level > b.level ? 1 : 0; }      \
  V_INLINE V_##P P##_desc (V_##P e, int level, int last) { (void) last; e.level = level; return e; }          \
  V_INLINE bool P##_isanc (V_##P a, V_##P b) { return a.level <= b.level; }                                   \
  V_INLINE bool P##_family (V_##P *f) { return f[0].level > 0; }
PORDER (vertex)
PORDER (svertex)
ORDER (line, 2, 30)
ORDER (quad, 4, 29)
ORDER (hex, 8, HEX_ML)
ORDER (tri, 4, 29)
ORDER (tet, 8, 21)
ORDER (prism, 8, 21)
V_INLINE bool prism_ganc (V_prism a, V_prism b) { return line_isanc (a.line, b.line) && tri_ganc (a.tri, b.tri); }
#define line_ganc line_isanc
#define quad_ganc quad_isanc
#define hex_ganc hex_isanc
#define sline_ganc sline_isanc
#define squad_ganc squad_isanc
#define shex_ganc shex_isanc
#define pyra_ganc pyra_isanc
#define vertex_ganc vertex_isanc
#define svertex_ganc svertex_isanc
ORDER (pyra, 10, 21)
ORDER (sline, 2, 30)
ORDER (squad, 4, 30)
ORDER (shex, 8, 21)
#endif
