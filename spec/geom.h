/* Geometry of elements and faces: vertices, faces, root faces, face embeddings (specification). */
#ifndef V_GEOM_H
#define V_GEOM_H
#include "spec.h"
/* per shape: nv, nf: number of vertices, faces; vx(e,v,a): coordinate a of vertex v; nfv, fv: vertices of a face;
 * nrf: faces of the root; on(rf,x,y,z): does a point of the root's cube lie in root face rf;
 * pf(e,k,g): face of e that contains face g of child k, -1 if none; R(a): log2 of the root length along axis a */
#define CUBEG(P, D, SC)                                                                                       \
  V_INLINE int P##_nv (V_##P e) { (void) e; return 1 << D; }                                                  \
  V_INLINE int P##_nf (V_##P e) { (void) e; return 2 * D; }                                                   \
  V_INLINE int P##_R (int a) { (void) a; return SC; }                                                         \
  V_INLINE i64 P##_vx (V_##P e, int v, int a) { return a >= D ? 0 : (i64) P##_co (e, a) + ((v >> a) & 1 ? P##_len (e.level) : 0); } \
  V_INLINE int P##_nfv (V_##P e, int f) { (void) e; (void) f; return 1 << (D - 1); }                          \
  V_INLINE int P##_fv (V_##P e, int f, int k) { (void) e; int a = f >> 1; return (k & ((1 << a) - 1)) | ((f & 1) << a) | ((k >> a) << (a + 1)); } \
  V_INLINE bool P##_on (int rf, i64 x, i64 y, i64 z) { i64 c = rf < 2 ? x : rf < 4 ? y : z; return c == (rf & 1 ? (i64) 1 << SC : 0); } \
  V_INLINE int P##_pf (V_##P e, int k, int g) { (void) e; return ((k >> (g >> 1)) & 1) == (g & 1) ? g : -1; }
CUBEG (line, 1, 30)
CUBEG (quad, 2, 30)
CUBEG (hex, 3, 30)
CUBEG (sline, 1, 30)
CUBEG (squad, 2, 30)
CUBEG (shex, 3, 21)
#define SIMPG(P, D, SC)                                                                                       \
  V_INLINE int P##_nv (V_##P e) { (void) e; return D + 1; }                                                   \
  V_INLINE int P##_nf (V_##P e) { (void) e; return D + 1; }                                                   \
  V_INLINE int P##_R (int a) { (void) a; return SC; }                                                         \
  V_INLINE i64 P##_vx (V_##P e, int v, int a) { return a >= D ? 0 : (i64) P##_co (e, a) + (P##_VX[e.type][v][a] ? P##_len (e.level) : 0); } \
  V_INLINE int P##_nfv (V_##P e, int f) { (void) e; (void) f; return D; }                                     \
  V_INLINE int P##_fv (V_##P e, int f, int k) { (void) e; return k < f ? k : k + 1; }                         \
  V_INLINE int P##_pf (V_##P e, int k, int g) { return P##_PF[e.type][k][g]; }
SIMPG (tri, 2, 29)
SIMPG (tet, 3, 21)
V_INLINE bool tri_on (int rf, i64 x, i64 y, i64 z) { (void) z; return rf == 0 ? x == (i64) 1 << 29 : rf == 1 ? x == y : y == 0; }
V_INLINE bool tet_on (int rf, i64 x, i64 y, i64 z) { return rf == 0 ? x == (i64) 1 << 21 : rf == 1 ? x == z : rf == 2 ? z == y : y == 0; }
/* prism: axes 0,1 in triangle units (root 2^29), axis 2 in line units (root 2^30) */
static const int8_t prism_FV[5][4] = { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 0, 1, 2, -1 }, { 3, 4, 5, -1 } };
V_INLINE int prism_nv (V_prism e) { (void) e; return 6; }
V_INLINE int prism_nf (V_prism e) { (void) e; return 5; }
V_INLINE int prism_R (int a) { return a < 2 ? 29 : 30; }
V_INLINE i64 prism_vx (V_prism e, int v, int a) { return a < 2 ? tri_vx (e.tri, v < 3 ? v : v - 3, a) : line_vx (e.line, v < 3 ? 0 : 1, 0); }
V_INLINE int prism_nfv (V_prism e, int f) { (void) e; return f < 3 ? 4 : 3; }
V_INLINE int prism_fv (V_prism e, int f, int k) { (void) e; return prism_FV[f][k]; }
V_INLINE bool prism_on (int rf, i64 x, i64 y, i64 z) { return rf < 3 ? tri_on (rf, x, y, 0) : line_on (rf - 3, z, 0, 0); }
V_INLINE int prism_pf (V_prism e, int k, int g)
{
  if (g < 3) return tri_pf (e.tri, k & 3, g);
  return line_pf (e.line, k >> 2, g - 3) < 0 ? -1 : g;
}
/* pyramid */
V_INLINE int pyra_nv (V_pyra e) { return e.type >= 6 ? 5 : 4; }
V_INLINE int pyra_nf (V_pyra e) { return e.type >= 6 ? 5 : 4; }
V_INLINE int pyra_R (int a) { (void) a; return 21; }
V_INLINE i64 pyra_vx (V_pyra e, int v, int a)
{
  int c = a == 0 ? e.x : a == 1 ? e.y : e.z;
  int o = e.type >= 6 ? pyra_VX[e.type - 6][v][a] : tet_VX[e.type][v][a];
  return (i64) c + (o ? pyra_len (e.level) : 0);
}
V_INLINE int pyra_nfv (V_pyra e, int f) { return e.type >= 6 && f == 4 ? 4 : 3; }
V_INLINE int pyra_fv (V_pyra e, int f, int k) { return e.type >= 6 ? pyra_FV[e.type - 6][f][k] : k < f ? k : k + 1; }
V_INLINE bool pyra_on (int rf, i64 x, i64 y, i64 z)
{
  i64 r = (i64) 1 << 21;
  return rf == 0 ? x == z : rf == 1 ? x == r : rf == 2 ? y == z : rf == 3 ? y == r : z == 0;
}
V_INLINE int pyra_pf (V_pyra e, int k, int g) { return e.type >= 6 ? pyra_PF[e.type - 6][k][g] : tet_PF[e.type][k][g]; }

/* derived notions */
#define GEOM(P, NRF, NFV, NCH, NF, ML, KFT, KTY)                                                                        \
  V_INLINE bool P##_pteq (V_##P e, int v, V_##P g, int w)                                                     \
  {                                                                                                           \
    return P##_vx (e, v, 0) == P##_vx (g, w, 0) && P##_vx (e, v, 1) == P##_vx (g, w, 1) && P##_vx (e, v, 2) == P##_vx (g, w, 2); \
  }                                                                                                           \
  V_INLINE bool P##_facein (V_##P e, int f, V_##P g, int h)                                                   \
  {                                                                                                           \
    bool r = true;                                                                                            \
    for (int k = 0; k < NFV; k++)                                                                             \
      if (k < P##_nfv (e, f)) {                                                                               \
        bool s = false;                                                                                       \
        for (int j = 0; j < NFV; j++)                                                                         \
          if (j < P##_nfv (g, h)) s = s || P##_pteq (e, P##_fv (e, f, k), g, P##_fv (g, h, j));               \
        r = r && s;                                                                                           \
      }                                                                                                       \
    return r;                                                                                                 \
  }                                                                                                           \
  /* face f of e and face h of g are the same set of points */                                                \
  V_INLINE bool P##_share (V_##P e, int f, V_##P g, int h) { return P##_nfv (e, f) == P##_nfv (g, h) && P##_facein (e, f, g, h) && P##_facein (g, h, e, f); } \
  V_INLINE bool P##_onface (V_##P e, int f, int rf)                                                           \
  {                                                                                                           \
    bool r = true;                                                                                            \
    for (int k = 0; k < NFV; k++)                                                                             \
      if (k < P##_nfv (e, f)) {                                                                               \
        int v = P##_fv (e, f, k);                                                                             \
        r = r && P##_on (rf, P##_vx (e, v, 0), P##_vx (e, v, 1), P##_vx (e, v, 2));                           \
      }                                                                                                       \
    return r;                                                                                                 \
  }                                                                                                           \
  /* the root face that contains face f of e, -1 if none */                                                   \
  V_INLINE int P##_rootface (V_##P e, int f)                                                                  \
  {                                                                                                           \
    int r = -1;                                                                                               \
    for (int i = 0; i < NRF; i++)                                                                             \
      if (P##_onface (e, f, i)) r = i;                                                                        \
    return r;                                                                                                 \
  }                                                                                                           \
  V_INLINE int P##_kidface (V_##P e, int f, int k) { return KFT##_KF[KTY][f][k]; } /* the face of child k that lies in face f, -1 if none */ \
  V_INLINE int P##_nfch (V_##P e, int f) { return KFT##_NC[KTY][f]; } /* number of children at face f */      \
  V_INLINE int P##_fch (V_##P e, int f, int i) { return i < 0 ? -1 : KFT##_FC[KTY][f][i]; } /* child id of the i-th child at face f */ \
  /* first/last descendant at 'level' with a face inside face f of e */                                       \
  V_INLINE V_##P P##_fdesc (V_##P e, int f, int level, int last)                                              \
  {                                                                                                           \
    for (int l = 0; l < ML; l++)                                                                              \
      if (P##_level (e) < level) {                                                                            \
        int k = P##_fch (e, f, last ? P##_nfch (e, f) - 1 : 0), g = P##_kidface (e, f, k);                    \
        e = P##_child (e, k);                                                                                 \
        f = g;                                                                                                \
      }                                                                                                       \
    return e;                                                                                                 \
  }
/* index of that descendant, for shapes with 2^D children per element */
#define FDID(P, D, ML)                                                                                        \
  V_INLINE u64 P##_fdid (V_##P e, int f, int level, int last)                                                 \
  {                                                                                                           \
    u64 id = P##_lidu (e, e.level);                                                                           \
    for (int l = 0; l < ML; l++)                                                                              \
      if (e.level < level) {                                                                                  \
        int k = P##_fch (e, f, last ? P##_nfch (e, f) - 1 : 0);                                               \
        f = P##_kidface (e, f, k);                                                                            \
        e.type = P##_child (e, k).type;                                                                       \
        e.level++;                                                                                            \
        id = id << D | (u64) k;                                                                               \
      }                                                                                                       \
    return id;                                                                                                \
  }
GEOM (line, 2, 1, 2, 2, 30, line, 0)
GEOM (quad, 4, 2, 4, 4, 29, quad, 0)
GEOM (hex, 6, 4, 8, 6, 18, hex, 0)
GEOM (tri, 3, 2, 4, 3, 29, tri, e.type)
GEOM (tet, 4, 3, 8, 4, 21, tet, e.type)
GEOM (prism, 5, 4, 8, 5, 21, prism, e.tri.type)
GEOM (pyra, 5, 4, 10, 5, 21, pyra, e.type)
GEOM (sline, 2, 1, 2, 2, 30, line, 0)
GEOM (squad, 4, 2, 4, 4, 30, quad, 0)
GEOM (shex, 6, 4, 8, 6, 21, hex, 0)
FDID (tri, 2, 29)
FDID (tet, 3, 21)
/* index of the first descendant (lemma.lid_shift) */
V_INLINE bool tri_lidax (V_tri e, int l) { return tri_lidu (e, l) == tri_lidu (e, e.level) << 2 * (l - e.level) && tri_lidu (e, e.level) < (u64) 1 << 2 * e.level; }
V_INLINE bool tet_lidax (V_tet e, int l) { return tet_lidu (e, l) == tet_lidu (e, e.level) << 3 * (l - e.level) && tet_lidu (e, e.level) < (u64) 1 << 3 * e.level; }
V_INLINE bool prism_lidax (V_prism e, int l) { return tri_lidax (e.tri, l); }
V_INLINE V_tri tri_fdu (V_tri e, int f, int l, int last) { return tri_fromu (tri_fdid (e, f, l, last), l); }
V_INLINE V_tet tet_fdu (V_tet e, int f, int l, int last) { return tet_fromu (tet_fdid (e, f, l, last), l); }
V_INLINE V_prism prism_fdu (V_prism e, int f, int l, int last)
{
  V_prism r;
  r.tri = f < 3 ? tri_fdu (e.tri, f, l, last) : tri_descu (e.tri, l, last);
  r.line = line_descu (e.line, l, f < 3 ? last : f == 4);
  return r;
}

/* Embedding of face rf's reference element in the root: point (x, y) of the face's class (root length 2^FR)
 * -> coordinate a.  tri: V0 + x (V1-V0) + y (V2-V1); others: V0 + x (V1-V0) + y (V2-V0) */
V_INLINE i64 v_scale (i64 x, int from, int to) { return to >= from ? x << (to - from) : x >> (from - to); }
#define EMBED(P)                                                                                              \
  V_INLINE i64 P##_emb (int rf, int tri, int FR, i64 x, i64 y, int a)                                         \
  {                                                                                                           \
    V_##P r = P##_root ();                                                                                    \
    i64 v0 = P##_vx (r, P##_fv (r, rf, 0), a), v1, v2, w;                                                     \
    i64 c = v0;                                                                                               \
    int n = P##_nfv (r, rf);                                                                                  \
    if (n >= 2) { v1 = P##_vx (r, P##_fv (r, rf, 1), a); c += v1 > v0 ? v_scale (x, FR, P##_R (a)) : v1 < v0 ? -v_scale (x, FR, P##_R (a)) : 0; } \
    if (n >= 3) { v2 = P##_vx (r, P##_fv (r, rf, 2), a); w = tri ? v1 : v0; c += v2 > w ? v_scale (y, FR, P##_R (a)) : v2 < w ? -v_scale (y, FR, P##_R (a)) : 0; } \
    return c;                                                                                                 \
  }
EMBED (line)
EMBED (quad)
EMBED (hex)
EMBED (tri)
EMBED (tet)
EMBED (prism)
EMBED (pyra)
EMBED (sline)
EMBED (squad)
EMBED (shex)
/* face element b (class B) of root face rf is face f of e */
#define BOUND(P, B, T, FR, NFV)                                                                               \
  V_INLINE bool P##_##B##_bound (V_##P e, int f, int rf, V_##B b)                                             \
  {                                                                                                           \
    bool r = P##_level (e) == B##_level (b) && P##_nfv (e, f) == B##_nv (b);                                  \
    for (int k = 0; k < NFV; k++)                                                                             \
      if (k < P##_nfv (e, f)) {                                                                               \
        bool s = false;                                                                                       \
        int v = P##_fv (e, f, k);                                                                             \
        for (int j = 0; j < NFV; j++)                                                                         \
          if (j < B##_nv (b)) {                                                                               \
            i64 x = B##_vx (b, j, 0), y = B##_vx (b, j, 1);                                                   \
            s = s || (P##_vx (e, v, 0) == P##_emb (rf, T, FR, x, y, 0) && P##_vx (e, v, 1) == P##_emb (rf, T, FR, x, y, 1) \
                      && P##_vx (e, v, 2) == P##_emb (rf, T, FR, x, y, 2));                                   \
          }                                                                                                   \
        r = r && s;                                                                                           \
      }                                                                                                       \
    return r;                                                                                                 \
  }
BOUND (quad, line, 0, 30, 2)
BOUND (tri, line, 0, 30, 2)
BOUND (hex, quad, 0, 30, 4)
BOUND (tet, tri, 1, 29, 3)
BOUND (prism, quad, 0, 30, 4)
BOUND (prism, tri, 1, 29, 3)
BOUND (pyra, quad, 0, 30, 4)
BOUND (pyra, tri, 1, 29, 3)
BOUND (squad, sline, 0, 30, 2)
BOUND (shex, squad, 0, 30, 4)
/* symmetries of the reference faces.  M(o,s): the affine symmetry with v0 -> v_o that preserves (s=0) or
 * reverses (s=1) orientation; inv: its inverse.  Result: the vertex onto which vertex v is mapped */
V_INLINE int quad_sym1 (int o, int s, int v)
{
  int x = v & 1, y = v >> 1, t;
  if (s) { t = x; x = y; y = t; }
  switch (o) {
  case 0: break;
  case 1: t = x; x = 1 - y; y = t; break;
  case 2: t = x; x = y; y = 1 - t; break;
  default: x = 1 - x; y = 1 - y;
  }
  return x | y << 1;
}
V_INLINE int tri_sym1 (int o, int s, int v)
{
  if (s && v) v = 3 - v;
  v += o;
  return v >= 3 ? v - 3 : v;
}
V_INLINE int line_sym1 (int o, int s, int v) { (void) s; return o ? 1 - v : v; }
/* affine image of a point of the root under the symmetry (or its inverse), coordinate a; the symmetry is given by the images of the root's vertices */
V_INLINE i64 quad_symc (int o, int s, int inv, i64 x, i64 y, int a)
{
  i64 R = (i64) 1 << 30;
  int i0 = 0, i1 = 0, i2 = 0;
  for (int v = 0; v < 4; v++) {
    int w = quad_sym1 (o, s, v);
    if (inv ? w == 0 : v == 0) i0 = inv ? v : w;
    if (inv ? w == 1 : v == 1) i1 = inv ? v : w;
    if (inv ? w == 2 : v == 2) i2 = inv ? v : w;
  }
  i64 c0 = (i0 >> a) & 1, c1 = (i1 >> a) & 1, c2 = (i2 >> a) & 1;
  return (c0 ? R : 0) + (c1 > c0 ? x : c1 < c0 ? -x : 0) + (c2 > c0 ? y : c2 < c0 ? -y : 0);
}
V_INLINE i64 tri_symc (int o, int s, int inv, i64 x, i64 y, int a)
{
  i64 R = (i64) 1 << 29;
  int i0 = 0, i1 = 0, i2 = 0;
  for (int v = 0; v < 3; v++) {
    int w = tri_sym1 (o, s, v);
    if (inv ? w == 0 : v == 0) i0 = inv ? v : w;
    if (inv ? w == 1 : v == 1) i1 = inv ? v : w;
    if (inv ? w == 2 : v == 2) i2 = inv ? v : w;
  }
  i64 c0 = tri_VX[0][i0][a], c1 = tri_VX[0][i1][a], c2 = tri_VX[0][i2][a];
  return (c0 ? R : 0) + (c1 > c0 ? x : c1 < c0 ? -x : 0) + (c2 > c1 ? y : c2 < c1 ? -y : 0);
}
V_INLINE i64 line_symc (int o, int s, int inv, i64 x, i64 y, int a)
{
  (void) s; (void) inv; (void) y; (void) a;
  return o ? ((i64) 1 << 30) - x : x;
}
#define SYM(P, NV)                                                                                            \
  /* g is the image of e */                                                                                   \
  V_INLINE bool P##_image (V_##P e, V_##P g, int o, int s, int inv)                                           \
  {                                                                                                           \
    bool r = e.level == g.level;                                                                              \
    for (int k = 0; k < NV; k++) {                                                                            \
      bool t = false;                                                                                         \
      i64 x = P##_vx (e, k, 0), y = P##_vx (e, k, 1), x2 = P##_symc (o, s, inv, x, y, 0), y2 = NV > 2 ? P##_symc (o, s, inv, x, y, 1) : 0; \
      for (int j = 0; j < NV; j++) t = t || (P##_vx (g, j, 0) == x2 && P##_vx (g, j, 1) == y2);               \
      r = r && t;                                                                                             \
    }                                                                                                         \
    return r;                                                                                                 \
  }
SYM (line, 2)
SYM (quad, 4)
SYM (tri, 3)
#endif
