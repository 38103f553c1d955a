// Support for the generated bridge: one extern "C" function per contract that calls the real
// t8code function.  No logic besides converting between the abstract view and the real struct.
#ifndef V_BRIDGE_HXX
#define V_BRIDGE_HXX
#include <cstdint>
#include <cstddef>
#include "view.h"
#ifdef V_SCHEMES
#include <t8.h>
#include <t8_schemes/t8_scheme.hxx>
#include <t8_schemes/t8_default/t8_default_vertex/t8_default_vertex.hxx>
#include <t8_schemes/t8_default/t8_default_vertex/t8_dvertex.h>
#include <t8_schemes/t8_default/t8_default_line/t8_default_line.hxx>
#include <t8_schemes/t8_default/t8_default_line/t8_dline.h>
#include <t8_schemes/t8_default/t8_default_quad/t8_default_quad.hxx>
#include <t8_schemes/t8_default/t8_default_hex/t8_default_hex.hxx>
#include <t8_schemes/t8_default/t8_default_tri/t8_default_tri.hxx>
#include <t8_schemes/t8_default/t8_default_tri/t8_dtri.h>
#include <t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.h>
#include <t8_schemes/t8_default/t8_default_tet/t8_default_tet.hxx>
#include <t8_schemes/t8_default/t8_default_tet/t8_dtet.h>
#include <t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.h>
#include <t8_schemes/t8_default/t8_default_prism/t8_default_prism.hxx>
#include <t8_schemes/t8_default/t8_default_prism/t8_dprism.h>
#include <t8_schemes/t8_default/t8_default_pyramid/t8_default_pyramid.hxx>
#include <t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid.h>
#include <t8_schemes/t8_standalone/t8_standalone_implementation.hxx>

template <class V> struct Tr;
#define TR(Vt, Rt, St, TO, FROM, SAME)                                  \
  template <> struct Tr<Vt> {                                           \
    using R = Rt;                                                       \
    using S = St;                                                       \
    static void to (const Vt &v, R &r) { TO }                           \
    static void from (const R &r, Vt &v) { FROM }                       \
    static bool same (const Vt &a, const Vt &b) { return SAME; }        \
  };
TR (V_vertex, t8_dvertex_t, t8_default_scheme_vertex, r.level = v.level;, v.level = r.level;, a.level == b.level)
TR (V_line, t8_dline_t, t8_default_scheme_line, r.level = v.level; r.x = v.x;, v.level = r.level; v.x = r.x;, a.level == b.level && a.x == b.x)
TR (V_quad, p4est_quadrant_t, t8_default_scheme_quad, r.level = v.level; r.x = v.x; r.y = v.y;, v.level = r.level; v.x = r.x; v.y = r.y;
    , a.level == b.level && a.x == b.x && a.y == b.y)
TR (V_hex, p8est_quadrant_t, t8_default_scheme_hex, r.level = v.level; r.x = v.x; r.y = v.y; r.z = v.z;
    , v.level = r.level; v.x = r.x; v.y = r.y; v.z = r.z;, a.level == b.level && a.x == b.x && a.y == b.y && a.z == b.z)
TR (V_tri, t8_dtri_t, t8_default_scheme_tri, r.level = v.level; r.type = v.type; r.x = v.x; r.y = v.y;
    , v.level = r.level; v.type = r.type; v.x = r.x; v.y = r.y;, a.level == b.level && a.type == b.type && a.x == b.x && a.y == b.y)
TR (V_tet, t8_dtet_t, t8_default_scheme_tet, r.level = v.level; r.type = v.type; r.x = v.x; r.y = v.y; r.z = v.z;
    , v.level = r.level; v.type = r.type; v.x = r.x; v.y = r.y; v.z = r.z;
    , a.level == b.level && a.type == b.type && a.x == b.x && a.y == b.y && a.z == b.z)
TR (V_prism, t8_dprism_t, t8_default_scheme_prism, Tr<V_line>::to (v.line, r.line); Tr<V_tri>::to (v.tri, r.tri);
    , Tr<V_line>::from (r.line, v.line); Tr<V_tri>::from (r.tri, v.tri);, Tr<V_line>::same (a.line, b.line) && Tr<V_tri>::same (a.tri, b.tri))
TR (V_pyra, t8_dpyramid_t, t8_default_scheme_pyramid, r.pyramid.level = v.level; r.pyramid.type = v.type; r.pyramid.x = v.x;
    r.pyramid.y = v.y; r.pyramid.z = v.z; r.switch_shape_at_level = v.sw;
    , v.level = r.pyramid.level; v.type = r.pyramid.type; v.x = r.pyramid.x; v.y = r.pyramid.y; v.z = r.pyramid.z;
    v.sw = r.switch_shape_at_level;
    , a.level == b.level && a.type == b.type && a.x == b.x && a.y == b.y && a.z == b.z && a.sw == b.sw)
TR (V_svertex, t8_standalone_element<T8_ECLASS_VERTEX>, t8_standalone_scheme<T8_ECLASS_VERTEX>, r.level = v.level;, v.level = r.level;, a.level == b.level)
TR (V_sline, t8_standalone_element<T8_ECLASS_LINE>, t8_standalone_scheme<T8_ECLASS_LINE>, r.level = v.level; r.coords[0] = v.x;
    , v.level = r.level; v.x = r.coords[0];, a.level == b.level && a.x == b.x)
TR (V_squad, t8_standalone_element<T8_ECLASS_QUAD>, t8_standalone_scheme<T8_ECLASS_QUAD>, r.level = v.level; r.coords[0] = v.x; r.coords[1] = v.y;
    , v.level = r.level; v.x = r.coords[0]; v.y = r.coords[1];, a.level == b.level && a.x == b.x && a.y == b.y)
TR (V_shex, t8_standalone_element<T8_ECLASS_HEX>, t8_standalone_scheme<T8_ECLASS_HEX>, r.level = v.level; r.coords[0] = v.x;
    r.coords[1] = v.y; r.coords[2] = v.z;, v.level = r.level; v.x = r.coords[0]; v.y = r.coords[1]; v.z = r.coords[2];
    , a.level == b.level && a.x == b.x && a.y == b.y && a.z == b.z)

// an element passed to a function that must not modify it
template <class V> struct In
{
  typename Tr<V>::R r;
  const V &v;
  int &fr;
  In (const V &v_, int &f): v (v_), fr (f) { Tr<V>::to (v, r); }
  ~In () { V w; Tr<V>::from (r, w); if (!Tr<V>::same (v, w)) fr = 1; }
  operator const t8_element_t * () const { return (const t8_element_t *) &r; }
};
// an element that is written (uninitialised before)
template <class V> struct Out
{
  typename Tr<V>::R r;
  V &v;
  Out (V &v_): v (v_) {
#if T8_ENABLE_DEBUG
    V z = {}; Tr<V>::to (z, r);
#endif
  }
  ~Out () { Tr<V>::from (r, v); }
  operator t8_element_t * () { return (t8_element_t *) &r; }
};
// an element that is read and written
template <class V> struct InOut
{
  typename Tr<V>::R r;
  V &v;
  InOut (const V &in, V &v_): v (v_) { Tr<V>::to (in, r); }
  ~InOut () { Tr<V>::from (r, v); }
  operator t8_element_t * () { return (t8_element_t *) &r; }
};
template <class V, int N> struct OutArr
{
  typename Tr<V>::R r[N];
  t8_element_t *p[N];
  V *v;
  OutArr (V *v_): v (v_) {
    for (int i = 0; i < N; i++) {
      p[i] = (t8_element_t *) &r[i];
#if T8_ENABLE_DEBUG
      V z = {}; Tr<V>::to (z, r[i]);
#endif
    }
  }
  ~OutArr () { for (int i = 0; i < N; i++) Tr<V>::from (r[i], v[i]); }
  operator t8_element_t ** () { return p; }
};
template <class V, int N> struct InArr
{
  typename Tr<V>::R r[N];
  t8_element_t *p[N];
  const V *v;
  int &fr;
  InArr (const V *v_, int &f): v (v_), fr (f) { for (int i = 0; i < N; i++) { p[i] = (t8_element_t *) &r[i]; Tr<V>::to (v[i], r[i]); } }
  ~InArr () { for (int i = 0; i < N; i++) { V w; Tr<V>::from (r[i], w); if (!Tr<V>::same (v[i], w)) fr = 1; } }
  operator t8_element_t *const * () const { return p; }
  operator t8_element_t ** () { return p; }
};
template <class V> static inline const typename Tr<V>::S &S ()
{
#ifdef V_NATIVE
  static typename Tr<V>::S obj;
  return obj;
#else
  // the element functions do not read the scheme object (except through element_new); it is never constructed
  alignas (typename Tr<V>::S) static char buf[sizeof (typename Tr<V>::S)];
  return *reinterpret_cast<const typename Tr<V>::S *> (buf);
#endif
}
// calls to these functions go to their contracts where a contract says so (use=[...]); spec/stubs.h
extern "C" {
void sp_assume (int);
uint64_t sp_pyra_lid (const V_pyra *, int);
void sp_pyra_from (uint64_t, int, V_pyra *);
void sp_pyra_parent (const V_pyra *, V_pyra *);
int sp_pyra_cid (const V_pyra *);
int sp_pyra_type_at (const V_pyra *, int);
t8_linearidx_t v_use_t8_dpyramid_linear_id (const t8_dpyramid_t *p, const int level) { V_pyra v; Tr<V_pyra>::from (*p, v); return sp_pyra_lid (&v, level); }
void v_use_t8_dpyramid_init_linear_id (t8_dpyramid_t *p, const int level, t8_linearidx_t id) { V_pyra v; sp_pyra_from (id, level, &v); Tr<V_pyra>::to (v, *p); }
void v_use_t8_dpyramid_parent (const t8_dpyramid_t *p, t8_dpyramid_t *q) { V_pyra v, w; Tr<V_pyra>::from (*p, v); sp_pyra_parent (&v, &w); Tr<V_pyra>::to (w, *q); }
int v_use_t8_dpyramid_child_id (const t8_dpyramid_t *p) { V_pyra v; Tr<V_pyra>::from (*p, v); return sp_pyra_cid (&v); }
void sp_pyra_desc (const V_pyra *, int, int, V_pyra *);
void v_use_t8_dpyramid_first_descendant (const t8_dpyramid_t *p, t8_dpyramid_t *d, const int level) { V_pyra v, w; Tr<V_pyra>::from (*p, v); sp_pyra_desc (&v, level, 0, &w); Tr<V_pyra>::to (w, *d); }
void v_use_t8_dpyramid_last_descendant (const t8_dpyramid_t *p, t8_dpyramid_t *d, const int level) { V_pyra v, w; Tr<V_pyra>::from (*p, v); sp_pyra_desc (&v, level, 1, &w); Tr<V_pyra>::to (w, *d); }
#define V_USE_LID(P, Rn) uint64_t sp_##P##_lidu (const V_##P *, int); \
t8_linearidx_t v_use_##Rn##_linear_id (const Tr<V_##P>::R *p, int level) { V_##P v; Tr<V_##P>::from (*p, v); return sp_##P##_lidu (&v, level); }
V_USE_LID (tri, t8_dtri)
V_USE_LID (tet, t8_dtet)
V_USE_LID (prism, t8_dprism)
#define V_USE_FROM(P, Rn) void sp_##P##_fromu (uint64_t, int, V_##P *); \
void v_use_##Rn##_init_linear_id (Tr<V_##P>::R *p, t8_linearidx_t id, int level) { V_##P v; sp_##P##_fromu (id, level, &v); Tr<V_##P>::to (v, *p); }
V_USE_FROM (tri, t8_dtri)
V_USE_FROM (tet, t8_dtet)
#define V_USE_SLID(P, N) uint64_t sp_##P##_lidu (const V_##P *, int); \
t8_linearidx_t v_use__ZN20t8_standalone_schemeIL9t8_eclass##N##EE21element_get_linear_idEPK10t8_elementh (const t8_element_t *a, uint8_t level) \
{ V_##P v; Tr<V_##P>::from (*(const Tr<V_##P>::R *) a, v); return sp_##P##_lidu (&v, level); }
V_USE_SLID (svertex, 0)
V_USE_SLID (sline, 1)
V_USE_SLID (squad, 2)
V_USE_SLID (shex, 4)
#define V_USE_TY(P, Rn) int sp_##P##_tyu (const V_##P *, int, int, int); void sp_##P##_ancu (const V_##P *, int, V_##P *); \
int8_t v_use_##P##_compute_type_ext (const Tr<V_##P>::R *p, int level, int8_t kt, int kl) { V_##P v; Tr<V_##P>::from (*p, v); return (int8_t) sp_##P##_tyu (&v, level, kt, kl); } \
void v_use_##Rn##_ancestor (const Tr<V_##P>::R *p, int level, Tr<V_##P>::R *a) { V_##P v, w; Tr<V_##P>::from (*p, v); sp_##P##_ancu (&v, level, &w); Tr<V_##P>::to (w, *a); }
V_USE_TY (tri, t8_dtri)
V_USE_TY (tet, t8_dtet)
// children
#define V_USE_CHILD(P, Rn) void sp_##P##_childu (const V_##P *, int, V_##P *); \
void v_use_##Rn##_child (const Tr<V_##P>::R *p, const int k, Tr<V_##P>::R *c) { V_##P v, w; Tr<V_##P>::from (*p, v); sp_##P##_childu (&v, k, &w); Tr<V_##P>::to (w, *c); }
V_USE_CHILD (line, t8_dline)
V_USE_CHILD (tri, t8_dtri)
V_USE_CHILD (tet, t8_dtet)
V_USE_CHILD (prism, t8_dprism)
#define V_USE_CHILDM(P, Name, THIS) void sp_##P##_childu (const V_##P *, int, V_##P *); \
void v_use_##Name (THIS const t8_element_t *p, const int k, t8_element_t *c) { V_##P v, w; Tr<V_##P>::from (*(const Tr<V_##P>::R *) p, v); sp_##P##_childu (&v, k, &w); Tr<V_##P>::to (w, *(Tr<V_##P>::R *) c); }
#define V_COMMA ,
V_USE_CHILDM (quad, _ZNK22t8_default_scheme_quad17element_get_childEPK10t8_elementiPS0_, const void * V_COMMA)
V_USE_CHILDM (hex, _ZNK21t8_default_scheme_hex17element_get_childEPK10t8_elementiPS0_, const void * V_COMMA)
V_USE_CHILDM (sline, _ZN20t8_standalone_schemeIL9t8_eclass1EE17element_get_childEPK10t8_elementiPS2_, )
V_USE_CHILDM (squad, _ZN20t8_standalone_schemeIL9t8_eclass2EE17element_get_childEPK10t8_elementiPS2_, )
V_USE_CHILDM (shex, _ZN20t8_standalone_schemeIL9t8_eclass4EE17element_get_childEPK10t8_elementiPS2_, )
void sp_pyra_childu (const V_pyra *, int, V_pyra *);
void v_use_t8_dpyramid_child (const t8_dpyramid_t *p, const int k, t8_dpyramid_t *c) { V_pyra v, w; Tr<V_pyra>::from (*p, v); sp_pyra_childu (&v, k, &w); Tr<V_pyra>::to (w, *c); }
// allocation of one element from the scheme's memory pool: distinct, uninitialised memory
#define V_USE_NEW(P, N) \
void v_use__ZNK20t8_standalone_schemeIL9t8_eclass##N##EE11element_newEiPP10t8_element (const void *, int n, t8_element_t **e) \
{ for (int i = 0; i < n; i++) { e[i] = (t8_element_t *) __builtin_malloc (sizeof (Tr<V_##P>::R)); sp_assume (e[i] != nullptr); } } \
void v_use__ZNK20t8_standalone_schemeIL9t8_eclass##N##EE15element_destroyEiPP10t8_element (const void *, int n, t8_element_t **e) \
{ for (int i = 0; i < n; i++) __builtin_free (e[i]); }
V_USE_NEW (svertex, 0)
V_USE_NEW (sline, 1)
V_USE_NEW (squad, 2)
V_USE_NEW (shex, 4)
#define V_USE_SCMP(P, N) int sp_##P##_eqcmp (const V_##P *, const V_##P *); \
int v_use__ZN20t8_standalone_schemeIL9t8_eclass##N##EE15element_compareEPK10t8_elementS4_ (const t8_element_t *a, const t8_element_t *b) \
{ V_##P v, w; Tr<V_##P>::from (*(const Tr<V_##P>::R *) a, v); Tr<V_##P>::from (*(const Tr<V_##P>::R *) b, w); return sp_##P##_eqcmp (&v, &w); }
V_USE_SCMP (svertex, 0)
V_USE_SCMP (sline, 1)
V_USE_SCMP (squad, 2)
V_USE_SCMP (shex, 4)
int v_use_t8_dpyramid_type_at_level (const t8_dpyramid_t *p, const int level) { V_pyra v; Tr<V_pyra>::from (*p, v); return sp_pyra_type_at (&v, level); }
}
#endif
#endif
