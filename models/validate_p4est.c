/* compares the models of the p4est/p8est quadrant functions with the installed library on random quadrants */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef V8
#include <p4est_to_p8est.h>
#include <p8est_bits.h>
#else
#include <p4est_bits.h>
#endif
#define V_VALIDATE
#define M(n) mv_##n
#include "p4est_model.inc"
#ifdef V8
#define L(n) p8est_##n
#else
#define L(n) p4est_##n
#endif
static uint64_t s = 88172645463325252ULL;
static uint64_t rnd (void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
#ifdef V8
#define ML 18
#else
#define ML 29
#endif
static void rq (p4est_quadrant_t *q, int ext)
{
  memset (q, 0, sizeof *q);
  q->level = rnd () % (ML + 1);
  p4est_qcoord_t m = ~(QLEN (q->level) - 1);
  q->x = (rnd () % P4EST_ROOT_LEN) & m;
  q->y = (rnd () % P4EST_ROOT_LEN) & m;
  Z (q->z = (rnd () % P4EST_ROOT_LEN) & m;)
  if (ext && rnd () % 2) { q->x += rnd () % 2 ? -P4EST_ROOT_LEN : 0; q->y += rnd () % 2 ? -P4EST_ROOT_LEN : 0; }
}
static int eq (p4est_quadrant_t *a, p4est_quadrant_t *b) { return mv_quadrant_is_equal (a, b); }
#define CK(c, n) do { if (!(c)) { printf ("MISMATCH %s\n", n); return 1; } } while (0)
#define SG(x) (((x) > 0) - ((x) < 0))
int main (int argc, char **argv)
{
  long n = argc > 1 ? atol (argv[1]) : 2000000;
  for (long i = 0; i < n; i++) {
    p4est_quadrant_t q, g, a, b, c[NCH], d[NCH], *pc[NCH], *pd[NCH];
    rq (&q, 0);
    rq (&g, 0);
    if (rnd () % 3 == 0) { int l = rnd () % (q.level + 1); memset (&g, 0, sizeof g); g = q; g.level = l; p4est_qcoord_t m = ~(QLEN (l) - 1); g.x &= m; g.y &= m; Z (g.z &= m;)
      while (g.level < ML && rnd () % 3) { int k = rnd () % NCH; g.level++; if (k & 1) g.x += QLEN (g.level); if (k & 2) g.y += QLEN (g.level); Z (if (k & 4) g.z += QLEN (g.level);) } }
    for (int k = 0; k < NCH; k++) { pc[k] = &c[k]; pd[k] = &d[k]; memset (&c[k], 0, sizeof c[k]); memset (&d[k], 0, sizeof d[k]); }
    memset (&a, 0, sizeof a); memset (&b, 0, sizeof b);
    if (q.level > 0) {
      L (quadrant_parent) (&q, &a); mv_quadrant_parent (&q, &b); CK (eq (&a, &b), "parent");
      int k = rnd () % NCH;
      L (quadrant_sibling) (&q, &a, k); mv_quadrant_sibling (&q, &b, k); CK (eq (&a, &b), "sibling");
    }
    int l = rnd () % (q.level + 1);
    CK (L (quadrant_ancestor_id) (&q, l) == mv_quadrant_ancestor_id (&q, l), "ancestor_id");
    CK (L (quadrant_child_id) (&q) == mv_quadrant_child_id (&q), "child_id");
    CK (!L (quadrant_is_equal) (&q, &g) == !eq (&q, &g), "is_equal");
    CK (SG (L (quadrant_compare) (&q, &g)) == SG (mv_quadrant_compare (&q, &g)), "compare");
    CK (!L (quadrant_is_parent) (&g, &q) == !mv_quadrant_is_parent (&g, &q) , "is_parent");
    if (q.level < ML) {
      L (quadrant_childrenpv) (&q, pc); mv_quadrant_childrenpv (&q, pd);
      for (int k = 0; k < NCH; k++) CK (eq (&c[k], &d[k]), "childrenpv");
      if (rnd () % 2) { int k = rnd () % NCH; c[k].level += rnd () % 2 ? 0 : -1; c[k].x += rnd () % 2 ? 0 : QLEN (q.level); }
      else { int h = QLEN (q.level + 1) * (rnd () % 2); for (int k = 0; k < NCH; k++) c[k].x += h; }
      int ok = 1; for (int k = 0; k < NCH; k++) ok = ok && mv_quadrant_is_extended (&c[k]);
      if (ok) CK (!L (quadrant_is_familypv) (pc) == !mv_quadrant_is_familypv (pc), "familypv");
    }
    uint64_t id = rnd () % ((uint64_t) 1 << (DIM * q.level));
    L (quadrant_set_morton) (&a, q.level, id); mv_quadrant_set_morton (&b, q.level, id); CK (eq (&a, &b), "set_morton");
    l = rnd () % (ML + 1);
    CK (L (quadrant_linear_id) (&q, l) == mv_quadrant_linear_id (&q, l), "linear_id");
    l = q.level + rnd () % (ML + 1 - q.level);
    L (quadrant_first_descendant) (&q, &a, l); mv_quadrant_first_descendant (&q, &b, l); CK (eq (&a, &b), "first_descendant");
    L (quadrant_last_descendant) (&q, &a, l); mv_quadrant_last_descendant (&q, &b, l); CK (eq (&a, &b), "last_descendant");
    int k = rnd () % NCH;
    L (quadrant_corner_descendant) (&q, &a, k, l); mv_quadrant_corner_descendant (&q, &b, k, l); CK (eq (&a, &b), "corner_descendant");
    if (q.level > 0 && mv_quadrant_linear_id (&q, q.level) + 1 < ((uint64_t) 1 << (DIM * q.level))) {
      L (quadrant_successor) (&q, &a); mv_quadrant_successor (&q, &b); CK (eq (&a, &b), "successor");
    }
    L (nearest_common_ancestor) (&q, &g, &a); mv_nearest_common_ancestor (&q, &g, &b); CK (eq (&a, &b), "nca");
    k = rnd () % (2 * DIM);
    L (quadrant_face_neighbor) (&q, k, &a); mv_quadrant_face_neighbor (&q, k, &b); CK (eq (&a, &b), "face_neighbor");
    CK (!L (quadrant_is_inside_root) (&a) == !mv_quadrant_is_inside_root (&a), "inside_root");
    rq (&a, 1); if (rnd () % 2) a.x += rnd () % 3; if (rnd () % 5 == 0) a.level = (int8_t) (rnd () % 64 - 16);
    CK (!L (quadrant_is_extended) (&a) == !mv_quadrant_is_extended (&a), "is_extended");
  }
  printf ("ok %ld\n", n);
  return 0;
}
