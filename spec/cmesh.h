/* Specification of coarse mesh partitions, face codes and related arithmetic. */
#ifndef V_CMESH_SPEC_H
#define V_CMESH_SPEC_H
#include "view.h"
#ifndef MP
#define MP 4 /* largest number of processes */
#endif
/* An entry of the offset table: the first local tree t of the process as t, or as -t-1 if t is shared with a smaller process.
 * So |entry| is the number of trees that the smaller processes hold together, and the process additionally has the last of them if
 * the entry is negative. */
/* bound of the exploration: tree numbers b or 2^40 + b with b < 16 (few free bits, but beyond 32 bits) */
static inline i64 of_num_of (int e) { return ((i64) (e & 16) << 36) | (e & 15); }
static inline i64 of_entry_of (int e) { return e & 32 ? -of_num_of (e) : of_num_of (e); }
static inline int of_small (i64 x) { return (x & ~(((i64) 1 << 40) | 15)) == 0; }
static inline i64 of_abs (i64 x) { return x < 0 ? -x : x; }
static inline int of_shared (V_xoff o, int p) { return o.a[p] < 0; }
static inline i64 of_first (V_xoff o, int p) { return of_abs (o.a[p]) - of_shared (o, p); }
static inline i64 of_last (V_xoff o, int p) { return of_abs (o.a[p + 1]) - 1; }
static inline i64 of_num (V_xoff o, int p) { return of_abs (o.a[p + 1]) - of_abs (o.a[p]) + of_shared (o, p); }
static inline int of_empty (V_xoff o, int p) { return !of_shared (o, p) && of_abs (o.a[p + 1]) == o.a[p]; }
static inline int of_has (V_xoff o, int p, i64 t) { return of_first (o, p) <= t && t < of_abs (o.a[p + 1]); }
/* o describes a partition of the trees 0 .. o[P]-1 to P processes: contiguous, increasing, only first trees are shared (a process
 * without trees shares none: |o| is increasing, so a process with a negative entry has at least that tree) */
static inline int of_valid (V_xoff o, int P)
{
  int p;
  if (P < 1 || P > MP || o.a[0] != 0) return 0;
  for (p = 0; p < MP; p++) {
    if (p >= P) break;
    if (of_abs (o.a[p]) > of_abs (o.a[p + 1])) return 0;
  }
  return o.a[P] >= 0;
}
/* smallest / largest process in [a, b) that has tree t; -1 if none */
static inline int of_min_owner (V_xoff o, int a, int b, i64 t) { int p; for (p = 0; p < MP; p++) if (p >= a && p < b && of_has (o, p, t)) return p; return -1; }
static inline int of_max_owner (V_xoff o, int a, int b, i64 t) { int p, r = -1; for (p = 0; p < MP; p++) if (p >= a && p < b && of_has (o, p, t)) r = p; return r; }
static inline int of_next_nonempty (V_xoff o, int P, int p) { int q; for (q = 0; q < MP; q++) if (q > p && q < P && !of_empty (o, q)) return q; return P; }
/* process s sends tree t to process b when the partition changes from f to o: s has it, b will have it, and s is the one responsible:
 * b itself if it has the tree already, and the smallest owner otherwise */
static inline int of_sends (V_xoff f, V_xoff o, int P, int s, int b, i64 t)
{
  if (!of_has (f, s, t) || !of_has (o, b, t)) return 0;
  return of_has (f, b, t) ? s == b : s == of_min_owner (f, 0, P, t);
}
/* whether s sends any tree to b: trees with one owner form the interior of s' range, so the ends of the common range decide */
static inline int of_sends_any (V_xoff f, V_xoff o, int P, int s, int b)
{
  i64 lo, hi, t;
  int k;
  if (of_empty (f, s) || of_empty (o, b)) return 0;
  lo = of_first (f, s) > of_first (o, b) ? of_first (f, s) : of_first (o, b);
  hi = of_last (f, s) < of_last (o, b) ? of_last (f, s) : of_last (o, b);
  for (k = 0; k < 3; k++) { t = lo + k; if (t <= hi && of_sends (f, o, P, s, b, t)) return 1; }
  return 0;
}
#endif
