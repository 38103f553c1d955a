/* Assumed contracts of the p4est/p8est quadrant functions (external library, no source here), written as
 * bodies.  models/validate_p4est.c compares them with the installed libp4est. */
#define QLEN(l) ((p4est_qcoord_t) 1 << (P4EST_MAXLEVEL - (l)))
#ifdef P4_TO_P8
#define Z(x) x
#define DIM 3
#else
#define Z(x)
#define DIM 2
#endif
#define NCH (1 << DIM)

void M (quadrant_parent) (const p4est_quadrant_t *q, p4est_quadrant_t *r)
{
  const p4est_qcoord_t h = QLEN (q->level);
  r->x = q->x & ~h;
  r->y = q->y & ~h;
  Z (r->z = q->z & ~h;)
  r->level = (int8_t) (q->level - 1);
}
int M (quadrant_ancestor_id) (const p4est_quadrant_t *q, int level)
{
  int id = 0;
  if (level == 0) return 0;
  id |= ((q->x & QLEN (level)) ? 1 : 0);
  id |= ((q->y & QLEN (level)) ? 2 : 0);
  Z (id |= ((q->z & QLEN (level)) ? 4 : 0);)
  return id;
}
int M (quadrant_child_id) (const p4est_quadrant_t *q) { return M (quadrant_ancestor_id) (q, (int) q->level); }
void M (quadrant_sibling) (const p4est_quadrant_t *q, p4est_quadrant_t *r, int s)
{
  const p4est_qcoord_t h = QLEN (q->level);
  r->x = (s & 1) ? (q->x | h) : (q->x & ~h);
  r->y = (s & 2) ? (q->y | h) : (q->y & ~h);
  Z (r->z = (s & 4) ? (q->z | h) : (q->z & ~h);)
  r->level = q->level;
}
int M (quadrant_is_equal) (const p4est_quadrant_t *a, const p4est_quadrant_t *b)
{
  return a->level == b->level && a->x == b->x && a->y == b->y Z (&&a->z == b->z);
}
/* Morton order of the anchor points, coarser first (coordinates inside the root or its 3^d neighbourhood) */
int M (quadrant_compare) (const void *v1, const void *v2)
{
  const p4est_quadrant_t *a = (const p4est_quadrant_t *) v1, *b = (const p4est_quadrant_t *) v2;
  const uint32_t ex = (uint32_t) (a->x ^ b->x), ey = (uint32_t) (a->y ^ b->y);
  uint32_t ez = 0;
  int64_t p1, p2;
  Z (ez = (uint32_t) (a->z ^ b->z);)
  if (!ex && !ey && !ez) return (int) a->level - (int) b->level;
  /* the axis with the most significant differing bit decides, the last axis among equals */
#define DOM(u, v) (!((u) < (v) && (u) < ((u) ^ (v))))
  const int ydom = DOM (ey, ex);
#ifdef P4_TO_P8
  if (DOM (ez, ydom ? ey : ex)) { p1 = a->z + (a->z >= 0 ? 0 : (int64_t) 1 << 32); p2 = b->z + (b->z >= 0 ? 0 : (int64_t) 1 << 32); }
  else
#endif
  if (ydom) { p1 = a->y + (a->y >= 0 ? 0 : (int64_t) 1 << 32); p2 = b->y + (b->y >= 0 ? 0 : (int64_t) 1 << 32); }
  else { p1 = a->x + (a->x >= 0 ? 0 : (int64_t) 1 << 32); p2 = b->x + (b->x >= 0 ? 0 : (int64_t) 1 << 32); }
  return p1 == p2 ? 0 : p1 < p2 ? -1 : 1;
}
void M (quadrant_childrenpv) (const p4est_quadrant_t *q, p4est_quadrant_t *c[])
{
  const p4est_qcoord_t h = QLEN (q->level + 1), x = q->x, y = q->y;
  Z (const p4est_qcoord_t z = q->z;)
  const int8_t l = (int8_t) (q->level + 1);
  int i;
  for (i = 0; i < NCH; i++) {
    c[i]->x = (i & 1) ? (x | h) : x;
    c[i]->y = (i & 2) ? (y | h) : y;
    Z (c[i]->z = (i & 4) ? (z | h) : z;)
    c[i]->level = l;
  }
}
int M (quadrant_is_familypv) (p4est_quadrant_t *q[])
{
  const int8_t l = q[0]->level;
  int i;
  p4est_qcoord_t h;
  if (l == 0) return 0;
  h = QLEN (l);
  for (i = 1; i < NCH; i++) {
    if (q[i]->level != l) return 0;
    if (q[i]->x != q[0]->x + ((i & 1) ? h : 0)) return 0;
    if (q[i]->y != q[0]->y + ((i & 2) ? h : 0)) return 0;
    Z (if (q[i]->z != q[0]->z + ((i & 4) ? h : 0)) return 0;)
  }
  return 1;
}
void M (quadrant_set_morton) (p4est_quadrant_t *q, int level, uint64_t id)
{
  int i;
  q->level = (int8_t) level;
  q->x = 0;
  q->y = 0;
  Z (q->z = 0;)
  for (i = 0; i < level + (3 - DIM) + 1 && DIM * i < 64; i++) {
    q->x |= (p4est_qcoord_t) ((id >> (DIM * i)) & 1) << i;
    q->y |= (p4est_qcoord_t) ((id >> (DIM * i + 1)) & 1) << i;
    Z (q->z |= (p4est_qcoord_t) ((id >> (DIM * i + 2)) & 1) << i;)
  }
  q->x = (p4est_qcoord_t) ((uint32_t) q->x << (P4EST_MAXLEVEL - level));
  q->y = (p4est_qcoord_t) ((uint32_t) q->y << (P4EST_MAXLEVEL - level));
  Z (q->z = (p4est_qcoord_t) ((uint32_t) q->z << (P4EST_MAXLEVEL - level));)
}
uint64_t M (quadrant_linear_id) (const p4est_quadrant_t *q, int level)
{
  const uint64_t x = ((uint64_t) q->x) >> (P4EST_MAXLEVEL - level);
  const uint64_t y = ((uint64_t) q->y) >> (P4EST_MAXLEVEL - level);
  Z (const uint64_t z = ((uint64_t) q->z) >> (P4EST_MAXLEVEL - level);)
  uint64_t id = 0;
  int i;
  for (i = 0; i < level + 2 && DIM * i < 64; i++) {
    id |= ((x >> i) & 1) << (DIM * i);
    id |= ((y >> i) & 1) << (DIM * i + 1 < 64 ? DIM * i + 1 : 63);
    Z (if (DIM * i + 2 < 64) id |= ((z >> i) & 1) << (DIM * i + 2);)
  }
  return id;
}
void M (quadrant_first_descendant) (const p4est_quadrant_t *q, p4est_quadrant_t *fd, int level)
{
  fd->x = q->x;
  fd->y = q->y;
  Z (fd->z = q->z;)
  fd->level = (int8_t) level;
}
void M (quadrant_corner_descendant) (const p4est_quadrant_t *q, p4est_quadrant_t *r, int c, int level)
{
  const p4est_qcoord_t s = QLEN (q->level) - QLEN (level);
  r->x = q->x + ((c & 1) ? s : 0);
  r->y = q->y + ((c & 2) ? s : 0);
  Z (r->z = q->z + ((c & 4) ? s : 0);)
  r->level = (int8_t) level;
}
void M (quadrant_last_descendant) (const p4est_quadrant_t *q, p4est_quadrant_t *ld, int level)
{
  M (quadrant_corner_descendant) (q, ld, NCH - 1, level);
}
void M (quadrant_successor) (const p4est_quadrant_t *q, p4est_quadrant_t *r)
{
  const int l = q->level;
  M (quadrant_set_morton) (r, l, M (quadrant_linear_id) (q, l) + 1);
}
void M (nearest_common_ancestor) (const p4est_quadrant_t *a, const p4est_quadrant_t *b, p4est_quadrant_t *r)
{
  uint32_t e = (uint32_t) (a->x ^ b->x) | (uint32_t) (a->y ^ b->y);
  int l = 0, m = a->level < b->level ? a->level : b->level;
  p4est_qcoord_t mask;
  Z (e |= (uint32_t) (a->z ^ b->z);)
  /* number of significant bits of e */
  for (int i = 0; i < 32; i++) if ((e >> i) & 1) l = i + 1;
  if (P4EST_MAXLEVEL - l < m) m = P4EST_MAXLEVEL - l;
  mask = (p4est_qcoord_t) ~(((uint32_t) 1 << l) - 1);
  r->x = a->x & mask;
  r->y = a->y & mask;
  Z (r->z = a->z & mask;)
  r->level = (int8_t) m;
}
void M (quadrant_face_neighbor) (const p4est_quadrant_t *q, int face, p4est_quadrant_t *r)
{
  const p4est_qcoord_t h = QLEN (q->level);
  r->x = q->x + ((face == 0) ? -h : (face == 1) ? h : 0);
  r->y = q->y + ((face == 2) ? -h : (face == 3) ? h : 0);
  Z (r->z = q->z + ((face == 4) ? -h : (face == 5) ? h : 0);)
  r->level = q->level;
}
int M (quadrant_is_inside_root) (const p4est_quadrant_t *q)
{
  return q->x >= 0 && q->x < P4EST_ROOT_LEN && q->y >= 0 && q->y < P4EST_ROOT_LEN Z (&&q->z >= 0 && q->z < P4EST_ROOT_LEN);
}
int M (quadrant_is_extended) (const p4est_quadrant_t *q)
{
  p4est_qcoord_t m;
  if (q->level < 0 || q->level > P4EST_QMAXLEVEL) return 0;
  m = QLEN (q->level) - 1;
  if ((q->x & m) || (q->y & m) Z (|| (q->z & m))) return 0;
  return q->x >= -P4EST_ROOT_LEN && q->x <= P4EST_ROOT_LEN + (P4EST_ROOT_LEN - 1) && q->y >= -P4EST_ROOT_LEN
         && q->y <= P4EST_ROOT_LEN + (P4EST_ROOT_LEN - 1) Z (&&q->z >= -P4EST_ROOT_LEN && q->z <= P4EST_ROOT_LEN + (P4EST_ROOT_LEN - 1));
}
int M (quadrant_is_parent) (const p4est_quadrant_t *q, const p4est_quadrant_t *r)
{
  const p4est_qcoord_t h = QLEN (r->level);
  return q->level + 1 == r->level && q->x == (r->x & ~h) && q->y == (r->y & ~h) Z (&&q->z == (r->z & ~h));
}
