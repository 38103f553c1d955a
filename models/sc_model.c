/* Assumed contracts of libsc functions used by the verified code, written as bodies. */
#include <v_shim.h>
#include <stdlib.h>
#include <string.h>
int sc_intpow (int base, int exp)
{
  int result = 1;
  while (exp) { if (exp & 1) result *= base; exp >>= 1; if (exp) base *= base; }
  return result;
}
int64_t sc_intpow64 (int64_t base, int exp)
{
  int64_t result = 1;
  while (exp) { if (exp & 1) result *= base; exp >>= 1; if (exp) base *= base; }
  return result;
}
uint64_t sc_intpow64u (uint64_t base, int exp)
{
  uint64_t result = 1;
  while (exp) { if (exp & 1) result *= base; exp >>= 1; if (exp) base *= base; }
  return result;
}

/* floor (log2 (i)), -1 for 0 */
const int sc_log2_lookup_table[256] = { -1, 0, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7 };

/* sc_array: memory grows to a fixed capacity (in elements) that no verified call exceeds (checked: abort) */
#include <sc_containers.h>
#define V_CAP 8
void sc_array_init (sc_array_t *a, size_t elem_size)
{
  a->elem_size = elem_size; a->elem_count = 0; a->byte_alloc = 0; a->array = NULL;
}
void sc_array_reset (sc_array_t *a)
{
  if (a->byte_alloc >= 0) free (a->array);
  a->array = NULL; a->elem_count = 0; a->byte_alloc = 0;
}
void sc_array_resize (sc_array_t *a, size_t n)
{
  if (n > V_CAP) abort ();
  if (a->byte_alloc == 0) { a->array = malloc (V_CAP * a->elem_size); a->byte_alloc = (ssize_t) (V_CAP * a->elem_size); }
  a->elem_count = n;
}
