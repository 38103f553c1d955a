/* Abstract views of the elements: the fields that constitute an element's value.
 * The bridge (vlib) converts between these and the real structs of /repo. */
#ifndef V_VIEW_H
#define V_VIEW_H
#include <stdint.h>
#include <stddef.h>
#ifndef __cplusplus
#include <stdbool.h>
#endif
typedef uint64_t u64;
typedef int64_t i64;
typedef struct { int32_t level; } V_vertex;
typedef struct { int32_t level, x; } V_line;
typedef struct { int32_t level, x, y; } V_quad;
typedef struct { int32_t level, x, y, z; } V_hex;
typedef struct { int32_t level, type, x, y; } V_tri;
typedef struct { int32_t level, type, x, y, z; } V_tet;
typedef struct { V_line line; V_tri tri; } V_prism;
typedef struct { int32_t level, type, x, y, z, sw; } V_pyra;
/* standalone scheme elements */
typedef struct { int32_t level; } V_svertex;
typedef struct { int32_t level, x; } V_sline;
typedef struct { int32_t level, x, y; } V_squad;
typedef struct { int32_t level, x, y, z; } V_shex;
typedef struct { i64 a[5]; } V_xoff; /* a table of partition offsets */
#endif
