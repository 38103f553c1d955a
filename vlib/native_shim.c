/* Native stand-ins for what the installed libsc 2.3.6 lacks, and for t8code's logging (replays only). */
#include <v_shim.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <mpi.h>
static int tsize (sc_MPI_Datatype t)
{
  if (t == MPI_INT8_T || t == MPI_BYTE || t == MPI_CHAR) return 1;
  if (t == MPI_LONG_LONG_INT || t == MPI_LONG || t == MPI_DOUBLE || t == MPI_UNSIGNED_LONG) return 8;
  return 4;
}
#ifdef sc_MPI_Pack
#undef sc_MPI_Pack
#undef sc_MPI_Unpack
#undef sc_MPI_Pack_size
#endif
int sc_MPI_Pack (const void *in, int n, sc_MPI_Datatype t, void *out, int osz, int *pos, sc_MPI_Comm c)
{
  (void) c;
  if (*pos + n * tsize (t) > osz) return 1;
  memcpy ((char *) out + *pos, in, (size_t) n * tsize (t));
  *pos += n * tsize (t);
  return 0;
}
int sc_MPI_Unpack (const void *in, int isz, int *pos, void *out, int n, sc_MPI_Datatype t, sc_MPI_Comm c)
{
  (void) c;
  if (*pos + n * tsize (t) > isz) return 1;
  memcpy (out, (const char *) in + *pos, (size_t) n * tsize (t));
  *pos += n * tsize (t);
  return 0;
}
int sc_MPI_Pack_size (int n, sc_MPI_Datatype t, sc_MPI_Comm c, int *size) { (void) c; *size = n * tsize (t); return 0; }
int sc_get_package_id (void) { return -1; }
sc_MPI_Comm sc_mpi_comm_get_and_attach (sc_MPI_Comm c) { return c; }
#define LOGFN(n) __attribute__ ((weak)) void n (const char *f, ...) { (void) f; }
LOGFN (t8_debugf) LOGFN (t8_errorf) LOGFN (t8_infof) LOGFN (t8_productionf) LOGFN (t8_global_errorf) LOGFN (t8_global_essentialf)
LOGFN (t8_global_infof) LOGFN (t8_global_productionf)
__attribute__ ((weak)) void t8_logf (int a, int b, const char *f, ...) { (void) a; (void) b; (void) f; }
__attribute__ ((weak)) int t8_get_package_id (void) { return -1; }
__attribute__ ((weak)) void t8_log_indent_push (void) { }
__attribute__ ((weak)) void t8_log_indent_pop (void) { }
