/* Declarations that /repo expects from a newer libsc than the installed 2.3.6.
 * (They are defined in models/ for verification and in vlib/native_shim.c for replays.) */
#ifndef V_SHIM_H
#define V_SHIM_H
#include <sc.h>
#include <sc_mpi.h>
#ifdef __cplusplus
extern "C" {
#endif
#ifndef sc_MPI_PACKED
#define sc_MPI_PACKED MPI_PACKED
#endif
#ifndef sc_MPI_INT8_T
#define sc_MPI_INT8_T MPI_INT8_T
#endif
#ifndef sc_MPI_Pack
int sc_MPI_Pack (const void *, int, sc_MPI_Datatype, void *, int, int *, sc_MPI_Comm);
int sc_MPI_Unpack (const void *, int, int *, void *, int, sc_MPI_Datatype, sc_MPI_Comm);
int sc_MPI_Pack_size (int, sc_MPI_Datatype, sc_MPI_Comm, int *);
#endif
int sc_get_package_id (void);
sc_MPI_Comm sc_mpi_comm_get_and_attach (sc_MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
