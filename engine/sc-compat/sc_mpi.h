/* Wraps /usr/include/sc_mpi.h of apt's libsc 2.3.6 (which is built with MPI):
 * adds the names of MPI symbols that p4est expects of a later libsc. */
#ifndef VP_COMPAT_SC_MPI_H
#define VP_COMPAT_SC_MPI_H

#include_next <sc_mpi.h>

#define sc_MPI_INFO_NULL        MPI_INFO_NULL
#define sc_MPI_COMM_TYPE_SHARED MPI_COMM_TYPE_SHARED
#define sc_MPI_Comm_split_type  MPI_Comm_split_type

#endif
