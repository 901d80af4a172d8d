#define _SRC_P_EST_CONFIG_H 1

/* Define to 1 if the 2D library is enabled */
#define P4EST_ENABLE_BUILD_2D 1

/* Define to 1 if the 3D library is enabled */
#define P4EST_ENABLE_BUILD_3D 1

/* Define to 1 if the hybrid 2D+1D p6est library enabled */
#define P4EST_ENABLE_BUILD_P6EST 1

/* Define to 1 if we are using debug build type (assertions and extra checks) */
#define P4EST_ENABLE_DEBUG 1

/* Define to 1 if we are using aligned malloc (optionally use --enable-memalign=<bytes>) */
#define P4EST_ENABLE_MEMALIGN 1

/* Define to 1 if we are using MPI */
#define P4EST_ENABLE_MPI 1

/* Define to 1 if we compile the file checks */
#define P4EST_ENABLE_FILE_CHECKS 1

/* Define to 1 if we can use MPI_COMM_TYPE_SHARED */
#define P4EST_ENABLE_MPICOMMSHARED 1

/* Define to 1 if we are using MPI I/O */
#define P4EST_ENABLE_MPIIO 1

/* Define to 1 if we are using MPI_Init_thread */
#define P4EST_ENABLE_MPITHREAD 1

/* Define to 1 if we can use MPI_Win_allocate_shared */
#define P4EST_ENABLE_MPIWINSHARED 1

/* Define to 1 if we can write vtk binary file data */
#define P4EST_ENABLE_VTK_BINARY 1

/* Define to 1 if we enable zlib compression for vtk binary data */
#define P4EST_ENABLE_VTK_COMPRESSION 1

/* Define to 1 if we use depreacted data file format */
/* #undef P4EST_ENABLE_FILE_DEPRECATED */

/* Define to a macro mangling the given C identifier (in lower and upper
   case), which must not contain underscores, for linking with Fortran. */
#define P4EST_F77_FUNC(name,NAME) name ## _

/* As F77_FUNC, but for C identifiers containing underscores. */
#define P4EST_F77_FUNC_(name,NAME) name ## _

/* Define to a macro mangling the given C identifier (in lower and upper
   case), which must not contain underscores, for linking with Fortran. */
#define P4EST_FC_FUNC(name,NAME) name ## _

/* As FC_FUNC, but for C identifiers containing underscores. */
#define P4EST_FC_FUNC_(name,NAME) name ## _

/* Define to 1 if we have the <arpa/inet.h> header file. */
#define P4EST_HAVE_ARPA_INET_H 1

/* Define to 1 if we have the <dlfcn.h> header file. */
/* #undef P4EST_HAVE_DLFCN_H */

/* Define to 1 if we have the `fsync' function. */
#define P4EST_HAVE_FSYNC 1

/* Define to 1 if we have the <inttypes.h> header file. */
#define P4EST_HAVE_INTTYPES_H 1

/* Define to 1 if we found function pthread_create. */
#define HAVE_LPTHREAD 1

/* Define to 1 if we found function lua_createtable. */
/* #undef HAVE_LUA */

/* Define to 1 if we have the <memory.h> header file. */
#define P4EST_HAVE_MEMORY_H 1 

/* Define to 1 if we have the <netinet/in.h> header file. */
#define P4EST_HAVE_NETINET_IN_H 1

/* Define to 1 if we have the `posix_memalign' function. */
#define P4EST_HAVE_POSIX_MEMALIGN 1

/* Define to 1 if we have the <stdint.h> header file. */
#define P4EST_HAVE_STDINT_H 1

/* Define to 1 if we have the <stdlib.h> header file. */
#define P4EST_HAVE_STDLIB_H 1

/* Define to 1 if we have the <strings.h> header file. */
#define P4EST_HAVE_STRINGS_H 1

/* Define to 1 if we have the <string.h> header file. */
#define P4EST_HAVE_STRING_H 1

/* Define to 1 if we have the <sys/stat.h> header file. */
#define P4EST_HAVE_SYS_STAT_H 1

/* Define to 1 if we have the <sys/types.h> header file. */
#define P4EST_HAVE_SYS_TYPES_H 1

/* Define to 1 if we have the <unistd.h> header file. */
#define P4EST_HAVE_UNISTD_H 1

/* Define to 1 if we found function adler32_combine. */
#define P4EST_HAVE_ZLIB 1

/* Name of package */
#define P4EST_PACKAGE "p4est"

/* Define to the address where bug reports for this package should be sent. */
#define P4EST_PACKAGE_BUGREPORT "p4est@ins.uni-bonn.de"

/* Define to the full name of this package. */
#define P4EST_PACKAGE_NAME "p4est"

/* Define to the full name and version of this package. */
#define P4EST_PACKAGE_STRING "p4est 0.0.0"

/* Define to the one symbol short name of this package. */
#define P4EST_PACKAGE_TARNAME "p4est"

/* Define to the home page for this package. */
#define P4EST_PACKAGE_URL ""

/* Define to the version of this package. */
#define P4EST_PACKAGE_VERSION "0.0.0"

/* Version number of package */
#define P4EST_VERSION "0.0.0"

/* Package major version */
#define P4EST_VERSION_MAJOR 0

/* Package minor version */
#define P4EST_VERSION_MINOR 0

/* Package point version */
#define P4EST_VERSION_POINT 0
