// Stand-in for the CMake-generated Config.h (checks are built outside CMake).
#define NO_KOKKOS
#define NO_KOKKOS_KERNELS
#define NO_EXODUS
#define NO_MPI
#ifdef SX_OMP
#define USE_OPEN_MP
#else
#define NO_OPEN_MP
#endif
#define NO_LAPACK
