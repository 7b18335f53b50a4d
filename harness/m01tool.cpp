// the parallel query tool as a function
extern "C" int mpi_caliquery_main(int, char**);
#define main mpi_caliquery_main
#include "tools/mpi-caliquery/mpi-caliquery.cpp"
