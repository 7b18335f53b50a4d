/* mpi.h -- the part of the MPI interface that the message-passing checks provide (see mpisim.hpp). */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Request;
typedef int MPI_Op;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int size; } MPI_Status;
typedef long MPI_Aint;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_REQUEST_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_UNSIGNED_CHAR 3
#define MPI_INT 4
#define MPI_UNSIGNED 5
#define MPI_LONG 6
#define MPI_UNSIGNED_LONG 7
#define MPI_UINT64_T 8
#define MPI_INT64_T 9
#define MPI_DOUBLE 10
#define MPI_UNSIGNED_LONG_LONG 11
#define MPI_UINT32_T 12
#define MPI_INT32_T 13
int MPI_Init(int*, char***);
int MPI_Finalize(void);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_free(MPI_Group*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Barrier(MPI_Comm);
int MPI_Pcontrol(int, ...);
double MPI_Wtime(void);
int PMPI_Initialized(int*);
int PMPI_Finalized(int*);
#ifdef __cplusplus
}
#endif
