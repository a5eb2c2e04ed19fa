/* Monitoring MPI stand-in: ranks are forked processes sharing one mmap'ed world.
 * Only what a two-sided MPI program reasonably uses. See mpishim.c. */
#ifndef VERIF_SHIM_MPI_H
#define VERIF_SHIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Errhandler;
typedef int MPI_Info;
typedef int MPI_Group;
typedef ptrdiff_t MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long bytes_; int dt_; } MPI_Status;
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_INFO_NULL 0
#define MPI_GROUP_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_PROC_NULL (-3)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_ERR_TRUNCATE 15
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
enum { MPI_DATATYPE_NULL=0, MPI_CHAR=1, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_INT8_T, MPI_UINT8_T,
  MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT16_T, MPI_UINT16_T, MPI_INT, MPI_UNSIGNED, MPI_INT32_T, MPI_UINT32_T, MPI_INTEGER,
  MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_INT64_T, MPI_UINT64_T, MPI_FLOAT, MPI_DOUBLE,
  MPI_PACKED, MPI_C_BOOL, VSHIM_DT_MAX };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_INT MPI_UNSIGNED
enum { MPI_OP_NULL=0, MPI_SUM=1, MPI_PROD, MPI_MIN, MPI_MAX, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_LXOR, MPI_BXOR, VSHIM_OP_MAX };

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm*);
int MPI_Get_processor_name(char*, int*);
int MPI_Send(const void*, int, MPI_Datatype, int dest, int tag, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int dest, int tag, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int dest, int tag, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int dest, int tag, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int src, int tag, MPI_Comm, int*, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int root, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Barrier(MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Error_string(int, char*, int*);
int MPI_Error_class(int, int*);
#endif
