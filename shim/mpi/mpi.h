// A small deterministic MPI for running several vt ranks under a controlled,
// seeded schedule.  Environment, not code under test.
#ifndef VERIF_FAKE_MPI_H
#define VERIF_FAKE_MPI_H
#include <cstddef>
#include <cstdint>
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op;
typedef int MPI_Info; typedef int MPI_Errhandler; typedef int MPI_Win;
typedef int MPI_Group; typedef int MPI_Request; typedef intptr_t MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; std::size_t n_; } MPI_Status;
typedef void (MPI_Comm_errhandler_function)(MPI_Comm*, int*, ...);
#define MPI_SUCCESS 0
#define MPI_COMM_NULL (-1)
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_REQUEST_NULL (-1)
#define MPI_INFO_NULL 0
#define MPI_WIN_NULL (-1)
#define MPI_GROUP_NULL (-1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_MAX_ERROR_STRING 256
#define MPI_TAG_UB 1
#define MPI_COMM_TYPE_SHARED 1
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOSTORE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOPRECEDE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_THREAD_SINGLE 0
// datatype = (kind << 8) | size ; kind 1 signed int, 2 unsigned, 3 float, 0 bytes
#define MPI_BYTE ((0<<8)|1)
#define MPI_CHAR ((1<<8)|1)
#define MPI_SIGNED_CHAR ((1<<8)|1)
#define MPI_UNSIGNED_CHAR ((2<<8)|1)
#define MPI_WCHAR ((1<<8)|4)
#define MPI_SHORT ((1<<8)|2)
#define MPI_INT ((1<<8)|4)
#define MPI_LONG ((1<<8)|8)
#define MPI_UNSIGNED ((2<<8)|4)
#define MPI_UNSIGNED_LONG ((2<<8)|8)
#define MPI_LONG_LONG ((1<<8)|8)
#define MPI_FLOAT ((3<<8)|4)
#define MPI_DOUBLE ((3<<8)|8)
#define MPI_LONG_DOUBLE ((3<<8)|16)
#define MPI_INT8_T ((1<<8)|1)
#define MPI_INT16_T ((1<<8)|2)
#define MPI_INT32_T ((1<<8)|4)
#define MPI_INT64_T ((1<<8)|8)
#define MPI_UINT8_T ((2<<8)|1)
#define MPI_UINT16_T ((2<<8)|2)
#define MPI_UINT32_T ((2<<8)|4)
#define MPI_UINT64_T ((2<<8)|8)
#define MPI_C_BOOL ((2<<8)|1)
#define MPI_CXX_BOOL ((2<<8)|1)
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_REPLACE 5
#define MPI_NO_OP 6
#define MPI_BOR 7
#define MPI_BAND 8
#define MPI_LOR 9
#define MPI_LAND 10
extern "C" {
int MPI_Init(int*, char***); int MPI_Initialized(int*); int MPI_Finalize(); int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int); double MPI_Wtime(); int MPI_Get_version(int*, int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*);
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler); int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_group(MPI_Comm, MPI_Group*); int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_free(MPI_Group*); int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Test(MPI_Request*, int*, MPI_Status*); int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Barrier(MPI_Comm); int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*); int MPI_Free_mem(void*);
int MPI_Win_create(void*, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win*); int MPI_Win_free(MPI_Win*);
int MPI_Win_lock(int, int, int, MPI_Win); int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_fence(int, MPI_Win); int MPI_Win_sync(MPI_Win);
int MPI_Win_flush(int, MPI_Win); int MPI_Win_flush_local(int, MPI_Win); int MPI_Win_flush_all(MPI_Win);
int MPI_Put(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Get(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Rput(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request*);
int MPI_Rget(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request*);
int MPI_Accumulate(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Raccumulate(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request*);
int MPI_Fetch_and_op(const void*, void*, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
}
#endif
