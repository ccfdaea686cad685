// A stand-in for the message-passing library, for the drivers of the
// distributed jobs: ranks are processes forked by the driver, exactly one of
// which runs at a time; at every call the next one to run is drawn among those
// that can, so schedules and response orders are varied, reproducible, and a
// state in which nobody can run is seen at once. A standard send may return at
// once or wait for its receiver, as the interface allows.
#ifndef FAKEMPI_H
#define FAKEMPI_H
typedef int MPI_Comm;
typedef int MPI_Datatype;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes; };
#define MPI_COMM_WORLD 91
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_CHAR 1
#define MPI_BYTE 2
#define MPI_INT 4
#define MPI_DOUBLE 8
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
int MPI_Init(int*, char***);
int MPI_Initialized(int*);
int MPI_Finalize();
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime();
#endif
