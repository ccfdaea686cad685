#include "fakempi.hpp"
using namespace fake;
static void take(int k, MPI_Status* st) { if (st) { Msg& m = S()->msg[k]; st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->bytes = m.len; } }
int MPI_Init(int*, char***) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = S() ? me() : 0; return 0; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = S() ? S()->size : 1; return 0; }
int MPI_Send(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) { int mode = S()->mode; put(p, n * (t == MPI_BYTE ? 1 : t), dst, tag, mode == 1 || (mode == 2 && draw(2))); return 0; }
int MPI_Ssend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) { put(p, n * (t == MPI_BYTE ? 1 : t), dst, tag, true); return 0; }
static int await(int src, int tag) { Shm* s = S(); s->state[me()] = WAITMSG; s->wsrc[me()] = src; s->wtag[me()] = tag; handover(); return match(me(), src, tag); }
int MPI_Recv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* st) {
  int k = await(src, tag); if (k < 0) abort(); Msg& m = S()->msg[k]; int room = n * (t == MPI_BYTE ? 1 : t);
  if (m.len > room) abort(); // truncation is an error of the program
  memcpy(p, S()->bytes + m.off, m.len); m.taken = true; take(k, st); step(); return 0; }
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status* st) { int k = await(src, tag); if (k < 0) abort(); take(k, st); return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm, int* f, MPI_Status* st) { step(); int k = match(me(), src, tag); *f = k >= 0; if (k >= 0) take(k, st); return 0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->bytes / (t == MPI_BYTE ? 1 : t); return 0; }
int MPI_Barrier(MPI_Comm) { Shm* s = S(); s->wround[me()] = s->round; if (++s->arrived == s->size) { s->arrived = 0; ++s->round; } s->state[me()] = WAITBAR; handover(); return 0; }
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c) { MPI_Barrier(c); if (me() == root) memcpy(&S()->value, p, sizeof(int)); MPI_Barrier(c); if (me() != root) memcpy(p, &S()->value, sizeof(int)); MPI_Barrier(c); return 0; }
int MPI_Abort(MPI_Comm, int) { abort(); }
double MPI_Wtime() { return 0; }
