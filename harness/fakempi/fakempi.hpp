#ifndef FAKEMPI_HPP
#define FAKEMPI_HPP
#include <mpi.h>
#include <functional>
#include <string>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
namespace fake {
enum { MAXR = 12, MAXM = 4096, POOL = 1 << 22, LOG = 1 << 22 };
enum State { READY, WAITMSG, WAITTAKEN, WAITBAR, GONE };
struct Msg { int src, dst, tag, len, off; bool taken, sync; };
struct Shm {
  int size, mode, nmsg, pool, nlog, steps, arrived, round, value;
  bool stuck, full, broken;
  uint64_t seed;
  int state[MAXR], wsrc[MAXR], wtag[MAXR], wmsg[MAXR], wround[MAXR];
  sem_t go[MAXR];
  Msg msg[MAXM]; char bytes[POOL]; char log[LOG];
};
inline Shm*& S() { static Shm* s = 0; return s; }
inline int& me() { static int r = 0; return r; }
inline int draw(int n) { uint64_t z = (S()->seed += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (int)((z ^ (z >> 31)) % (uint64_t)n); }
// first pending message of every (source, tag) that a receive could take
inline int match(int dst, int src, int tag) {
  std::vector<int> c; Shm* s = S();
  for (int k = 0; k < s->nmsg; ++k) { Msg& m = s->msg[k]; if (m.taken || m.dst != dst || (src >= 0 && m.src != src) || (tag >= 0 && m.tag != tag)) continue;
    bool first = true; for (int j : c) if (s->msg[j].src == m.src && s->msg[j].dst == dst) first = false;
    if (first) c.push_back(k); }
  return c.empty() ? -1 : c[draw((int)c.size())];
}
inline bool any(int dst, int src, int tag) { Shm* s = S(); for (int k = 0; k < s->nmsg; ++k) { Msg& m = s->msg[k]; if (!m.taken && m.dst == dst && (src < 0 || m.src == src) && (tag < 0 || m.tag == tag)) return true; } return false; }
inline bool canrun(int r) { Shm* s = S(); switch (s->state[r]) {
  case READY: return true;
  case WAITMSG: return any(r, s->wsrc[r], s->wtag[r]);
  case WAITTAKEN: return s->msg[s->wmsg[r]].taken;
  case WAITBAR: return s->round > s->wround[r];
  default: return false; } }
inline void handover() {
  Shm* s = S(); std::vector<int> c; bool all = true;
  if (++s->steps > 200000) { s->broken = true; }
  for (int r = 0; r < s->size; ++r) { if (s->state[r] != GONE) all = false; if (canrun(r)) c.push_back(r); }
  if (all) return;
  if (c.empty() || s->broken) { s->stuck = true; for (int r = 0; r < s->size; ++r) sem_post(&s->go[r]); _exit(77); }
  int r = c[draw((int)c.size())];
  if (r == me()) { s->state[r] = READY; return; }
  sem_post(&s->go[r]);
  if (s->state[me()] == GONE) return;
  while (sem_wait(&s->go[me()]) != 0) {}
  if (s->stuck) _exit(77);
  s->state[me()] = READY;
}
inline void step() { S()->state[me()] = READY; handover(); }
inline void log(const std::string& line) { Shm* s = S(); if (s->nlog + (int)line.size() + 1 >= LOG) { s->full = true; return; } memcpy(s->log + s->nlog, line.data(), line.size()); s->nlog += line.size(); s->log[s->nlog++] = '\n'; }
inline void put(const void* p, int bytes, int dst, int tag, bool sync) {
  Shm* s = S(); if (dst < 0 || dst >= s->size) { abort(); }
  if (s->nmsg >= MAXM || s->pool + bytes > POOL) { s->full = true; abort(); }
  Msg& m = s->msg[s->nmsg]; m = Msg{me(), dst, tag, bytes, s->pool, false, sync}; memcpy(s->bytes + s->pool, p, bytes); s->pool += bytes; int k = s->nmsg++;
  if (sync) { s->state[me()] = WAITTAKEN; s->wmsg[me()] = k; } else s->state[me()] = READY;
  handover();
}
struct Outcome { std::string log; int left; bool stuck, full; std::string died; };
// mode: 0 sends return at once, 1 sends wait for their receiver, 2 either
inline Outcome run(int ranks, int mode, uint64_t seed, std::function<void(int)> body) {
  Shm* s = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (s == (Shm*)MAP_FAILED) { perror("mmap"); exit(3); }
  S() = s; s->size = ranks; s->mode = mode; s->seed = seed;
  for (int r = 0; r < ranks; ++r) { sem_init(&s->go[r], 1, 0); s->state[r] = READY; }
  std::vector<pid_t> pid(ranks);
  for (int r = 0; r < ranks; ++r) { pid[r] = fork(); if (pid[r] < 0) { perror("fork"); exit(3); }
    if (pid[r] == 0) { me() = r; for (int g : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(g, SIG_DFL); alarm(25);
      while (sem_wait(&s->go[r]) != 0) {}
      if (s->stuck) _exit(77);
      int rc = 0;
      try { body(r); } catch (std::exception& e) { rc = 78; } catch (...) { rc = 78; }
      s->state[r] = GONE; if (rc == 0) handover(); _exit(rc); } }
  sem_post(&s->go[draw(ranks)]);
  Outcome o; o.left = 0;
  for (int k = 0; k < ranks; ++k) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { --k; continue; }
    int r = 0; while (r < ranks && pid[r] != p) ++r; if (r < ranks) pid[r] = 0;
    bool ok = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77);
    if (!ok && o.died.empty()) { o.died = "rank " + std::to_string(r) + (WIFSIGNALED(st) ? " signal " + std::to_string(WTERMSIG(st)) : " exception"); for (int q = 0; q < ranks; ++q) if (pid[q] > 0) kill(pid[q], SIGKILL); } }
  for (int k = 0; k < s->nmsg; ++k) if (!s->msg[k].taken) ++o.left;
  o.log.assign(s->log, s->nlog); o.stuck = s->stuck; o.full = s->full;
  for (int r = 0; r < ranks; ++r) sem_destroy(&s->go[r]);
  munmap(s, sizeof(Shm)); S() = 0;
  return o;
}
}
#endif
