// Parallel application of a functor to a population: the shared-memory scheduler and the OpenMP loops.
#include <smp>
#include <eo>
#include <ga.h>
#include <utils/eoParallel.h>
#include <mutex>
#include <set>
#include <map>
#include <thread>
#include <atomic>
#include "vt.hpp"
using namespace vt; using namespace paradiseo::smp;

// ------------------------------------------------------------ an individual that remembers who it is
struct Ind : public EO<double> { int id = 0; std::atomic<int> marks{0}; Ind() {} Ind(const Ind& o) : EO<double>(o), id(o.id), marks(o.marks.load()) {} Ind& operator=(const Ind& o) { EO<double>::operator=(o); id = o.id; marks = o.marks.load(); return *this; } };
static std::mutex gm; static std::map<std::thread::id, int> tids;
static int me() { auto it = tids.find(std::this_thread::get_id()); if (it != tids.end()) return it->second; int k = tids.size() + 1; return tids[std::this_thread::get_id()] = k; }
static void work(unsigned h) { switch (h % 7) { case 0: std::this_thread::sleep_for(std::chrono::microseconds(h / 7 % 300)); break; case 1: case 2: std::this_thread::yield(); break; case 3: for (volatile unsigned k = 0; k < (h / 7 % 3000); k = k + 1) ; break; default: break; } }
struct Probe : public eoEvalFunc<Ind> {
  unsigned salt = 0;
  void operator()(Ind& x) {
    int t; { std::lock_guard<std::mutex> g(gm); t = me(); Ev("in").f("i", x.id).f("t", t); }
    x.marks = x.marks + 1; x.fitness(x.id); work(salt * 2654435761u + x.id * 40503u);
    { std::lock_guard<std::mutex> g(gm); Ev("out").f("i", x.id).f("t", t); }
  }
};
static eoPop<Ind> fresh(int n) { eoPop<Ind> p; for (int i = 1; i <= n; ++i) { Ind x; x.id = i; p.push_back(x); } return p; }
static void begin(const char* kind, int n, int w) { tids.clear(); Ev("apply").f("kind", kind).f("n", n).f("w", w); }
static void finish(const eoPop<Ind>& p) { std::lock_guard<std::mutex> g(gm); IV a, b; for (auto& x : p) { a.push_back(x.id); b.push_back(x.marks); } Ev("end").f("ids", a).f("marks", b); }
template <class Pol> static void sched(Rng& r, const char* kind, int maxw) {
  mark(kind); int w = r.in(1, maxw); Scheduler<Ind, Pol> s(w); Probe f;
  for (int k = r.in(1, 4); k > 0; --k) { int n = r.coin(1, 8) ? 0 : r.coin() ? r.in(1, 2 * w) : r.in(1, 40); f.salt = (unsigned)r.next(); eoPop<Ind> p = fresh(n); begin(kind, n, w); s(f, p); finish(p); }
}
// ------------------------------------------------------------ whole algorithms
typedef eoBit<double> Bits;
static std::atomic<long> evals;
struct BEval : public eoEvalFunc<Bits> { void operator()(Bits& b) { ++evals; double s = 0; for (unsigned i = 0; i < b.size(); ++i) s += b[i] ? (double)(i + 1) : 0; work((unsigned)s * 97u); b.fitness(s); } };
typedef eoRealParticle<eoMinimizingFitness> Part;
struct PEval : public eoEvalFunc<Part> { void operator()(Part& x) { ++evals; double s = 0; for (double v : x) s += v * v; work((unsigned)(s * 1000)); x.fitness(s); } };
template <class T> static std::vector<std::string> texts(const eoPop<T>& p) { std::vector<std::string> o; for (auto& x : p) { std::ostringstream s; s.precision(17); s << x; o.push_back(s.str()); } return o; }
template <class T> static void same(const char* kind, const eoPop<T>& a, long ea, const eoPop<T>& b, long eb) { Ev("same").f("kind", kind).f("got", texts(a)).f("want", texts(b)).f("evals", ea).f("wevals", eb); }
template <class Pol> static void easyea(Rng& r, const char* kind) {
  mark(kind); unsigned seed = r.next(); int n = r.in(3, 12), gens = r.in(1, 5), w = r.in(1, 5), repl = r.below(2);
  auto run = [&](bool par) {
    eo::rng.reseed(seed); evals = 0; BEval ev; eoUniformGenerator<bool> g; eoInitFixedLength<Bits> init(8, g); eoPop<Bits> pop(n, init); for (auto& x : pop) x.invalidate();
    eoDetTournamentSelect<Bits> one(2); eoSelectPerc<Bits> sel(one); eo1PtBitXover<Bits> xo; eoBitMutation<Bits> mu(0.2); eoSGATransform<Bits> tr(xo, 0.8, mu, 0.7); eoPlusReplacement<Bits> plus; eoGenerationalReplacement<Bits> gen; eoReplacement<Bits>& rep = repl ? (eoReplacement<Bits>&)plus : (eoReplacement<Bits>&)gen; eoGenContinue<Bits> cont(gens);
    if (par) { MWModel<eoEasyEA, Bits, Pol> mw(w + 0u, cont, ev, sel, tr, rep); mw(pop); } else { eoEasyEA<Bits> ea(cont, ev, sel, tr, rep); ea(pop); }
    return std::make_pair(pop, (long)evals); };
  auto a = run(true); auto b = run(false); same(kind, a.first, a.second, b.first, b.second);
}
template <template <class> class A, class Pol> static void swarm(Rng& r, const char* kind) {
  mark(kind); unsigned seed = r.next(); int n = r.in(4, 10), gens = r.in(1, 4), w = r.in(1, 5);
  auto run = [&](bool par) {
    eo::rng.reseed(seed); evals = 0; PEval ev; eoUniformGenerator<double> g(-3, 3); eoInitFixedLength<Part> init(3, g); eoPop<Part> pop(n, init); apply<Part>(ev, pop);
    eoUniformGenerator<double> gv(-1, 1); eoVelocityInitFixedLength<Part> vi(3, gv); eoFirstIsBestInit<Part> bi; eoLinearTopology<Part> topo(3); eoInitializer<Part> in(ev, vi, bi, topo, pop);
    eoRealVectorBounds bnd(3, -2, 2); eoStandardVelocity<Part> vel(topo, 0.7, 1.1, 1.3, bnd); eoStandardFlight<Part> fl; eoGenContinue<Part> cont(gens);
    if (par) { MWModel<A, Part, Pol> mw(w + 0u, in, cont, ev, vel, fl); mw(pop); } else { eoSyncEasyPSO<Part> p(in, cont, ev, vel, fl); p(pop); }
    return std::make_pair(pop, (long)evals); };
  auto a = run(true); auto b = run(false); same(kind, a.first, a.second, b.first, b.second);
}
static void model(Rng& r) {
  mark("model apply"); BEval ev; eoDetTournamentSelect<Bits> one(2); (void)one;
  eoGenContinue<Ind> cont(1); struct Sel : eoSelect<Ind> { void operator()(const eoPop<Ind>&, eoPop<Ind>&) {} } sel; struct Tr : eoTransform<Ind> { void operator()(eoPop<Ind>&) {} } tr; struct Rep : eoReplacement<Ind> { void operator()(eoPop<Ind>&, eoPop<Ind>&) {} } rep; Probe f; f.salt = (unsigned)r.next();
  int w = r.in(1, 4), n = r.in(0, 15); MWModel<eoEasyEA, Ind> mw(w + 0u, cont, f, sel, tr, rep); eoPop<Ind> p = fresh(n);
  begin("mwapply", n, w); mw.apply(f, p); finish(p);
  eoPop<Ind> q = fresh(n); begin("mweval", n, w); mw.evaluate(q); finish(q);
  MWModel<eoEasyEA, Ind> all(cont, f, sel, tr, rep); eoPop<Ind> z = fresh(n); begin("mwall", n, std::thread::hardware_concurrency()); all.evaluate(z); finish(z);
}
static void configure(bool on, bool dyn, int threads) {
  std::vector<std::string> a{"prog", std::string("--parallelize-loop=") + (on ? "1" : "0"), std::string("--parallelize-dynamic=") + (dyn ? "1" : "0"), "--parallelize-nthreads=" + std::to_string(threads)};
  std::vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); eoParser p((int)v.size(), v.data()); make_parallel(p);
}
static void loops(Rng& r) {
  mark("loop"); bool on = r.coin(3, 4), dyn = r.coin(); int th = r.in(1, 5); configure(on, dyn, th); Probe f;
  for (int k = r.in(1, 3); k > 0; --k) {
    int n = r.coin(1, 8) ? 0 : r.in(1, 30); f.salt = (unsigned)r.next();
    eoPop<Ind> p = fresh(n);
#ifdef _OPENMP
    int w = on ? th : 1; const char* kind = on ? (dyn ? "loopdyn" : "loopstat") : "loopoff";
#else
    int w = 1; const char* kind = "plain";
#endif
    begin(kind, n, w);
    if (r.coin()) apply<Ind>(f, p); else { eoPop<Ind> none; eoPopLoopEval<Ind> le(f); le(none, p); }
    finish(p);
  }
}
int main(int argc, char** argv) {
  init(argc, argv); Rng r(shardseed()); Silence q;
  for (int ep = 0; ep < 24 * args().scale; ++ep) guarded("episode", [&] {
    if (args().mode == "omp") { for (int k = 0; k < 6; ++k) loops(r); return; }
    for (int k = 0; k < 3; ++k) { sched<LinearPolicy>(r, "linear", 8); sched<ProgressivePolicy>(r, "progressive", 4); }
    model(r); loops(r); easyea<LinearPolicy>(r, "ea-linear"); easyea<ProgressivePolicy>(r, "ea-progressive");
    swarm<eoSyncEasyPSO, LinearPolicy>(r, "sync-linear"); swarm<eoSyncEasyPSO, ProgressivePolicy>(r, "sync-progressive"); swarm<eoEasyPSO, LinearPolicy>(r, "async-linear"); swarm<eoEasyPSO, ProgressivePolicy>(r, "async-progressive");
  });
  return done();
}
