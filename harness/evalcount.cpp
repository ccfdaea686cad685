// Evaluation: counters, budgets, memory of the best, population evaluation.
#include "eo_pop.hpp"
#include <ctime>
#include <atomic>
#include <eoCounter.h>
#include <eoEvalCmd.h>
#ifdef _OPENMP
#include <omp.h>
#include <utils/eoParallel.h>
#endif
static time_t gNow = 1000000;      // the clock the code under test sees
extern "C" time_t time(time_t* t) noexcept { if (t) *t = gNow; return gNow; }
static long gCalls = 0, gHi = 0, gLo = 0;
static double objective(long x) { if (x == 666) return std::nan(""); return 2 * x + 1; }
static long obj2(long x) { return exactint(objective(x)); }
template <class E> static double fptr(const E& x) { ++gCalls; double v = objective(x[0]); if (gCalls == 1) gHi = gLo = (long)v; gHi = std::max(gHi, (long)v); gLo = std::min(gLo, (long)v); return v; }
template <class E> static double fref(E& x) { ++gCalls; return objective(x[0]); }

template <class F> struct Suite {
  typedef Ind<F> E; typedef eoPop<E> P; enum { D = Dir<F>::v };
  Rng r; std::string dir; Suite(uint64_t s, std::string d) : r(s), dir(d) {}
  struct Raw1 : eoEvalFunc<E> { void operator()(E& x) { x.fitness(F(fptr(x))); } } raw;   // evaluates whatever it is given
  static F asF(const E& x) { return F(fptr(x)); }
  static F asF2(E& x) { return F(fref(x)); }
  E some(bool nan) { E x(1, nan && r.coin(1, 6) ? 666 : r.in(-4, 4)); if (r.coin(1, 3)) x.fitness(F(r.in(-9, 9))); return x; }

  void wrappers() {
    int which = r.below(8); std::unique_ptr<eoEvalFunc<E> > inner, e; long max = 0; const char* kind = "count"; eoEvalFunc<E>* base = &raw;
    std::unique_ptr<eoEvalFuncPtr<E, F> > p1; std::unique_ptr<eoEvalFuncPtr<E, F, E&> > p2;
    p1.reset(new eoEvalFuncPtr<E, F>(asF)); p2.reset(new eoEvalFuncPtr<E, F, E&>(asF2));
    int b = r.below(3); if (which != 5 && b == 1) base = p1.get(); if (which != 5 && b == 2) base = p2.get();
    eoValueParam<unsigned long>* ctr = nullptr; eoEvalKeepBest<E>* keep = nullptr; gCalls = 0;
    if (which == 0) { auto* c = new eoEvalFuncCounter<E>(*base); e.reset(c); ctr = c; }
    else if (which == 1) { kind = "budget"; max = r.in(0, 8); auto* c = new eoEvalCounterThrowException<E>(*base, max); e.reset(c); ctr = c; }
    else if (which == 2) { kind = "time"; max = r.in(0, 10); auto* c = new eoEvalTimeThrowException<E>(*base, max); e.reset(c); ctr = c; }
    else if (which == 3) { kind = "utime"; max = r.coin() ? 0 : 1000000; auto* c = new eoEvalUserTimeThrowException<E>(*base, max); e.reset(c); ctr = c; }
    else if (which == 4) { kind = "nan"; e.reset(new eoEvalNanThrowException<E>(*base)); }
    else if (which == 5) { kind = "keep"; auto* k = new eoEvalKeepBest<E>(raw); e.reset(k); keep = k; }
    else if (which == 6) { kind = "ptr"; e.reset(new eoEvalFuncPtr<E, F>(asF)); }
    else { kind = "ptr"; e.reset(new eoEvalFuncPtr<E, F, E&>(asF2)); }
    Ev("enew").f("kind", kind).f("max", max).f("dir", (int)D).f("now", (long)(gNow - 1000000));
    P pop; int n = r.in(1, 5); for (int i = 0; i < n; ++i) pop.push_back(some(which == 4));
    int T = r.in(4, 16);
    for (int t = 0; t < T; ++t) {
      E& x = pop[r.below(n)]; if (r.coin(1, 3)) x = some(which == 4); else if (r.coin(1, 4)) x.invalidate();
      IV before{(long)x[0], x.invalid() ? Inv : exactint((double)x.fitness())}; bool thrown = false; eoEvalFunc<E>& f = *e;
      try { f(x); } catch (eoException&) { thrown = true; } catch (std::exception&) { thrown = true; }
      IV after{(long)x[0], x.invalid() ? Inv : exactint((double)x.fitness())}; IV best{0, Inv}; bool found = false;
      if (keep) { E q = keep->best_element(); best = IV{(long)q[0], q.invalid() ? Inv : exactint((double)q.fitness())}; E q2 = keep->value(); if (!(q2[0] == q[0])) best = {-99, -99}; found = keep->found(); }
      { Ev v("eval"); v.f("kind", kind).f("x", before).f("y", obj2(x[0])).f("z", after).f("ncalls", gCalls).f("val", ctr ? (long)ctr->value() : -1L).f("thrown", thrown).f("now", (long)(gNow - 1000000)).f("best", best).f("found", found); }
      if (thrown && r.coin()) break;
      gNow += r.in(0, 2);
      if (keep && r.coin(1, 9)) { E q(1, 0); if (r.coin()) { q = E(1, r.in(-4, 4)); q.fitness(F(r.in(-8, 8))); keep->reset(q); } else { keep->reset(); q = E(1, 0); }
        E g = keep->best_element(); IV want{(long)q[0], q.invalid() ? Inv : exactint((double)q.fitness())}; IV got = g.size() ? IV{(long)g[0], g.invalid() ? Inv : exactint((double)g.fitness())} : IV{0, Inv}; Ev("kreset").f("best", want).f("got", got); }
    }
  }
  // per-individual call counts
  struct Slots : eoEvalFunc<E> { std::vector<std::atomic<int> > k; bool always; Slots(int n, bool a) : k(n), always(a) { for (auto& x : k) x = 0; }
    void operator()(E& x) { if (!always && !x.invalid()) return; k[x[1]]++; x.fitness(F(objective(x[0]))); } };
  P numbered(int n, int first, int maxv) { P p; for (int i = 0; i < n; ++i) { E x(2, 0); x[0] = r.in(-maxv, maxv); x[1] = first + i; if (r.coin(1, 3)) x.fitness(F(r.in(-9, 9))); p.push_back(x); } return p; }
  static IVV recs2(const P& p) { IVV o; for (auto& x : p) o.push_back(IV{(long)x[0], x.invalid() ? Inv : exactint((double)x.fitness())}); return o; }
  void emit(const char* kind, P par, P off, const std::function<void(P&, P&)>& f, Slots& sl) {
    IVV a = recs2(par), b = recs2(off); int np = (int)par.size(), no = (int)off.size(); f(par, off);
    IV pk, ok; for (int i = 0; i < np; ++i) pk.push_back(sl.k[i]); for (int i = 0; i < no; ++i) ok.push_back(sl.k[np + i]);
    Ev("epop").f("kind", kind).f("par", a).f("parz", recs2(par)).f("park", pk).f("off", b).f("offz", recs2(off)).f("offk", ok);
  }
  void pops() {
    int np = r.in(0, 6), no = r.in(0, 8); P par = numbered(np, 0, 5), off = numbered(no, np, 5);
#ifdef _OPENMP
    no = r.in(1, 60); off = numbered(no, np, 9); Slots sl(np + no, false); eoPopLoopEval<E> loop(sl); emit(eo::parallel.isDynamic() ? "ompdyn" : "omp", par, off, [&](P& p, P& o) { eoPopEvalFunc<E>& q = loop; q(p, o); }, sl);
#else
    { Slots sl(np + no, false); eoEvalFuncCounter<E> c(sl); eoPopLoopEval<E> loop(c); emit("loop", par, off, [&](P& p, P& o) { eoPopEvalFunc<E>& q = loop; q(p, o); }, sl); }
    { Slots sl(np + no, true); eoTimeVaryingLoopEval<E> loop(sl); emit("vary", par, off, [&](P& p, P& o) { eoPopEvalFunc<E>& q = loop; q(p, o); }, sl); }
    { Slots sl(np + no, true); emit("apply", par, off, [&](P&, P& o) { apply<E>(sl, o); }, sl); }
#endif
  }
  // runs of a real algorithm that a budget ends
  struct Mut : eoMonOp<E> { Rng& r; Mut(Rng& q) : r(q) {} bool operator()(E& x) { x[0] += r.in(-2, 2); return true; } };
  void runs() {
    int n = r.in(1, 6), gens = r.in(1, 6); long max = r.in(1, 30); gCalls = 0; eoEvalFuncPtr<E, F> f(asF); bool outer = r.coin();
    // the memory inside the budget, or around it
    std::unique_ptr<eoEvalKeepBest<E> > keep; std::unique_ptr<eoEvalCounterThrowException<E> > e; eoEvalFunc<E>* top;
    if (outer) { e.reset(new eoEvalCounterThrowException<E>(f, max)); keep.reset(new eoEvalKeepBest<E>(*e)); top = keep.get(); }
    else { keep.reset(new eoEvalKeepBest<E>(f)); e.reset(new eoEvalCounterThrowException<E>(*keep, max)); top = e.get(); }
    Mut m(r); P pop; bool stopped = false;
    eoGenContinue<E> cont(gens); eoDetTournamentSelect<E> sel(2); eoMonGenOp<E> op(m); eoGeneralBreeder<E> br(sel, op, 1.0); eoPlusReplacement<E> rep; eoPopLoopEval<E> loop(*top);
    eoEasyEA<E> ea(cont, loop, br, rep); for (int i = 0; i < n; ++i) { E x(1, r.in(-5, 5)); pop.push_back(x); }
    try { P none; loop(none, pop); ea(pop); } catch (eoMaxEvalException&) { stopped = true; }
    E b = keep->best_element();
    // around the budget, the exception leaves before the last individual is seen
    long best = b.size() && !b.invalid() ? exactint((double)b.fitness()) : 0; if (stopped && outer) best = D ? gLo : gHi;
    Ev("run").f("max", max).f("calls", gCalls).f("val", (long)e->value()).f("stopped", stopped).f("needed", (long)n * (gens + 1)).f("best", best).f("hi", gHi).f("lo", gLo).f("dir", (int)D);
  }
  static std::string text(const E& x) { std::ostringstream o; o << x; return o.str(); }
  static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); std::string t = s.str(); if (!t.empty() && t.back() == '\n') t.pop_back(); return t; }
  void outputs() {
    std::string base = dir + "/dump" + std::to_string(args().shard);
    { int first = r.in(0, 3); eoEvalDump<E> d(raw, base, false, first, "-"); for (int i = 0; i < 3; ++i) { E x(2, 0); x[0] = r.in(-9, 9); x[1] = i; d(x); std::string f = base + "-" + std::to_string(first + i); Ev("out").f("kind", "dump").f("text", slurp(f)).f("want", text(x)).f("n", (long)d.file_count()).f("k", first + i + 1); unlink(f.c_str()); } }
    { eoEvalDump<E> d(base, true); for (int i = 0; i < 3; ++i) { E x(2, 0); x[0] = r.in(-9, 9); x.fitness(F(r.in(-5, 5))); d(x); Ev("out").f("kind", "dump1").f("text", slurp(base)).f("want", text(x)).f("n", (long)d.file_count()).f("k", i + 1); } unlink(base.c_str()); }
    { std::ostringstream o; eoEvalPrint<E> d(raw, o, "|"); std::string want; gCalls = 0; int k = r.in(1, 4); for (int i = 0; i < k; ++i) { E x(2, 0); x[0] = r.in(-9, 9); d(x); want += text(x) + "|"; } Ev("out").f("kind", "print").f("text", o.str()).f("want", want).f("n", gCalls).f("k", k); }
    if (r.coin(1, 4)) { eoEvalCmd<E> c("echo", "", std::to_string(7 + r.below(5)) + " #"); E x(2, 0); x[0] = r.in(-9, 9); c(x); std::string w = c.last_call(); std::istringstream is(w.substr(w.find("echo") + 5)); long v; is >> v; Ev("out").f("kind", "cmd").f("text", std::to_string(exactint((double)x.fitness()))).f("want", std::to_string(v)).f("n", 1).f("k", 1);
      E y(2, 0); y.fitness(F(-3)); c(y); Ev("out").f("kind", "cmd").f("text", std::to_string(exactint((double)y.fitness()))).f("want", "-3").f("n", c.last_call() == w ? 1 : 0).f("k", 1); }
  }
  struct Pr : eoF<int> { int k = 0; int operator()() { return ++k; } };
  void functors() {
    eoFunctorStore st; Pr p; int k = r.in(0, 5);
    { auto& c = make_counter(functor_category(p), p, st); bool same = true; for (int i = 0; i < k; ++i) same = same && c() == i + 1; Ev("fcount").f("kind", "proc").f("asked", k).f("val", (long)c.value()).f("ncalls", p.k).f("same", same); }
  }
};
int main(int argc, char** argv) {
  init(argc, argv); Silence q; uint64_t s = shardseed(); int sc = args().scale; eo::rng.reseed(s);
  Suite<double> A(s, args().tmp); Suite<eoMinimizingFitness> B(s + 1, args().tmp);
#ifdef _OPENMP
  for (int dyn = 0; dyn < 2; ++dyn) {
    std::string a1 = "--parallelize-loop=1", a2 = "--parallelize-dynamic=" + std::to_string(dyn), a0 = "prog", a3 = "--parallelize-nthreads=4"; char* av[] = {&a0[0], &a1[0], &a2[0], &a3[0], nullptr}; eoParser ps(4, av); make_parallel(ps);
    for (int i = 0; i < 40 * sc; ++i) guarded("pops", [&] { A.pops(); B.pops(); });
  }
#else
  for (int i = 0; i < 150 * sc; ++i) {
    guarded("wrappers", [&] { A.wrappers(); B.wrappers(); });
    if (i % 3 == 0) guarded("pops", [&] { A.pops(); B.pops(); });
    if (i % 3 == 0) guarded("runs", [&] { A.runs(); B.runs(); });
    if (i % 10 == 0) guarded("outputs", [&] { A.outputs(); B.outputs(); });
    if (i % 10 == 0) guarded("functors", [&] { A.functors(); });
  }
#endif
  return done();
}
