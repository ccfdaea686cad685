// Estimation-of-distribution runs: every call the algorithm makes, in order.
#include "vt.hpp"
#include <eo>
#include <ga.h>
#include <es.h>
#include <edo>
using namespace vt;
typedef eoInt<eoMinimizingFitness> X;
static long objective(const X& x) { long s = 1; for (int v : x) s = (s * 31 + v) % 1009; return s; }
static IV iv(const X& x) { return IV(x.begin(), x.end()); }
static IVV all(const eoPop<X>& p) { IVV o; for (auto& x : p) o.push_back(iv(x)); return o; }
static IV known(const eoPop<X>& p) { IV o; for (auto& x : p) o.push_back(!x.invalid() && (double)x.fitness() == objective(x)); return o; }
struct D : edoDistrib<X> { int id; D() : id(0) {} unsigned size() { return 1; } };
static int Next; static D* shared;
static long cur() { return shared ? shared->id : -1; }
struct Est : edoEstimatorAdaptive<D> { const char* op; Est(D& d, const char* op) : edoEstimatorAdaptive<D>(d), op(op) {} D operator()(eoPop<X>& p) { D d; d.id = ++Next; Ev(op).f("pop", all(p)).f("ok", known(p)).f("cur", cur()).f("id", d.id); return d; } };
struct Sel : eoSelect<X> { Rng& r; Sel(Rng& r) : r(r) {} void operator()(const eoPop<X>& p, eoPop<X>& s) { IVV had = all(s); s.clear(); for (int k = r.in(1, p.size() + 1); k > 0; --k) s.push_back(p[r.below(p.size())]); Ev("select").f("pop", all(p)).f("ok", known(p)).f("had", had).f("sel", all(s)); } };
struct Smp : edoSampler<D> { int made = 0; using edoSampler<D>::edoSampler; X sample(D& d) { X x; x.push_back(d.id); x.push_back(++made); return x; } };
// records what leaves the sampler
struct Fix : edoRepairer<X> { void operator()(X& x) { x.push_back(x.back() % 3); Ev("sample").f("id", x[0]).f("x", iv(x)); } };
struct Eval : eoEvalFunc<X> { void operator()(X& x) { x.fitness(objective(x)); } };
struct PopEval : eoPopEvalFunc<X> { bool both; PopEval(bool b) : both(b) {} void operator()(eoPop<X>& p, eoPop<X>& o) { IVV was = all(o); for (auto& x : o) x.fitness(objective(x)); Ev("evaluate").f("pop", all(p)).f("off", was); } };
struct Rep : eoReplacement<X> { Rng& r; int how; Rep(Rng& r, int h) : r(r), how(h) {} void operator()(eoPop<X>& p, eoPop<X>& o) { IVV a = all(p), b = all(o); IV ok = known(o); if (how == 0) p.swap(o); else { eoPop<X> m; for (auto& x : p) if (r.coin()) m.push_back(x); for (auto& x : o) if (r.coin()) m.push_back(x); if (m.empty()) m.push_back(o[0]); if (how == 1) { while (m.size() < p.size()) m.push_back(o[r.below(o.size())]); m.resize(p.size()); } p = m; if (r.coin()) o.clear(); } Ev("replace").f("pop", a).f("off", b).f("ok", ok).f("out", all(p)); } };
struct Pc : eoContinue<X> { int left = 0; bool operator()(const eoPop<X>& p) { bool go = --left > 0; Ev("popcont").f("pop", all(p)).f("ok", known(p)).f("r", go); return go; } };
struct Dc : edoContinue<D> { int left = 0; bool operator()(const D& d) { bool go = --left > 0; Ev("discont").f("id", d.id).f("r", go); return go; } };
static void run(Rng& r) { int v = r.below(5); static const char* K[] = {"adaptive-init", "adaptive-cont", "adaptive", "stateless-cont", "stateless"}; D given; given.id = 0; Next = 0; shared = v < 3 ? &given : 0; Est est(given, "estimate"), first(given, "first"); Sel sel(r); Fix fix; Smp smp(fix); PopEval pe(r.coin()); Rep rep(r, r.below(3)); Pc pc; Dc dc;
  bool wrap = r.coin(); edoCombinedContinue<D> comb(dc); edoDummyContinue<D> yes; comb.add(yes); edoContinue<D>& dd = wrap ? (edoContinue<D>&)comb : dc; std::unique_ptr<edoAlgo<D> > a;
  switch (v) { case 0: a.reset(new edoAlgoAdaptive<D>(given, pe, sel, est, first, smp, rep, pc, dd)); break; case 1: a.reset(new edoAlgoAdaptive<D>(given, pe, sel, est, smp, rep, pc, dd)); break; case 2: a.reset(new edoAlgoAdaptive<D>(given, pe, sel, est, smp, rep, pc)); break; case 3: a.reset(new edoAlgoStateless<D>(pe, sel, est, smp, rep, pc, dd)); break; default: a.reset(new edoAlgoStateless<D>(pe, sel, est, smp, rep, pc)); }
  for (int again = r.in(1, 2); again > 0; --again) { pc.left = r.in(1, 5); dc.left = r.coin(1, 3) ? r.in(1, 4) : 99; eoPop<X> p; for (int n = r.in(1, 6); n > 0; --n) { X x; x.push_back(-1); x.push_back(n); x.fitness(objective(x)); p.push_back(x); } mark(K[v]); Ev("start").f("kind", K[v]).f("pop", all(p)).f("cur", cur()).f("own", v == 0).f("judged", v != 2 && v != 4); (*a)(p); Ev("end").f("pop", all(p)).f("ok", known(p)).f("cur", cur()); } }
// the library's own distributions in a run
typedef eoReal<eoMinimizingFitness> R;
static double sphere(const R& x) { double s = 0; for (size_t i = 0; i < x.size(); ++i) s += (x[i] - i) * (x[i] - i); return s; }
struct REval : eoEvalFunc<R> { void operator()(R& x) { x.fitness(sphere(x)); } };
template <class N, class Es, class S> static void real(Rng& r, const char* kind, bool adaptive, N dist) { int d = r.in(2, 3), n = r.in(8, 12), gens = r.in(1, 4); R lo(d, -4.0), hi(d, 4.0); REval ev; eoPopLoopEval<R> pe(ev); eoDetSelect<R> sel(0.5); edoBounderBound<R> b(lo, hi); S smp(b); eoCommaReplacement<R> comma; eoPlusReplacement<R> plus; bool keep = r.coin(); eoReplacement<R>& rep = keep ? (eoReplacement<R>&)plus : comma; eoRealVectorBounds vb(d, -4.0, 4.0); eoRealInitBounded<R> in(vb); Es est; eoPop<R> p(n, in); pe(p, p); double was = p.best_element().fitness();
  struct C : eoContinue<R> { int left, done = 0; C(int l) : left(l) {} bool operator()(const eoPop<R>&) { ++done; return --left > 0; } } ct(gens); mark(kind); std::unique_ptr<edoAlgo<N> > a; if (adaptive) a.reset(new edoAlgoAdaptive<N>(dist, pe, sel, est, smp, rep, ct)); else if constexpr (std::is_default_constructible<N>::value) a.reset(new edoAlgoStateless<N>(pe, sel, est, smp, rep, ct)); (*a)(p); IV ok, in2; for (auto& x : p) { ok.push_back(!x.invalid() && (double)x.fitness() == sphere(x)); bool inside = (int)x.size() == d; for (double y : x) inside = inside && y >= -4 && y <= 4; in2.push_back(inside); }
  Ev("whole").f("kind", kind).f("n", n).f("size", p.size()).f("ok", ok).f("inside", in2).f("keep", keep).f("better", (double)p.best_element().fitness() <= was).f("gens", gens).f("done", ct.done); }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; eo::rng.reseed(r.next() % 100000 + 1);
  for (long ep = 0; ep < 60 * args().scale; ++ep) { run(r); bool ad = r.coin(); if (ep % 3 == 0) { real<edoNormalMono<R>, edoEstimatorNormalMono<R>, edoSamplerNormalMono<R> >(r, "mono", ad, edoNormalMono<R>()); real<edoNormalMulti<R>, edoEstimatorNormalMulti<R>, edoSamplerNormalMulti<R> >(r, "multi", ad, edoNormalMulti<R>()); real<edoUniform<R>, edoEstimatorUniform<R>, edoSamplerUniform<R> >(r, "uniform", true, edoUniform<R>(R(1, 0.0), R(1, 1.0))); } }
  return done(); }
