// Bit-string initialisers, mutations and crossovers.
#include <eo>
#include <ga.h>
#include <ga/eoStandardBitMutation.h>
#include "vt.hpp"
#include "eo_extreme.hpp"
using namespace vt;
template <class X> IV iv(const X& x) { IV v; for (size_t i = 0; i < x.size(); ++i) v.push_back(x[i] ? 1 : 0); return v; }
uint32_t seed0; bool extreme; std::vector<uint32_t> draws;
// choose how the generator starts, and start it (again) that way
void pick(Rng& r) { seed0 = r.next() % 1000000 + 1; extreme = r.coin(1, 3); draws.clear(); if (extreme) { int k = r.in(1, 5); for (int i = 0; i < k; ++i) draws.push_back(r.coin() ? 0u : 0xffffffffu); } }
void start() { eo::rng.reseed(seed0); eo::rng.clearCache(); if (extreme) nextdraws(eo::rng, draws, seed0); }
template <class X> struct Bits { Rng& r; Bits(Rng& r) : r(r) {}
  X make(int n) { X x; for (int i = 0; i < n; ++i) x.push_back(r.coin()); x.fitness(1); return x; }
  // the same start must lead to the same result, whatever was drawn from other generators meanwhile
  void mut(const char* kind, std::function<eoMonOp<X>*()> mk, int n, int k, IVV a = IVV()) { X x = make(n), y = x; if (r.coin(1, 8)) for (int i = 0; i < n; ++i) x[i] = y[i] = (n % 2); IV p = iv(x); pick(r); mark(std::string("bit mutation ") + kind + " on " + std::to_string(n)); { std::unique_ptr<eoMonOp<X> > op(mk()); start(); (*op)(x); } Ev("mut").f("kind", kind).f("k", k).f("a", a).f("p", p).f("r", iv(x)); if (r.coin(1, 4)) { rand(); std::unique_ptr<eoMonOp<X> > op(mk()); start(); (*op)(y); Ev("repro").f("kind", std::string("again-") + kind).f("r", iv(x)).f("s", iv(y)); } }
  void cross(const char* kind, std::function<eoQuadOp<X>*()> mk, int n, int m, int k, int g = 0) { X x = make(n), y = n == m && r.coin(1, 6) ? x : make(m), x2 = x, y2 = y; IV p = iv(x), q = iv(y); pick(r); mark(std::string("bit crossover ") + kind + " on " + std::to_string(n) + "," + std::to_string(m)); { std::unique_ptr<eoQuadOp<X> > op(mk()); start(); (*op)(x, y); } Ev("cross").f("kind", kind).f("k", k).f("g", g).f("p", p).f("q", q).f("r", iv(x)).f("s", iv(y)); if (r.coin(1, 4)) { rand(); std::unique_ptr<eoQuadOp<X> > op(mk()); start(); (*op)(x2, y2); Ev("repro").f("kind", std::string("again-") + kind).f("r", iv(x)).f("s", iv(x2)); } }
  // an operator used again keeps to its definition (its settings do not drift)
  void used(const char* kind, eoMonOp<X>& op, int k, IVV a = IVV()) { for (int i = 0; i < 3; ++i) { X x = make(r.in(1, 9)); while ((int)x.size() < k) x.push_back(r.coin()); IV p = iv(x); op(x); Ev("mut").f("kind", kind).f("k", k).f("a", a).f("p", p).f("r", iv(x)); } }
  void all() { int n = r.in(1, 9), k = r.in(0, n), e = r.in(0, 8);
    mut("one", [] { return new eoOneBitFlip<X>; }, n, 1); { int kk = r.in(0, 6); mut("det", [=] { return new eoDetBitFlip<X>(kk); }, n, kk); mut("det", [] { return new eoDetBitFlip<X>; }, n, 1); }
    mut("single", [=] { return new eoDetSingleBitFlip<X>(k); }, n, k); mut("single", [] { return new eoDetSingleBitFlip<X>; }, n, 1); mut("single", [=] { auto* o = new eoDetSingleBitFlip<X>(1); o->number_bits(k); return o; }, n, k);
    mut("rate", [=] { return new eoBitMutation<X>(e / 8.0); }, n, e); mut("rate", [=] { return new eoBitMutation<X>(e / 8.0 * n, true); }, n, e); mut("rate", [=] { return new eoBitMutation<X>(); }, n, 1); { bool z = r.coin(); mut("rate", [=] { return new eoBitMutation<X>(z ? 0.0 : 1.0); }, n, z ? 0 : 8); mut("rate", [=] { return new eoBitMutation<X>(z ? 0.0 : n, true); }, n, z ? 0 : 8); }
    mut("inv", [] { return new eoBitInversion<X>; }, n, 0); mut("next", [] { return new eoBitNext<X>; }, n, 0); mut("prev", [] { return new eoBitPrev<X>; }, n, 0);
    mut("standard", [=] { return new eoStandardBitMutation<X>(e / 8.0); }, n, e == 0 && n == 1 ? 8 : e); mut("conditional", [=] { return new eoConditionalBitMutation<X>(e / 8.0); }, n, e); mut("shifted", [=] { return new eoShiftedBitMutation<X>(e / 8.0); }, n, e); mut("shifted", [=] { return new eoShiftedBitMutation<X>(); }, n, 4);
    mut("uniform", [] { return new eoUniformBitMutation<X>; }, n, 0); { int w = r.below(3); mut("normal", [=] { return w == 0 ? new eoNormalBitMutation<X> : new eoNormalBitMutation<X>(w * 1.5, 2.0); }, n, 0); } mut("fast", [=] { return e % 2 ? new eoFastBitMutation<X> : new eoFastBitMutation<X>(1.1 + e / 4.0); }, n, 0);
    { IVV a; std::vector<std::vector<int> > bk; std::vector<double> w; int c = r.in(1, 3), some = r.below(c); for (int i = 0; i < c; ++i) { int lo = r.in(0, n), hi = r.in(lo, n); int ww = i == some ? r.in(1, 3) : r.in(0, 3); bk.push_back({lo, hi}); w.push_back(ww); a.push_back(IV{lo, hi, ww}); } mut("bucket", [=] { return new eoBucketBitMutation<X>(bk, w); }, n, 0, a); }
    { eoDetSingleBitFlip<X> o(1); used("single", o, 1); eoConditionalBitMutation<X> c(0.25); used("conditional", c, 2); eoShiftedBitMutation<X> s; used("shifted", s, 4); eoBitMutation<X> b(1.0); used("rate", b, 8); eoOneBitFlip<X> f; used("one", f, 1); eoDetBitFlip<X> d(3); used("det", d, 3); eoBitNext<X> nx; used("next", nx, 0); }
    int m = r.coin() ? n : r.in(1, 9);
    cross("1pt", [] { return new eo1PtBitXover<X>; }, n, m, 1); { int np = r.in(1, 10); cross("npt", [=] { return new eoNPtsBitXover<X>(np); }, n, m, np); cross("npt", [] { return new eoNPtsBitXover<X>; }, n, m, 2); }
    { int g = r.in(1, 4), np = r.in(1, 6); cross("gene", [=] { return new eoBitGxOver<X>(g, np); }, n, m, np, g); cross("gene", [=] { return new eoBitGxOver<X>(g); }, n, m, 2, g); }
    cross("uni", [=] { return new eoUBitXover<X>(e / 8.0); }, n, n, e); cross("uni", [] { return new eoUBitXover<X>; }, n, n, 4);
    { eoBooleanGenerator<typename X::AtomType> g(e / 8.0); eoInitFixedLength<X> in(n, g); X x = make(r.in(0, 5)); eo::rng.reseed(seed0); in(x); Ev("init").f("kind", "fixed").f("n", n).f("m", 0).f("len", x.size()).f("dim", in.dimension()).f("valid", !x.invalid());
      typedef eoVector<double, int> VV; struct A : eoInit<int> { void operator()(int& b) { b = eo::rng.flip(); } } a; int hi = r.in(n + 1, n + 4); eoInitVariableLength<VV> v(n, hi, a); VV y(r.in(0, 3), 1); y.fitness(3); pick(r); start(); v(y); Ev("init").f("kind", "variable").f("n", n).f("m", hi).f("len", y.size()).f("dim", 0).f("valid", !y.invalid());
      int lo = r.in(0, 3), h2 = r.in(0, 3); bool t = false; try { eoInitVariableLength<VV> w(lo, h2, a); } catch (std::exception&) { t = true; } Ev("badinit").f("n", lo).f("m", h2).f("threw", t); } }
  void rates() { int n = 10, K = 1500; for (int e = 1; e < 8; ++e) { auto go = [&](const char* kind, eoMonOp<X>& op) { long c = 0; for (int i = 0; i < K; ++i) { X x = make(n), y = x; op(x); for (int j = 0; j < n; ++j) c += x[j] != y[j]; } Ev("rates").f("kind", std::string("rate-") + kind).f("K", K).f("n", n).f("k", e).f("c", c); };
      eoBitMutation<X> b(e / 8.0); go("bit", b); eoBitMutation<X> bn(e / 8.0 * n, true); go("bitn", bn); eoStandardBitMutation<X> s(e / 8.0); go("standard", s);
      eoUBitXover<X> u(e / 8.0); long c = 0; for (int i = 0; i < K; ++i) { X x(n, false), y(n, true); u(x, y); for (int j = 0; j < n; ++j) c += x[j]; } Ev("rates").f("kind", "rate-uni").f("K", K).f("n", n).f("k", e).f("c", c); }
    auto reach = [&](const char* kind, eoMonOp<X>& op) { IV c(7, 0); for (int i = 0; i < 1500; ++i) { X x = make(7), y = x; op(x); for (int j = 0; j < 7; ++j) c[j] += x[j] != y[j]; } Ev("reach").f("kind", std::string("reach-") + kind).f("c", c); };
    eoOneBitFlip<X> o; reach("one", o); eoDetBitFlip<X> d(3); reach("det", d); eoDetSingleBitFlip<X> s(2); reach("single", s); eoStandardBitMutation<X> t; reach("standard", t); eoConditionalBitMutation<X> cd; reach("conditional", cd); eoShiftedBitMutation<X> sh; reach("shifted", sh); eoUniformBitMutation<X> un; reach("uniform", un); eoFastBitMutation<X> fa; reach("fast", fa); eoBitInversion<X> iv0; reach("inv", iv0); }
};
typedef eoBit<double> B; typedef eoBit<eoMinimizingFitness> M;
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 14 * args().scale; ++ep) { eo::rng.reseed(r.next() % 100000 + 1); if (ep % 2) Bits<B>(r).all(); else Bits<M>(r).all(); if (ep == args().shard % 2) { if (ep % 2) Bits<B>(r).rates(); else Bits<M>(r).rates(); } }
  return done(); }
