// Permutation initialiser and operators.
#include <eo>
#include <ga.h>
#include <eoInt.h>
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <eoTwoOptMutation.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include "vt.hpp"
#include "eo_extreme.hpp"
using namespace vt;
template <class X> IV iv(const X& x) { IV v; for (size_t i = 0; i < x.size(); ++i) v.push_back((long)x[i]); return v; }
// the draws that operators make next: ordinary, or at the ends of their range
void arm(Rng& r) { if (r.coin()) { eo::rng.reseed(r.next() % 1000000 + 1); return; } std::vector<uint32_t> d; int k = r.in(1, 4); for (int i = 0; i < k; ++i) d.push_back(r.coin() ? 0u : 0xffffffffu); nextdraws(eo::rng, d, r.next() % 100000 + 1); }
template <class X> struct Perm { Rng& r; Perm(Rng& r) : r(r) {}
  X make(int n, int from) { X x; IV v; for (int i = 0; i < n; ++i) v.push_back(i + from); for (int i = n - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); for (long y : v) x.push_back(y); x.fitness(1); return x; }
  void mut(const char* kind, eoMonOp<X>& op, int n, int from, int k) { X x = make(n, from); IV p = iv(x); arm(r); mark(std::string("permutation mutation ") + kind + " size " + std::to_string(n)); op(x); Ev("mut").f("kind", kind).f("k", k).f("p", p).f("r", iv(x)); }
  void cross(const char* kind, eoQuadOp<X>& op, int n, int from) { X x = make(n, from), y = r.coin(1, 6) ? x : make(n, from); IV p = iv(x), q = iv(y); arm(r); mark(std::string("permutation crossover ") + kind + " size " + std::to_string(n)); op(x, y); Ev("cross").f("kind", kind).f("p", p).f("q", q).f("r1", iv(x)).f("r2", iv(y)); }
  void all() { int n = r.in(1, 8), from = r.in(0, 4);
    { eoSwapMutation<X> o; mut("swap", o, n, from, 1); int k = r.in(1, 4); eoSwapMutation<X> o2(k); mut("swap", o2, n, from, k); } { eoShiftMutation<X> o; mut("shift", o, n, from, 0); } { eoTwoOptMutation<X> o; mut("twoopt", o, n, from, 0); }
    { eoOrderXover<X> o; cross("ox", o, n, from); } { eoPartiallyMappedXover<X> o; cross("pmx", o, n, 0); }
    { eoInitPermutation<X> i0(n), i1(n, from); X x = make(r.in(0, 4), 7); arm(r); bool d = r.coin(); if (d) i0(x); else i1(x); Ev("init").f("n", n).f("from", d ? 0 : from).f("r", iv(x)); } }
  // many operators in a row over one population
  void run() { int n = r.in(2, 30), from = r.coin() ? 0 : r.in(1, 9); eoInitPermutation<X> in(n, from); eoPop<X> pop(6, in); eoSwapMutation<X> s(r.in(1, 3)); eoShiftMutation<X> h; eoTwoOptMutation<X> t; eoOrderXover<X> o; eoPartiallyMappedXover<X> m;
    for (int k = 0; k < 200; ++k) { int a = r.below(6), b = r.below(6); switch (r.below(from ? 4 : 5)) { case 0: s(pop[a]); break; case 1: h(pop[a]); break; case 2: t(pop[a]); break; case 3: if (a != b) o(pop[a], pop[b]); break; default: if (a != b) m(pop[a], pop[b]); } }
    IVV v; for (auto& x : pop) v.push_back(iv(x)); Ev("run").f("n", n).f("from", from).f("pop", v); }
};
typedef eoInt<double> I; typedef eoVector<eoMinimizingFitness, int> V; typedef eoVector<double, unsigned> U;
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 60 * args().scale; ++ep) { eo::rng.reseed(r.next() % 100000 + 1); if (ep % 3 == 0) { Perm<I>(r).all(); Perm<I>(r).run(); } else if (ep % 3 == 1) Perm<V>(r).all(); else Perm<U>(r).all(); }
  for (int k = 0; k < 3; ++k) { bool t = false; try { eoSwapMutation<I> s(k); } catch (std::exception&) { t = true; } Ev("refuse").f("k", k).f("threw", t); }
  return done(); }
