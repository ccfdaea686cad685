// Table landscapes over bit strings, with recorded evaluations, for the local searches.
#ifndef MO_LS_HPP
#define MO_LS_HPP
#include "vt.hpp"
#include <eo>
#include <ga.h>
#include <mo>
#include <problems/bitString/moBitNeighbor.h>
#include <memory>
using namespace vt;
static const long Inv = -1000000001;
static IV TAB; static int NB; static std::vector<long> SEEN; // landscape, bits, moves evaluated since the last iteration
template <class B> static long code(const B& b) { long x = 0; for (unsigned i = 0; i < b.size(); ++i) if (b[i]) x += 1l << i; return x; }
template <class B> static long fitof(const B& b) { return b.invalid() ? Inv : exactint((double)b.fitness()); }
template <class F> struct Dir { static constexpr int v = 0; }; template <> struct Dir<eoMinimizingFitness> { static constexpr int v = 1; };
template <class F> static eoBit<F> mk(long x, int n) { eoBit<F> b(n); for (int i = 0; i < n; ++i) b[i] = (x >> i) & 1; return b; }
template <class F> struct Full : public eoEvalFunc<eoBit<F> > { bool lazy = false; long calls = 0; void operator()(eoBit<F>& b) { if (lazy && !b.invalid()) return; ++calls; b.fitness(F(TAB[code(b)])); } };
template <class F> struct NbEval : public moEval<moBitNeighbor<F> > { long calls = 0; void operator()(eoBit<F>& s, moBitNeighbor<F>& n) { ++calls; SEEN.push_back(n.index()); n.fitness(F(TAB[code(s) ^ (1l << n.index())])); } };
// landscapes: plateaus, rugged, flat, single peak
static void landscape(Rng& r, int n, int v, bool positive = false) { NB = n; TAB.clear(); int k = r.below(5), lo = positive ? 1 : 0; for (long x = 0; x < (1l << n); ++x) TAB.push_back(lo + (k == 0 ? r.below(2) : k == 1 ? r.below(v) : k == 2 ? (r.below(4) ? 0 : r.below(v)) : k == 3 ? (long)__builtin_popcountl(x) % (v ? v : 1) : r.below(3))); if (r.coin(1, 4)) for (auto& t : TAB) t = t * 3; if (!positive && r.coin(1, 5)) for (auto& t : TAB) t -= 5; }
template <class F> struct Hood { std::unique_ptr<moNeighborhood<moBitNeighbor<F> > > p; std::string name; bool full; };
template <class F> static Hood<F> hood(Rng& r, int n, int w) { typedef moBitNeighbor<F> N; Hood<F> h;
  if (w == 0) { h.p.reset(new moOrderNeighborhood<N>(n)); h.name = "order"; h.full = true; }
  else if (w == 1) { h.p.reset(new moRndWithoutReplNeighborhood<N>(n)); h.name = "wo"; h.full = true; }
  else { h.p.reset(new moRndWithReplNeighborhood<N>(n, r.in(1, 2 * n + 1))); h.name = "with"; h.full = false; }
  return h; }
// wraps a continuator and records the state at the end of every iteration
template <class F> struct Rec : public moContinuator<moBitNeighbor<F> > { typedef eoBit<F> B; moContinuator<moBitNeighbor<F> >* inner = 0; int left = 1 << 30; std::function<void(Ev&)> more; 
  void init(B& b) { if (inner) inner->init(b); Ev e("begin"); e.f("x", code(b)).f("f", fitof(b)); if (more) more(e); SEEN.clear(); }
  bool operator()(B& b) { bool go = inner ? (*inner)(b) : true; if (--left <= 0) go = false; { Ev e("it"); e.f("x", code(b)).f("f", fitof(b)).f("seen", SEEN).f("go", go); if (more) more(e); } SEEN.clear(); return go; }
  void lastCall(B& b) { if (inner) inner->lastCall(b); } };
#endif
