// Neighbourhood structures: histories of init / next / cont, with restarts at any point.
#include "vt.hpp"
#include <eo>
#include <ga.h>
#include <mo>
#include <eval/oneMaxEval.h>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/bitString/moBitsNeighborhood.h>
#include <problems/bitString/moBitsWithReplNeighborhood.h>
#include <problems/bitString/moBitsWithoutReplNeighborhood.h>
#include <problems/bitString/moBitFlipNeighborhood.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moSwapNeighborhood.h>
#include <problems/permutation/moTwoOptExNeighborhood.h>
#include <problems/partition/moBinaryPartition.h>
#include <problems/partition/moBinaryPartitionSwapNeighbor.h>
#include <problems/partition/moBinaryPartitionSwapNeighborhood.h>
#include <eoInt.h>
#include <memory>
#include <set>
using namespace vt;
typedef eoBit<double> B; typedef eoInt<double> P; typedef moBinaryPartition<double> S;
typedef moBitNeighbor<double> BN; typedef moBitsNeighbor<B> BsN; typedef moIndexedSwapNeighbor<P> IS; typedef moShiftNeighbor<P> SH; typedef moSwapNeighbor<P> SW; typedef moTwoOptExNeighbor<P> TO; typedef moBinaryPartitionSwapNeighbor<S> PN;
static IV id(BN& n) { return {(long)n.index()}; }
static IV id(BsN& n) { IV v; for (unsigned i = 0; i < n.nBits; ++i) v.push_back(n.bits[i]); std::sort(v.begin(), v.end()); return v; }
static IV id(IS& n) { return {(long)n.first(), (long)n.second()}; }
static IV id(SH& n) { return {(long)n.first(), (long)n.second()}; }
template <class N> static IV pid(N& n) { unsigned a, b; n.getIndices(a, b); return {(long)a, (long)b}; }
static IV id(SW& n) { return pid(n); }
static IV id(TO& n) { return pid(n); }
static IV id(PN& n) { auto p = n.get(); return {(long)p.first, (long)p.second}; }
struct Cfg { std::string kind, space, rule; int n = 0, k = 0; long limit = 0; bool exact = false, ordered = false; IV rej, sel; };
// a solution-wide preparation run by moEvaluatedNeighborhood before each exploration
static long prepared; template <class N> struct Prep : public moNeighborhoodEvaluation<N> { void operator()(typename N::EOT&) { ++prepared; } };
template <class N> static void history(Rng& r, moNeighborhood<N>& nh, std::vector<typename N::EOT> sols, const Cfg& c, std::function<long()> pos, bool cover = true) {
  typedef typename N::EOT EOT; EOT s = sols[0];
  Ev("new").f("kind", c.kind).f("space", c.space).f("rule", c.rule).f("n", c.n).f("k", c.k).f("limit", c.limit).f("exact", c.exact).f("ordered", c.ordered).f("rejected", c.rej).f("selected", c.sel).f("has", nh.hasNeighbor(s));
  if (!nh.hasNeighbor(s)) return;
  guarded("neighbourhood " + c.kind, [&] {
    N n; int restarts = r.in(1, 4);
    for (int t = 0; t <= restarts; ++t) { s = sols[r.below(sols.size())]; bool full = t == restarts || r.coin(); int cut = full ? 400 : r.in(1, 6); if (r.coin(1, 4)) n = N();
      nh.init(s, n); Ev("init").f("m", id(n)).f("pos", pos()); int k = 1;
      while (true) { bool g = nh.cont(s); if (r.coin(1, 5) && nh.cont(s) != g) g = !g; Ev("cont").f("res", g); if (!g || k >= cut || (c.rule == "repl" && c.limit == 0 && k > 12)) break; nh.next(s, n); ++k; Ev("next").f("m", id(n)).f("pos", pos()); } }
    if (cover) { std::set<IV> got; for (int t = 0; t < 60; ++t) { nh.init(s, n); got.insert(id(n)); for (int k = 0; k < 40 && nh.cont(s); ++k) { nh.next(s, n); got.insert(id(n)); } } IVV g(got.begin(), got.end()); Ev("cover").f("got", g); } }); }
static std::vector<B> bits(Rng& r, int n) { std::vector<B> v; for (int i = 0; i < 3; ++i) { B b(n); for (int j = 0; j < n; ++j) b[j] = r.coin(); b.fitness(i); v.push_back(b); } return v; }
static std::vector<P> perms(Rng& r, int n) { std::vector<P> v; for (int i = 0; i < 3; ++i) { P p(n); for (int j = 0; j < n; ++j) p[j] = j; for (int j = n - 1; j > 0; --j) std::swap(p[j], p[r.below(j + 1)]); v.push_back(p); } return v; }
static long none() { return -1; }
template <class N> static void index(Rng& r, const Cfg& c0, std::vector<typename N::EOT> sols, unsigned size, bool positional) { Cfg c = c0; int w = r.below(3); bool wrap = r.coin(1, 4); Prep<N> prep;
  moOrderNeighborhood<N> o(size); moRndWithoutReplNeighborhood<N> wo(size); c.limit = w == 2 ? (r.coin(1, 3) ? 0 : r.in(1, 9)) : 0; moRndWithReplNeighborhood<N> wi(size, c.limit);
  moNeighborhood<N>* nh = w == 0 ? (moNeighborhood<N>*)&o : w == 1 ? (moNeighborhood<N>*)&wo : &wi; c.rule = w == 2 ? "repl" : "once"; c.ordered = w == 0 && positional; c.kind += w == 0 ? "-order" : w == 1 ? "-rndwo" : "-rndwith";
  if (w == 0 && r.coin(1, 3)) { o.setNeighborhoodSize(0); o.setNeighborhoodSize(size); }
  moEvaluatedNeighborhood<N> e(*nh, prep); if (wrap) { nh = &e; c.kind += "-evaluated"; }
  history<N>(r, *nh, sols, c, [&]() -> long { return !positional ? -1 : w == 0 ? (long)o.position() : w == 1 ? (long)wo.position() : -1; }, w != 2 || c.limit != 1);
  if (size <= 400) Ev("size").f("size", w == 0 ? o.getNeighborhoodSize() : w == 1 ? wo.getNeighborhoodSize() : wi.getNeighborhoodSize()); }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); eo::rng.reseed(args().shard + 7); Silence q;
  for (long ep = 0; ep < 14 * args().scale; ++ep) {
    { Cfg c; c.kind = "bit"; c.space = "index"; c.n = r.coin(1, 8) ? 0 : r.coin(1, 6) ? r.in(15, 40) : r.in(1, 9); index<BN>(r, c, bits(r, c.n), c.n, true); }
    { Cfg c; c.kind = "iswap"; c.space = "pairs"; c.n = r.in(2, 7); index<IS>(r, c, perms(r, c.n), c.n * (c.n - 1) / 2, false); }
    { Cfg c; c.kind = "shift"; c.space = "shift"; c.n = r.in(2, 6); index<SH>(r, c, perms(r, c.n), c.n * (c.n - 1), false); }
    { Cfg c; c.kind = "swap"; c.space = "pairs"; c.rule = "once"; c.n = r.in(1, 8); moSwapNeighborhood<P> nh; history<SW>(r, nh, perms(r, c.n), c, none); }
    { Cfg c; c.kind = "twoopt"; c.space = "pairs"; c.rule = "once"; c.n = r.in(1, 8); moTwoOptExNeighborhood<P> nh; history<TO>(r, nh, perms(r, c.n), c, none); }
    { Cfg c; c.kind = "bitswo"; c.space = "bits"; c.rule = "once"; c.n = r.in(1, 6); c.k = r.in(1, std::min(3, c.n)); c.exact = r.coin(); c.limit = r.coin() ? 0 : r.in(1, 30); moBitsWithoutReplNeighborhood<BsN> nh(c.n, c.k, c.limit, c.exact); history<BsN>(r, nh, bits(r, c.n), c, none); }
    { Cfg c; c.kind = "bitswith"; c.space = "bits"; c.rule = "sample"; c.n = r.in(1, 5); c.k = r.in(1, std::min(3, c.n)); c.exact = r.coin(); c.limit = r.coin() ? 0 : r.in(1, 30); moBitsWithReplNeighborhood<BsN> nh(c.n, c.k, c.limit, c.exact); history<BsN>(r, nh, bits(r, c.n), c, none, c.limit == 0 || c.limit > 8); }
    { Cfg c; c.kind = "bitflip"; c.space = "subsets"; c.rule = "repl"; c.n = r.in(1, 4); c.limit = r.in(1, 12); moBitFlipNeighborhood<BsN> nh(0.5, c.n, c.limit); history<BsN>(r, nh, bits(r, c.n), c, none, c.limit > 4); }
    { Cfg c; c.kind = "partition"; c.space = "partition"; c.rule = "once"; c.n = r.in(1, 6); S s(c.n); for (int i = 0; i < c.n; ++i) if (r.coin()) s.select(i); s.fitness(1); for (auto a : s.rejected) c.rej.push_back(a); for (auto a : s.selected) c.sel.push_back(a); moBinaryPartitionSwapNeighborhood<S> nh; history<PN>(r, nh, {s}, c, none); }
    for (int t = 0; t < 25; ++t) { int n = t < 5 ? r.in(2, 10) : r.in(50, 3000); P p(n); IS s; long tot = (long)n * (n - 1) / 2; unsigned key = t % 3 ? r.below(tot) : tot - 1; s.index(p, key); IS u; u.set(p, s.first(), s.second()); Ev("key").f("space", "pairs").f("n", n).f("key", key).f("i", s.first()).f("j", s.second()).f("back", u.index());
      SH h; key = r.below((long)n * (n - 1)); h.index(p, key); SH g; g.set(p, h.first(), h.second()); Ev("key").f("space", "shift").f("n", n).f("key", key).f("i", h.first()).f("j", h.second()).f("back", g.index()); }
  }
  return done(); }
