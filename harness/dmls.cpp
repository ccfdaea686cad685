// Dominance-based local searches (explorers, selections, PLS) and their hybridisations.
#include "vt.hpp"
#include <eo>
#include <mo>
#include "moeo_common.hpp"
#include <memory>
using namespace vt;
struct Pb { IV c, d; long m; IV operator()(long x) const { IV v; for (size_t i = 0; i < c.size(); ++i) v.push_back((x * c[i] + d[i]) % m); return v; } };
static Pb pb; static int K;
class Nb : public moNeighbor<Sol, OV> { public: int bit = 0; void move(Sol& s) { s.id ^= 1L << bit; s.invalidate(); } long of(const Sol& s) const { return s.id ^ (1L << bit); } };
struct Ex { long x; IV nb, order; }; static std::vector<Ex> ex; static long rounds;
class Nbh : public moNeighborhood<Nb> { public: Rng& r; bool rnd; std::vector<int> p; int pos = 0; Nbh(Rng& r, bool rnd) : r(r), rnd(rnd) {}
  bool hasNeighbor(Sol&) { return K > 0; }
  void init(Sol& s, Nb& n) { p.clear(); for (int i = 0; i < K; ++i) p.push_back(i); if (rnd) for (int i = K - 1; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]); pos = 0; n.bit = p[0]; Ex e; e.x = s.id; for (int b : p) e.order.push_back(s.id ^ (1L << b)); ex.push_back(e); }
  void next(Sol&, Nb& n) { n.bit = p[++pos]; }
  bool cont(Sol&) { return pos + 1 < K; } };
struct NEval : public moEval<Nb> { void operator()(Sol& s, Nb& n) { long y = n.of(s); n.fitness(mkov(pb(y))); if (!ex.empty()) ex.back().nb.push_back(y); } };
static long evals; struct Eval : public eoEvalFunc<Sol> { void operator()(Sol& s) { ++evals; if (s.invalid()) s.objectiveVector(mkov(pb(s.id))); } };
static Obj mj(const Sol& s) { return Obj().f("x", s.id).f("v", s.invalidObjectiveVector() ? IV() : ovints(s.objectiveVector())).f("fl", s.flag()); }
template <class P> static std::vector<Obj> mjs(const P& p) { std::vector<Obj> o; for (unsigned i = 0; i < p.size(); ++i) o.push_back(mj(p[i])); return o; }
struct Cont : public eoContinue<Sol> { long left; Cont(long l) : left(l) {} bool operator()(const eoPop<Sol>& a) { bool g = --left > 0; std::vector<Obj> es; for (auto& e : ex) es.push_back(Obj().f("x", e.x).f("nb", e.nb).f("order", e.order)); ex.clear(); ++rounds;
  Ev("round").f("ex", es).f("arch", mjs(a)).f("goon", g); return g; } };
// forwards to a real explorer, counting rounds (used where the search has its own continuator)
struct CountEx : public moeoPopNeighborhoodExplorer<Nb> { moeoPopNeighborhoodExplorer<Nb>& e; CountEx(moeoPopNeighborhoodExplorer<Nb>& e) : e(e) {} void operator()(eoPop<Sol>& s, std::vector<unsigned> i, eoPop<Sol>& d) { ++rounds; e(s, i, d); } };

int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); eo::rng.reseed(5); Silence q;
  static const char* kinds[] = {"exhaustive", "simple", "first", "nodes", "pls1", "pls2"};
  for (long ep = 0; ep < 40 * args().scale; ++ep) for (int k = 0; k < 6; ++k) {
    int nobj = r.coin(2, 3) ? 2 : r.in(1, 3); IV dirs; for (int i = 0; i < nobj; ++i) dirs.push_back(r.below(2)); setDirs(dirs); K = r.in(1, 5);
    pb = Pb(); pb.m = r.coin(1, 3) ? r.in(2, 5) : r.in(6, 60); for (int i = 0; i < nobj; ++i) { pb.c.push_back(r.in(1, 40)); pb.d.push_back(r.below(pb.m)); }
    std::string kind = kinds[k]; bool repl = r.coin(); unsigned num = kind == "pls1" ? 1 : kind == "pls2" ? 0 : r.below(4), number = r.in(1, 6); bool rnd = r.coin();
    std::string ek = kind == "pls1" || kind == "pls2" ? "exhaustive" : kind;
    moeoUnboundedArchive<Sol> A(repl); Nbh nh(r, rnd); NEval ne; Eval ev;
    moeoExhaustiveNeighborhoodExplorer<Nb> e1(nh, ne); moeoSimpleSubNeighborhoodExplorer<Nb> e2(nh, number, ne); moeoFirstImprovingNeighborhoodExplorer<Nb> e3(nh, ne); moeoNoDesimprovingNeighborhoodExplorer<Nb> e4(nh, ne);
    moeoPopNeighborhoodExplorer<Nb>& e = ek == "exhaustive" ? (moeoPopNeighborhoodExplorer<Nb>&)e1 : ek == "simple" ? (moeoPopNeighborhoodExplorer<Nb>&)e2 : ek == "first" ? (moeoPopNeighborhoodExplorer<Nb>&)e3 : e4;
    moeoExhaustiveUnvisitedSelect<Sol> s0; moeoNumberUnvisitedSelect<Sol> s1(num ? num : 1); moeoUnvisitedSelect<Sol>& s = num ? (moeoUnvisitedSelect<Sol>&)s1 : s0;
    for (int run = 0; run < 2; ++run) {
      Ev("new").f("kind", ek).f("K", K).f("num", num).f("number", number).f("replace", repl).f("dirs", dirs).f("pb", Obj().f("c", pb.c).f("d", pb.d).f("m", pb.m)).f("algo", kind);
      eoPop<Sol> pop; int n = r.in(1, 3); for (int i = 0; i < n; ++i) { Sol x(r.below(1 << K)); if (ek != "exhaustive" && r.coin(1, 8)) x.flag(1); if (r.coin(1, 8)) x.objectiveVector(mkov(pb(x.id))); pop.push_back(x); }
      Ev("begin").f("before", mjs(A)).f("pop", mjs(pop)); ex.clear(); Cont co(r.coin(1, 3) ? r.in(1, 3) : 14);
      guarded("dominance-based local search", [&] { std::unique_ptr<moeoUnifiedDominanceBasedLS<Nb>> L(kind == "pls1" ? (moeoUnifiedDominanceBasedLS<Nb>*)new moeoPLS1<Nb>(co, ev, A, nh, ne) : kind == "pls2" ? new moeoPLS2<Nb>(co, ev, A, nh, ne) : new moeoUnifiedDominanceBasedLS<Nb>(co, ev, A, e, s));
        (*L)(pop); Ev("end").f("arch", mjs(A)); });
    }
    // as a mutation operator, and from an updater
    if (r.coin(1, 2)) { CountEx ce(e); unsigned step = r.in(1, 3); moeoUnboundedArchive<Sol> D, D2; moeoDMLSMonOp<Nb> M(ev, D, ce, s, step, false);
      for (int t = 0; t < 2; ++t) { Sol x(r.below(1 << K)); x.objectiveVector(mkov(pb(x.id))); long in = x.id; rounds = 0; guarded("local search as operator", [&] { M(x); bool all = true; for (auto& a : D) all = all && a.flag() == 1; Ev("monop").f("in", in).f("out", mj(x)).f("arch", mjs(D)).f("rounds", rounds).f("step", step).f("allvisited", all); }); }
      moeoUnboundedArchive<Sol> G; for (int i = 0; i < 3; ++i) { Sol x(r.below(1 << K)); x.objectiveVector(mkov(pb(x.id))); G(x); } unsigned every = r.in(1, 3); eoGenContinue<Sol> gc(every); moeoDMLSGenUpdater<Nb> U(ev, D2, ce, s, G, gc, step, false);
      for (int t = 1; t <= 4; ++t) { auto b = mjs(G); rounds = 0; guarded("local search as updater", [&] { U(); Ev("upd").f("call", t).f("every", every).f("ran", rounds > 0).f("before", b).f("after", mjs(G)).f("found", mjs(D2)); }); } }
  }
  return done(); }
