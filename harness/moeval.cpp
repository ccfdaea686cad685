// Neighbour evaluation, moves and undoing on the benchmark problems; problem instances and their files.
#include "vt.hpp"
#include <eo>
#include <ga.h>
#include <mo>
#include <eoInt.h>
#include <memory>
using namespace std;
#include <eval/oneMaxEval.h>
#include <eval/royalRoadEval.h>
#include <eval/ubqpEval.h>
#include <eval/maxSATeval.h>
#include <eval/qapEval.h>
#include <eval/queenEval.h>
#include <eval/nkLandscapesEval.h>
#include <eval/nkpLandscapesEval.h>
#include <eval/nkqLandscapesEval.h>
#include <eval/longKPathEval.h>
#include <problems/bitString/moBitFlipNeighborhood.h>
#include <problems/eval/moOneMaxIncrEval.h>
#include <problems/eval/moOneMaxBitsIncrEval.h>
#include <problems/eval/moRoyalRoadIncrEval.h>
#include <problems/eval/moUBQPSimpleIncrEval.h>
#include <problems/eval/moUBQPBitsIncrEval.h>
#include <problems/eval/moUBQPdoubleIncrEvaluation.h>
#include <problems/eval/moMaxSATincrEval.h>
#include <problems/eval/moQAPIncrEval.h>
#include <problems/eval/moNKlandscapesIncrEval.h>
#include <problems/eval/moNKlandscapesBitsIncrEval.h>
#include <eval/moDoubleIncrNeighborhoodEval.h>
using vt::Rng; using vt::Ev; using vt::Obj; using vt::IV; using vt::IVV; using vt::guarded; using vt::args; using vt::fx; using vt::Raw; using vt::js;
typedef eoBit<double> B; typedef eoInt<double> P; typedef eoInt<eoMinimizingFitness> PM; typedef moBinaryPartition<double> S;
static double SC = 1;     // fitness recorded as integer multiples of 1/SC
static long fi(double f) { return fx(f, SC); }
static IV xs(const B& b) { IV v; for (unsigned i = 0; i < b.size(); ++i) v.push_back(b[i]); return v; }
template <class F> static IV xs(const eoInt<F>& b) { IV v; for (unsigned i = 0; i < b.size(); ++i) v.push_back(b[i]); return v; }
static IV xs(const S& s) { IV v(s.selected.size() + s.rejected.size(), 0); for (auto a : s.selected) if (a < v.size()) v[a] += 1; for (auto a : s.rejected) if (a < v.size()) v[a] += 0; for (auto a : s.rejected) if (s.selected.count(a)) v[a] = 7; return v; }
static Obj mj(moBitNeighbor<double>& n) { return Obj().f("t", "flip").f("a", IV{(long)n.index()}); }
static Obj mj(moBitsNeighbor<B>& n) { IV v; for (unsigned i = 0; i < n.nBits; ++i) v.push_back(n.bits[i]); return Obj().f("t", "flip").f("a", v); }
template <class E> static Obj mj(moIndexedSwapNeighbor<E>& n) { return Obj().f("t", "swap").f("a", IV{(long)n.first(), (long)n.second()}); }
template <class E> static Obj mj(moShiftNeighbor<E>& n) { return Obj().f("t", "shift").f("a", IV{(long)n.first(), (long)n.second()}); }
template <class E> static Obj mj(moSwapNeighbor<E>& n) { unsigned a, b; n.getIndices(a, b); return Obj().f("t", "swap").f("a", IV{(long)a, (long)b}); }
template <class E> static Obj mj(moTwoOptExNeighbor<E>& n) { unsigned a, b; n.getIndices(a, b); return Obj().f("t", "rev").f("a", IV{(long)a, (long)b}); }
static Obj mj(moBinaryPartitionSwapNeighbor<S>& n) { auto p = n.get(); return Obj().f("t", "part").f("a", IV{(long)p.first, (long)p.second}); }
template <class E> static void tail(Ev& e, E& s) { e.f("x1", xs(s)).f("inv", s.invalid()).f("f1", s.invalid() ? 0L : fi(s.fitness())); }
template <class N> static long nf(N& n) { return fi(n.fitness()); }
template <class N> using Evals = std::vector<std::pair<std::string, moEval<N>*>>;
// a walk: evaluate neighbours in every available way, move, undo, adopt
template <class N> static void walk(Rng& r, typename N::EOT sol, eoEvalFunc<typename N::EOT>& full, Evals<N> evs, moNeighborhood<N>& nh, bool byIndex = true) { typedef typename N::EOT E;
  // an evaluator that trusts a valid fitness
  struct Lazy : eoEvalFunc<E> { eoEvalFunc<E>& f; Lazy(eoEvalFunc<E>& f) : f(f) {} void operator()(E& x) { if (x.invalid()) f(x); } } lazy(full); bool trust = r.coin(); eoEvalFunc<E>& used = trust ? (eoEvalFunc<E>&)lazy : full;
  moFullEvalByCopy<N> byc(used); moFullEvalByModif<N> bym(used); evs.push_back({"copy", &byc}); evs.push_back({"modif", &bym});
  N n, prev; bool have = false; int steps = r.in(2, 5);
  for (int t = 0; t < steps; ++t) { if (!nh.hasNeighbor(sol)) return; int stop = r.below(6); nh.init(sol, n); 
    for (int k = 0; ; ++k) { auto& e = evs[r.below(evs.size())]; (*e.second)(sol, n); { Ev v("nb"); v.f("by", e.first).f("kind", e.first).f("m", mj(n)).f("nf", nf(n)); tail(v, sol); } if (k >= stop || !nh.cont(sol)) break; nh.next(sol, n); }
    if (r.coin(1, 3)) { N c(n); N d; d = n; N& w = r.coin() ? c : d; Ev("copy").f("m", mj(n)).f("n", mj(w)).f("mf", n.invalid() ? 0L : nf(n)).f("nf", w.invalid() ? 0L : nf(w)).f("minv", n.invalid()).f("ninv", w.invalid()); }
    if (have && r.coin()) Ev("eq").f("m", mj(n)).f("n", mj(prev)).f("res", n.equals(prev));
    if (r.coin(1, 4)) { N c(n); Ev("eq").f("m", mj(n)).f("n", mj(c)).f("res", n.equals(c)); }
    prev = n; have = true;
    double keep = sol.fitness(); n.move(sol); { Ev v("mv"); v.f("m", mj(n)); tail(v, sol); }
    if (r.coin(1, 3)) { if (r.coin()) full(sol); if (!sol.invalid()) Ev("eval").f("x", xs(sol)).f("f", fi(sol.fitness())); n.moveBack(sol); { Ev v("back"); tail(v, sol); } if (sol.invalid()) full(sol); { Ev v("adopt"); tail(v, sol); } }
    else { sol.fitness(n.fitness()); Ev v("adopt"); tail(v, sol); } } }
static Obj& inst(Obj& o) { return o; }
template <class E> static void begin(const std::string& kind, Obj inst, E& sol, eoEvalFunc<E>& full) { full(sol); Raw r{"{\"op\":\"new\",\"kind\":" + js(kind) + (inst.s.empty() ? "" : "," + inst.s) + ",\"x\":" + js(xs(sol)) + ",\"f\":" + js(fi(sol.fitness())) + "}"}; fputs(r.s.c_str(), vt::file()); fputc('\n', vt::file()); ++vt::count(); }
static B rb(Rng& r, int n) { B b(n, false); int k = r.below(3); for (int j = 0; j < n; ++j) b[j] = k == 0 ? r.coin() : k == 1 ? r.coin(5, 6) : r.coin(1, 6); return b; }
template <class E> static E rp(Rng& r, int n) { E p(n); for (int j = 0; j < n; ++j) p[j] = j; for (int j = n - 1; j > 0; --j) std::swap(p[j], p[r.below(j + 1)]); return p; }
typedef moBitNeighbor<double> BN; typedef moBitsNeighbor<B> BsN;
static bool evalMode;
template <class E> static void evals(Rng& r, eoEvalFunc<E>& f, std::function<E()> gen, int n) { for (int i = 0; i < n; ++i) { E s = gen(); f(s); Ev("eval").f("x", xs(s)).f("f", fi(s.fitness())); } }
static void bitwalks(Rng& r, int n, eoEvalFunc<B>& full, moEval<BN>* inc, moEval<BsN>* binc, const std::string& kind, Obj in) { if (evalMode) return;
  moOrderNeighborhood<BN> o(n); moRndWithoutReplNeighborhood<BN> w(n); moRndWithReplNeighborhood<BN> wr(n);
  { B s = rb(r, n); begin(kind, in, s, full); Evals<BN> ev; if (inc) for (int i = 0; i < 3; ++i) ev.push_back({"incr", inc}); int k = r.below(3); guarded("walk " + kind, [&] { walk<BN>(r, s, full, ev, k == 0 ? (moNeighborhood<BN>&)o : k == 1 ? (moNeighborhood<BN>&)w : wr); }); }
  { int k = r.in(1, std::min(3, n)); moBitsWithoutReplNeighborhood<BsN> a(n, k, 0, r.coin()); moBitsWithReplNeighborhood<BsN> b(n, k, 0, r.coin()); moBitFlipNeighborhood<BsN> c(0.4, n, 8); B s = rb(r, n); begin(kind, in, s, full); Evals<BsN> ev; if (binc) for (int i = 0; i < 3; ++i) ev.push_back({"bitsincr", binc}); int z = r.below(3); guarded("bits walk " + kind, [&] { walk<BsN>(r, s, full, ev, z == 0 ? (moNeighborhood<BsN>&)a : z == 1 ? (moNeighborhood<BsN>&)b : c); }); } }
// records every neighbour evaluation of a local search
template <class N> struct Rec : public moEval<N> { moEval<N>& e; long n = 0; Rec(moEval<N>& e) : e(e) {} void operator()(typename N::EOT& s, N& nb) { e(s, nb); if (++n <= 60) Ev("nbx").f("x", xs(s)).f("f", fi(s.fitness())).f("m", mj(nb)).f("nf", nf(nb)); } };
static std::string tmpf(const char* n) { return args().tmp + "/" + n; }
static IVV clausesOf(MaxSATeval<B>& m) { IVV v; for (unsigned i = 0; i < m.nbClauses; ++i) v.push_back(IV(m.clauses[i].begin(), m.clauses[i].end())); return v; }
template <class NK> static IVV linksOf(NK& k) { IVV v; for (unsigned i = 0; i < k.N; ++i) { IV a; for (unsigned j = 0; j <= k.K; ++j) a.push_back(k.links[i][j]); v.push_back(a); } return v; }
template <class NK> static IVV tablesOf(NK& k) { IVV v; for (unsigned i = 0; i < k.N; ++i) { IV a; for (unsigned j = 0; j < (1u << (k.K + 1)); ++j) a.push_back(fx(k.tables[i][j])); v.push_back(a); } return v; }
int main(int argc, char** argv) { vt::init(argc, argv); Rng r(vt::shardseed()); eo::rng.reseed(args().shard * 31 + 3); vt::Silence q; evalMode = args().mode == "prob";
  for (long ep = 0; ep < 6 * args().scale; ++ep) {
    SC = 1;
    { int n = r.in(1, 10); oneMaxEval<B> f; moOneMaxIncrEval<BN> i; moOneMaxBitsIncrEval<BsN> bi; bitwalks(r, n, f, &i, &bi, "onemax", Obj()); if (evalMode) { B s = rb(r, n); begin("onemax", Obj(), s, f); evals<B>(r, f, [&] { return rb(r, n); }, 4); } }
    { int k = r.in(1, 4), n = k * r.in(1, 3) + (r.coin(1, 3) ? r.below(k) : 0); RoyalRoadEval<B> f(k); moRoyalRoadIncrEval<BN> i(f); Obj in; in.f("k", k); bitwalks(r, n, f, &i, 0, "royal", in); if (evalMode) { B s = rb(r, n); begin("royal", in, s, f); evals<B>(r, f, [&] { return rb(r, n); }, 4); } }
    guarded("ubqp", [&] { // instance files in both formats, possibly several instances per file
      int ni = r.in(1, 3), pick = r.below(ni), fmt = r.below(2), n = 0; std::string fn = tmpf("ubqp.dat"); IVV Q; { std::ofstream o(fn); o << ni << "\n"; for (int t = 0; t < ni; ++t) { int m = r.in(1, 7); IVV q(m, IV(m, 0)); std::vector<std::array<int, 3>> nz; for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) if (r.coin(2, 3) && (fmt == 1 || a <= b || r.coin(1, 3))) { q[a][b] = r.in(-20, 20); nz.push_back({a + 1, b + 1, (int)q[a][b]}); }
          if (fmt == 0) { o << m << " " << nz.size() << "\n"; for (auto& z : nz) o << z[0] << " " << z[1] << " " << z[2] << "\n"; } else { o << m << "\n"; for (auto& row : q) { for (long v : row) o << v << " "; o << "\n"; } } if (t == pick) { Q = q; n = m; } } }
      UbqpEval<B> f(fn, fmt, pick); moUBQPSimpleIncrEval<BN> i(f); moUBQPBitsIncrEval<BsN> bi(f); Obj in; in.f("Q", Q); bitwalks(r, n, f, &i, &bi, "ubqp", in); if (evalMode) { B s = rb(r, n); begin("ubqp", in, s, f); evals<B>(r, f, [&] { return rb(r, n); }, 5); return; }
      for (int a = 0; a < 4; ++a) { // the delta table maintained along local searches
        B s = rb(r, n); begin("ubqp", in, s, f); moOrderNeighborhood<BN> o(n); moRndWithoutReplNeighborhood<BN> w(n); moNeighborhood<BN>& base = r.coin() ? (moNeighborhood<BN>&)o : w; moUBQPdoubleIncrEvaluation<BN> de(n, i); moEvaluatedNeighborhood<BN> nh(base, de); moDoubleIncrNeighborhoodEval<BN> ne(de); Rec<BN> rec(ne);
        moTrueContinuator<BN> tc; moIterContinuator<BN> it(6, false); moCheckpoint<BN> cp(it); cp.add(de);
        moNeighborVectorTabuList<BN> tl(2, 0); moBestImprAspiration<BN> asp; moSimpleCoolingSchedule<B> cool(20, 0.8, 3, 0.5);
        std::unique_ptr<moLocalSearch<BN>> ls(a == 0 ? (moLocalSearch<BN>*)new moSimpleHC<BN>(nh, f, rec, cp) : a == 1 ? (moLocalSearch<BN>*)new moTS<BN>(nh, f, rec, cp, tl, asp) : a == 2 ? (moLocalSearch<BN>*)new moSA<BN>(nh, f, rec, cool, cp) : (moLocalSearch<BN>*)new moFirstImprHC<BN>(nh, f, rec, cp));
        de.neighborhoodExplorer(ls->getNeighborhoodExplorer()); (*ls)(s); Ev("done").f("x", xs(s)).f("f", fi(s.fitness()));
        rec.n = 0; s = rb(r, n); s.invalidate(); (*ls)(s); Ev("done").f("x", xs(s)).f("f", fi(s.fitness())); } });
    guarded("maxsat", [&] { int n = r.in(1, 8), m = r.in(1, 10), k = r.in(1, std::min(3, n)); MaxSATeval<B> f0(n, m, k); if (evalMode) Ev("inst").f("kind", "maxsat").f("n", n).f("m", m).f("k", k).f("clauses", clausesOf(f0)); std::string fn = tmpf("sat.cnf"); f0.save(fn); MaxSATeval<B> f1(fn); if (evalMode) Ev("same").f("a", clausesOf(f0)).f("b", clausesOf(f1)); MaxSATeval<B>& f = r.coin() ? f0 : f1; Obj in; in.f("clauses", clausesOf(f)); moMaxSATincrEval<BN> i(f); bitwalks(r, n, f, &i, 0, "maxsat", in); if (evalMode) { B s = rb(r, n); begin("maxsat", in, s, f); evals<B>(r, f, [&] { return rb(r, n); }, 4); } });
    guarded("nk", [&] { int n = r.coin() ? 4 : r.in(1, 8), k = r.below(std::min(4, n)); bool cons = r.coin(); SC = 1000.0 * n; nkLandscapesEval<B> f0(n, k, cons); if (evalMode) Ev("inst").f("kind", "nk").f("n", n).f("k", k).f("consecutive", cons).f("links", linksOf(f0)).f("tables", tablesOf(f0));
      for (int i = 0; i < n; ++i) for (int j = 0; j < (1 << (k + 1)); ++j) f0.tables[i][j] = r.below(1001) / 1000.0; std::string fn = tmpf("nk.dat"); f0.save(fn.c_str()); std::unique_ptr<nkLandscapesEval<B>> f1; 
      if (evalMode) { f1.reset(new nkLandscapesEval<B>(fn.c_str())); Ev("same").f("a", linksOf(f0)).f("b", linksOf(*f1)); Ev("same").f("a", tablesOf(f0)).f("b", tablesOf(*f1)); }
      nkLandscapesEval<B>& f = evalMode ? *f1 : f0; Obj in; in.f("links", linksOf(f)).f("tables", tablesOf(f)); moNKlandscapesIncrEval<BN> i(f); moNKlandscapesBitsIncrEval<BsN> bi(f); bitwalks(r, n, f, &i, &bi, "nk", in);
      if (evalMode) { B s = rb(r, n); begin("nk", in, s, f); evals<B>(r, f, [&] { return rb(r, n); }, 4);
        nkqLandscapesEval<B> g(n, k, 5, cons); Ev("inst").f("kind", "nk").f("n", n).f("k", k).f("consecutive", cons).f("links", linksOf(g)).f("tables", tablesOf(g)); g.save(fn.c_str()); nkqLandscapesEval<B> g1(fn.c_str()); Ev("same").f("a", tablesOf(g)).f("b", tablesOf(g1)); Ev("same").f("a", (long)g.q).f("b", (long)g1.q);
        nkpLandscapesEval<B> h(n, k, 0.5, cons); for (int a = 0; a < n; ++a) for (int b = 0; b < (1 << (k + 1)); ++b) h.tables[a][b] = std::lround(h.tables[a][b] * 1000) / 1000.0; h.save(fn.c_str()); nkpLandscapesEval<B> h1(fn.c_str()); Ev("same").f("a", tablesOf(h)).f("b", tablesOf(h1)); Ev("same").f("a", fx(h.p)).f("b", fx(h1.p)); } });
    SC = 1;
    guarded("qap", [&] { int n = r.in(2, 6); bool sym = r.coin(1, 3); std::string fn = tmpf("qap.dat"); IVV A(n, IV(n)), C(n, IV(n)); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { A[a][b] = sym && b < a ? A[b][a] : r.below(20); C[a][b] = sym && b < a ? C[b][a] : r.below(20); } { std::ofstream o(fn); o << n << "\n"; for (auto* M : {&A, &C}) for (auto& row : *M) { for (long v : row) o << v << " "; o << "\n"; } }
      QAPeval<PM> f(fn); Obj in; in.f("A", A).f("B", C); if (evalMode) { PM s = rp<PM>(r, n); begin("qap", in, s, f); evals<PM>(r, f, [&] { return rp<PM>(r, n); }, 4); return; }
      typedef moIndexedSwapNeighbor<PM> N; moQAPIncrEval<N> i(f); moRndWithoutReplNeighborhood<N> w(n * (n - 1) / 2); Evals<N> ev{{"incr", &i}, {"incr", &i}}; PM s = rp<PM>(r, n); begin("qap", in, s, f); walk<N>(r, s, f, ev, w); });
    guarded("queens", [&] { int n = r.in(2, 7); queenEval<P> f; if (evalMode) { P s = rp<P>(r, n); begin("queens", Obj(), s, f); evals<P>(r, f, [&] { return rp<P>(r, n); }, 6); return; }
      { typedef moSwapNeighbor<P> N; moSwapNeighborhood<P> w; P s = rp<P>(r, n); begin("queens", Obj(), s, f); walk<N>(r, s, f, {}, w); }
      { typedef moTwoOptExNeighbor<P> N; moTwoOptExNeighborhood<P> w; P s = rp<P>(r, n); begin("queens", Obj(), s, f); walk<N>(r, s, f, {}, w); }
      { typedef moShiftNeighbor<P> N; moRndWithoutReplNeighborhood<N> w(n * (n - 1)); P s = rp<P>(r, n); begin("queens", Obj(), s, f); walk<N>(r, s, f, {}, w); }
      { typedef moIndexedSwapNeighbor<P> N; moRndWithoutReplNeighborhood<N> w(n * (n - 1) / 2); P s = rp<P>(r, n); begin("queens", Obj(), s, f); walk<N>(r, s, f, {}, w); } });
    guarded("partition", [&] { if (evalMode) return; int n = r.in(2, 7); IV w, tb; for (int i = 0; i < n; ++i) w.push_back(r.in(1, 50)); int m = r.in(3, 40); for (int i = 0; i < m; ++i) tb.push_back(r.below(100)); struct F : public eoEvalFunc<S> { IV w, t; long calls = 0; void operator()(S& s) { ++calls; if (!s.invalid()) return; long z = 0; for (auto a : s.selected) z += w[a]; s.fitness(t[z % t.size()]); } } f; f.w = w; f.t = tb; S s(n); for (int i = 0; i < n; ++i) if (r.coin()) s.select(i); typedef moBinaryPartitionSwapNeighbor<S> N; moBinaryPartitionSwapNeighborhood<S> nh; Obj in; in.f("w", w).f("tab", tb); begin("table", in, s, f); walk<N>(r, s, f, {}, nh); });
    guarded("counter", [&] { if (evalMode) return; oneMaxEval<B> f; int n = r.in(1, 6); B s = rb(r, n); begin("onemax", Obj(), s, f); moOneMaxIncrEval<BN> i; moEvalCounter<BN> c(i); eoEvalFuncCounter<B> fc(f); long k = r.below(8); for (int t = 0; t < k; ++t) { BN b; b.index(r.below(n)); c(s, b); Ev v("nb"); v.f("by", "counter").f("m", mj(b)).f("nf", nf(b)); tail(v, s); } Ev("count").f("n", c.value()).f("calls", k); });
    if (evalMode) { static const int nks[][2] = {{3, 2}, {5, 2}, {7, 2}, {7, 3}, {4, 3}, {10, 3}}; int z = r.below(6), n = nks[z][0], k = nks[z][1]; LongKPathEval<B> f(k); Obj in; in.f("k", k); B s = rb(r, n); begin("longk", in, s, f); for (int t = 0; t < (1 << n) && t < 40; ++t) { B b(n); int v = n <= 5 ? t : r.below(1 << n); for (int i = 0; i < n; ++i) b[i] = v >> i & 1; f(b); Ev("eval").f("x", xs(b)).f("f", fi(b.fitness())); } }
  }
  return vt::done(); }
