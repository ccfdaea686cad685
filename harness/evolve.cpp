// Whole runs of the generational algorithms, with observers in every slot.
#include "eo_pop.hpp"
#include <ga.h>
#include <eoSGA.h>
#include <eoFastGA.h>
#include <eoCellularEasyEA.h>
#include <eoAlgoReset.h>
#include <eoAlgoRestart.h>
#include <eoSimpleEDA.h>
#include <eoSurviveAndDie.h>
#include <eoReduceMergeReduce.h>
#include <eoMGGReplacement.h>
#include <eoG3Replacement.h>
#include <es/eoReal.h>
#include <es/eoRealOp.h>
#include <es/eoNormalMutation.h>
#include <es/eoRealInitBounded.h>
#include <eoInt.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <eoTwoOptMutation.h>
static int Mod = 50, Clock = 0, MutK = 0, CrossK = 0; static bool Drift = false; static long Evals = 0;
template <class G> static long objective(const G& g) { long s = 0; for (size_t i = 0; i < g.size(); ++i) s += (long)(i + 1) * (long)g[i]; return (s + (Drift ? Clock : 0)) % Mod; }
template <class E> static Raw one(const E& x) { IV g; for (size_t i = 0; i < x.size(); ++i) g.push_back((long)x[i]); return Obj().f("g", g).f("f", x.invalid() ? -1L : exactint((double)x.fitness())); }
template <class P> static std::vector<Raw> all(const P& p) { std::vector<Raw> o; for (auto& x : p) o.push_back(one(x)); return o; }
template <class E> struct Eval : eoEvalFunc<E> { void operator()(E& x) { if (Drift || x.invalid()) { ++Evals; x.fitness(objective(x)); } } };
template <class E> struct Mut : eoMonOp<E> { Rng& r; int always; Mut(Rng& r, int a) : r(r), always(a) {} bool operator()(E& x) { if (always != 1 && r.coin(1, 3)) return false; x.push_back(1000 + MutK++ % 1000); return true; } std::string className() const { return "Mut"; } };
template <class E> struct Quad : eoQuadOp<E> { Rng& r; int always; Quad(Rng& r, int a) : r(r), always(a) {} bool operator()(E& x, E& y) { if (always != 1 && r.coin(1, 3)) return false; int k = 2000 + CrossK++; x.push_back(k); y.push_back(k); return true; } std::string className() const { return "Quad"; } };
// observers around the pieces of a run
template <class E> struct WBreed : eoBreed<E> { eoBreed<E>& b; WBreed(eoBreed<E>& b) : b(b) {} void operator()(const eoPop<E>& p, eoPop<E>& o) { auto pp = all(p); b(p, o); Ev("breed").f("parents", pp).f("off", all(o)); } };
template <class E> struct WSelect : eoSelect<E> { eoSelect<E>& s; std::vector<Raw> pp; WSelect(eoSelect<E>& s) : s(s) {} void operator()(const eoPop<E>& p, eoPop<E>& o) { pp = all(p); s(p, o); } };
template <class E> struct WTransform : eoTransform<E> { eoTransform<E>& t; WSelect<E>& w; WTransform(eoTransform<E>& t, WSelect<E>& w) : t(t), w(w) {} void operator()(eoPop<E>& o) { t(o); Ev("breed").f("parents", w.pp).f("off", all(o)); } };
template <class E> struct WReplace : eoReplacement<E> { eoReplacement<E>& r; int bad; WReplace(eoReplacement<E>& r) : r(r), bad(0) {} void operator()(eoPop<E>& p, eoPop<E>& o) { auto pi = all(p), oi = all(o); if (bad) { if (bad > 0) p.push_back(p[0]); else p.pop_back(); } else r(p, o); Ev("replace").f("bad", bad != 0).f("pin", pi).f("oin", oi).f("pout", all(p)); } };
template <class E> struct WMerge : eoMerge<E> { eoMerge<E>& m; WMerge(eoMerge<E>& m) : m(m) {} void operator()(const eoPop<E>& p, eoPop<E>& o) { auto pi = all(p), oi = all(o); m(p, o); Ev("merge").f("pin", pi).f("oin", oi).f("out", all(o)); } };
template <class E> struct WReduce : eoReduce<E> { eoReduce<E>& m; WReduce(eoReduce<E>& m) : m(m) {} void operator()(eoPop<E>& p, unsigned n) { auto pi = all(p); m(p, n); Ev("reduce").f("in", pi).f("n", n).f("out", all(p)); } };
template <class E> struct Cont : eoContinue<E> { const char* op; int left; Cont(const char* op, int n) : op(op), left(n) {} bool operator()(const eoPop<E>& p) { bool go = --left > 0; Ev(op).f("pop", all(p)).f("go", go); ++Clock; return go; } };
template <class E> static eoReplacement<E>& someReplace(Rng& r, eoFunctorStore& st, int n, int k, std::string& name) {
  // k offspring, n parents
  for (;;) switch (r.below(9)) {
    case 0: name = "plus"; return st.storeFunctor(new eoPlusReplacement<E>); case 1: if (k < n) break; name = "comma"; return st.storeFunctor(new eoCommaReplacement<E>); case 2: name = "ep"; return st.storeFunctor(new eoEPReplacement<E>(r.in(1, 3))); case 3: if (k > n) break; name = "ssgaworse"; return st.storeFunctor(new eoSSGAWorseReplacement<E>); case 4: if (k > n) break; name = "ssgadet"; return st.storeFunctor(new eoSSGADetTournamentReplacement<E>(r.in(2, 3)));
    case 5: if (k > n) break; name = "ssgastoch"; return st.storeFunctor(new eoSSGAStochTournamentReplacement<E>(0.75)); case 6: if (k != n) break; name = "generational"; return st.storeFunctor(new eoGenerationalReplacement<E>); case 7: if (k != n) break; name = "elitist"; return st.storeFunctor(new eoWeakElitistReplacement<E>(st.storeFunctor(new eoGenerationalReplacement<E>))); default: name = "sad"; return st.storeFunctor(new eoDeterministicSaDReplacement<E>(0.25)); } }
template <class E> static void begin(const char* kind, const char* alg, const eoPop<E>& p, bool pre, Obj extra = Obj()) { Ev e("run"); e.f("kind", kind).f("alg", alg).f("pop", all(p)).f("pre", pre).f("m", Mod).f("drift", Drift); if (!extra.s.empty()) e.o.s += "," + extra.s; }
static void fresh(Rng& r) { Mod = r.in(2, 60); Clock = 0; MutK = CrossK = 0; Drift = false; Evals = 0; eo::rng.reseed(r.below(1 << 30)); }
template <class E> static eoPop<E> firstpop(Rng& r, int n, bool pre) { eoPop<E> p; for (int i = 0; i < n; ++i) { E x; x.push_back(i + 1); if (pre || r.coin(1, 3)) x.fitness(objective(x)); p.push_back(x); } return p; }
template <class F> void easy(Rng& r) { typedef Ind<F> E; fresh(r); eoFunctorStore st; int n = r.in(2, 7), v = r.below(8); static const char* V[] = {"ea-breed", "ea-size", "ea-popeval-size", "ea-popeval", "ea-popeval-sel", "ea-merge", "ea-sel", "ea-sel-merge"};
  Eval<E> ev; Drift = (v == 2 || v == 3 || v == 4) && r.coin(); eoPopLoopEval<E> loop(ev); eoTimeVaryingLoopEval<E> tv(ev); eoPopEvalFunc<E>& pe = Drift ? (eoPopEvalFunc<E>&)tv : loop;
  Mut<E> mut(r, 0); Quad<E> quad(r, 0); eoRandomSelect<E> rs; eoDetTournamentSelect<E> dt(2); eoSelectOne<E>& s1 = r.coin() ? (eoSelectOne<E>&)rs : dt; eoSGAGenOp<E> sga(quad, r.unit(), mut, r.unit()); eoPropCombinedMonOp<E> pm(mut, 1.0); eoProportionalOp<E> prop; prop.add(quad, 0.5); prop.add(mut, 0.3); static eoQuadCloneOp<E> qc; static eoMonCloneOp<E> mc; prop.add(qc, 0.1); prop.add(mc, 0.1); eoSequentialOp<E> seq; seq.add(quad, r.unit()); seq.add(pm, r.unit()); eoGenOp<E>* ops[] = {&sga, &prop, &seq}; eoGenOp<E>& op = *ops[r.below(3)];
  int k = r.coin() ? n : r.in(1, 9); eoGeneralBreeder<E> gb(s1, op, k, false); eoSelectMany<E> sm(s1, k, false), smn(s1, 1.0); eoSGATransform<E> tr(quad, r.unit(), mut, r.unit()); eoSelectTransform<E> stt(sm, tr); bool useSel = r.coin(); WBreed<E> wb(useSel ? (eoBreed<E>&)stt : gb); WSelect<E> ws(sm); WTransform<E> wt(tr, ws); std::string rn; WReplace<E> wr(someReplace<E>(r, st, n, k, rn)); eoPlus<E> plus; eoTruncate<E> trunc; eoNoElitism<E> noel; eoElitism<E> el(1u, false); WMerge<E> wm(k >= n && r.coin() ? (eoMerge<E>&)noel : k + 1 >= n && r.coin() ? (eoMerge<E>&)el : plus); eoLinearTruncate<E> lt; WReduce<E> wd(r.coin() ? (eoReduce<E>&)trunc : lt);
  int gens = r.in(1, 5); Cont<E> ct("cont", gens); std::unique_ptr<eoEasyEA<E> > a;
  switch (v) { case 0: a.reset(new eoEasyEA<E>(ct, ev, wb, wr)); break; case 1: a.reset(new eoEasyEA<E>(ct, ev, wb, wr, r.in(0, 9))); break; case 2: a.reset(new eoEasyEA<E>(ct, ev, pe, wb, wr, r.in(0, 9))); break; case 3: a.reset(new eoEasyEA<E>(ct, pe, wb, wr)); break; case 4: a.reset(new eoEasyEA<E>(ct, pe, ws, wt, wr)); break; case 5: a.reset(new eoEasyEA<E>(ct, ev, wb, wm, wd)); break; case 6: a.reset(new eoEasyEA<E>(ct, ev, ws, wt, wr)); break; default: a.reset(new eoEasyEA<E>(ct, ev, ws, wt, wm, wd)); }
  bool bad = r.coin(1, 8) && v != 5 && v != 7; if (bad) wr.bad = r.coin() ? 1 : -1; int runs = bad ? 1 : r.in(1, 2);
  for (int q = 0; q < runs; ++q) { Clock = 0; eoPop<E> p = firstpop<E>(r, n, r.coin(1, 3)); ct.left = gens; mark(V[v]); begin(V[v], "easy", p, false); if (bad) { bool threw = false; try { (*a)(p); } catch (std::exception&) { threw = true; } if (threw) Ev("threw").f("kind", wr.bad > 0 ? "growing" : "shrinking"); else Ev("end").f("pop", all(p)); } else { (*a)(p); Ev("end").f("kind", "with-" + (v == 5 || v == 7 ? std::string("merge") : rn)).f("pop", all(p)); } } }
static int rateOf(double x, int always) { return x == 0 ? 0 : x == 1 && always == 1 ? 1 : 2; }
static double rate(Rng& r) { int k = r.below(3); return k == 0 ? 0.0 : k == 1 ? 1.0 : 0.5; }
template <class F> void others(Rng& r) { typedef Ind<F> E; Eval<E> ev; eoRandomSelect<E> rs; eoDetTournamentSelect<E> dt(2);
  { fresh(r); int n = r.in(1, 7), qa = r.below(2), ma = r.below(2); double cr = rate(r), mr = rate(r); Quad<E> q(r, qa); Mut<E> m(r, ma); Cont<E> ct("gen", r.in(1, 4)); eoSelectOne<E>& s = r.coin() ? (eoSelectOne<E>&)rs : dt; eoSGA<E> a(s, q, cr, m, mr, ev, ct); eoPop<E> p = firstpop<E>(r, n, true); mark("eoSGA"); begin("sga", "sga", p, true, Obj().f("crate", rateOf(cr, qa)).f("mrate", rateOf(mr, ma))); a(p); Ev("end").f("pop", all(p)); }
  { fresh(r); int n = r.in(1, 7), again = r.in(1, 2); double cr = rate(r), mr = rate(r); Quad<E> q(r, 1); Mut<E> m(r, 1); Cont<E> ct("gen", 1); eoPopLoopEval<E> pe(ev); bool given = r.coin(); int k = given ? r.in(1, 8) : 0; eoGenerationalReplacement<E> gen; eoFastGA<E> a(cr, r.coin() ? (eoSelectOne<E>&)rs : dt, q, r.coin() ? (eoSelectOne<E>&)rs : dt, mr, rs, m, pe, gen, ct, k);
    for (int z = 0; z < again; ++z) { if (z) n = r.in(1, 7); ct.left = given && k != n ? 1 : r.in(1, 4); eoPop<E> p = firstpop<E>(r, n, true); mark("eoFastGA"); begin("fast", "fast", p, true, Obj().f("crate", rateOf(cr, 1)).f("mrate", rateOf(mr, 1)).f("offn", given ? k : n)); a(p); Ev("end").f("pop", all(p)); } }
  { fresh(r); int n = r.in(1, 6); struct Cell : eoCellularEasyEA<E> { using eoCellularEasyEA<E>::eoCellularEasyEA; eoPop<E> neighbours(const eoPop<E>& p, int i) { eoPop<E> o; int n = p.size(); o.push_back(p[(i + 1) % n]); o.push_back(p[(i + n - 1) % n]); return o; } };
    struct Pick : eoSelectOne<E> { bool best; int at; Pick(bool b, int a) : best(b), at(a) {} const E& operator()(const eoPop<E>& p) { if (best) return p.best_element(); return p[at]; } }; Pick child(r.coin(), r.below(2)), repl(r.coin(), r.below(2)); Quad<E> q(r, 1); Mut<E> m(r, 1); Cont<E> ct("gen", r.in(1, 4)); mark("eoCellularEasyEA");
    std::unique_ptr<Cell> a(new Cell(ct, ev, rs, q, m, child, repl)); eoPop<E> p = firstpop<E>(r, n, true); begin("cell", "cell", p, true, Obj().f("best", repl.best).f("min", Dir<F>::v != 0)); (*a)(p); Ev("end").f("pop", all(p)); }
  // restarts and resets
  { fresh(r); static IVV inits; inits.clear(); struct Init : eoInit<E> { int k; Init() : k(0) {} void operator()(E& x) { x.clear(); x.push_back(++k); x.invalidate(); inits.push_back(IV(x.begin(), x.end())); } } in; struct Inner : eoAlgo<E> { Rng& r; Inner(Rng& r) : r(r) {} void operator()(eoPop<E>& p) { auto was = all(p); for (auto& x : p) if (r.coin()) { x.push_back(7); x.fitness(objective(x)); } Ev("fresh").f("pop", was).f("inits", inits).f("out", all(p)); inits.clear(); } } inner(r);
    int n = r.in(1, 6), v = r.below(6), size = v == 3 || v == 5 ? r.in(1, 6) : n; eoPopLoopEval<E> pe(ev); Cont<E> ct("cont", r.in(1, 4)); eoAlgoPopReset<E> pr(in, pe), prn(in, pe, size); static int Others; Others = 0; struct Extra : eoAlgoReset<E> { void operator()(eoPop<E>&) { ++Others; } } extra; eoAlgoResetCombine<E> comb(extra); comb.add(v == 5 ? prn : pr); std::vector<eoAlgoReset<E>*> vec{&pr, &extra}; eoAlgoResetCombine<E> comb2(vec); std::unique_ptr<eoAlgoRestart<E> > a; static const char* V[] = {"restart-popeval", "restart-eval", "restart-reset", "restart-size", "restart-list", "restart-comb"};
    switch (v) { case 0: a.reset(new eoAlgoRestart<E>(in, pe, inner, ct)); break; case 1: a.reset(new eoAlgoRestart<E>(in, ev, inner, ct)); break; case 2: a.reset(new eoAlgoRestart<E>(pe, inner, ct, pr)); break; case 3: a.reset(new eoAlgoRestart<E>(ev, inner, ct, prn)); break; case 4: a.reset(new eoAlgoRestart<E>(ev, inner, ct, comb2)); break; default: a.reset(new eoAlgoRestart<E>(pe, inner, ct, comb)); }
    int total = ct.left; eoPop<E> p = firstpop<E>(r, n, r.coin()); mark(V[v]); begin(V[v], "restart", p, false, Obj().f("n", size)); (*a)(p); Ev("end").f("pop", all(p)); if (v >= 4) Ev("count").f("kind", "resets").f("got", Others).f("want", total); }
  // a distribution sampled, evaluated and updated every generation
  { fresh(r); static IVV inits; inits.clear(); struct Dist : eoDistribution<E> { int k, made; Dist() : k(1), made(0) {} void printOn(std::ostream&) const {} void readFrom(std::istream&) {} std::string className() const { return "Dist"; } void operator()(E& x) { x.clear(); x.push_back(k); x.push_back(++made); x.invalidate(); inits.push_back(IV(x.begin(), x.end())); } } d; static int N; N = r.in(1, 6); struct Upd : eoDistribUpdater<E> { void operator()(eoDistribution<E>& dd, eoPop<E>& p) { while ((int)inits.size() > N) inits.erase(inits.begin()); Ev("fresh").f("pop", all(p)).f("inits", inits).f("out", all(p)); inits.clear(); ++static_cast<Dist&>(dd).k; } } up; Cont<E> ct("cont", r.in(1, 4)); int total = ct.left; eoSimpleEDA<E> a(up, ev, N, ct); mark("eoSimpleEDA"); eoPop<E> p; begin("eda", "eda", p, true, Obj().f("n", N)); struct Last : eoContinue<E> { } ; (void)total; a(d); Ev("count").f("kind", "updates").f("got", d.k - 1).f("want", total); } }
// the usual representations with the library's own operators
template <class E> void bits(Rng& r) { fresh(r); eoFunctorStore st; int n = r.in(2, 8), L = r.in(2, 8); Eval<E> ev; eo1PtBitXover<E> x1; eoUBitXover<E> xu; eoNPtsBitXover<E> xn(2); eoBitMutation<E> m(0.3); eoDetBitFlip<E> fl; eoBitInversion<E> inv; eoBitNext<E> nx; eoPropCombinedQuadOp<E> xo(x1, 1.0); xo.add(xu, 1.0); xo.add(xn, 1.0); eoPropCombinedMonOp<E> mo(m, 1.0); mo.add(fl, 1.0); mo.add(inv, 1.0); mo.add(nx, 1.0); eoDetTournamentSelect<E> s(2); eoSGAGenOp<E> op(xo, 0.7, mo, 0.7); int k = r.coin() ? n : r.in(1, 9); eoGeneralBreeder<E> b(s, op, k, false); WBreed<E> wb(b); std::string rn; WReplace<E> wr(someReplace<E>(r, st, n, k, rn)); Cont<E> ct("cont", r.in(1, 5)); eoPop<E> p; eoUniformGenerator<bool> g; eoInitFixedLength<E> in(L, g); p.append(n, in); mark("bits"); begin("bits", "easy", p, false); eoEasyEA<E> a(ct, ev, wb, wr); a(p); Ev("end").f("pop", all(p)); }
template <class F> void perms(Rng& r) { typedef eoInt<F> E; fresh(r); eoFunctorStore st; int n = r.in(2, 8), L = r.in(3, 8); Eval<E> ev; eoOrderXover<E> ox; eoPartiallyMappedXover<E> pmx; eoSwapMutation<E> sw; eoShiftMutation<E> sh; eoTwoOptMutation<E> to; eoPropCombinedQuadOp<E> xo(ox, 1.0); xo.add(pmx, 1.0); eoPropCombinedMonOp<E> mo(sw, 1.0); mo.add(sh, 1.0); mo.add(to, 1.0); eoRankingSelect<E> s(2.0); eoSGATransform<E> tr(xo, 0.7, mo, 0.7); eoSelectMany<E> sm(s, 1.0); WSelect<E> ws(sm); WTransform<E> wt(tr, ws); std::string rn; WReplace<E> wr(someReplace<E>(r, st, n, n, rn)); Cont<E> ct("cont", r.in(1, 5)); eoPop<E> p; eoInitPermutation<E> in(L); p.append(n, in); mark("perms"); begin("perms", "easy", p, false); eoEasyEA<E> a(ct, ev, ws, wt, wr); a(p); Ev("end").f("pop", all(p)); }
template <class F> void reals(Rng& r) { typedef eoReal<F> E; fresh(r); eoFunctorStore st; int n = r.in(2, 8), L = r.in(2, 5), gens = r.in(1, 5); auto f = [](const E& x) { double s = 0; for (size_t i = 0; i < x.size(); ++i) s += (i + 1) * x[i] * x[i]; return s; }; struct Ev2 : eoEvalFunc<E> { void operator()(E& x) { if (x.invalid()) { double s = 0; for (size_t i = 0; i < x.size(); ++i) s += (i + 1) * x[i] * x[i]; x.fitness(s); } } } ev; eoRealVectorBounds bnd(L, -2.0, 3.0); eoSegmentCrossover<E> seg(bnd); eoHypercubeCrossover<E> hy(bnd); eoRealUXover<E> ux(0.5); eoUniformMutation<E> um(bnd, 0.5, 0.5); eoDetUniformMutation<E> du(bnd, 0.5, 1); double sg = 0.5; eoNormalMutation<E> nm(bnd, sg, 0.5); eoPropCombinedQuadOp<E> xo(seg, 1.0); xo.add(hy, 1.0); xo.add(ux, 1.0); eoPropCombinedMonOp<E> mo(um, 1.0); mo.add(du, 1.0); mo.add(nm, 1.0); eoStochTournamentSelect<E> s(0.8); eoSGAGenOp<E> op(xo, 0.7, mo, 0.5); int k = r.coin() ? n : r.in(1, 9); eoGeneralBreeder<E> b(s, op, k, false); std::string rn; struct C2 : eoContinue<E> { int left, n0; decltype(f)& g; C2(int l, int n, decltype(f)& g) : left(l), n0(n), g(g) {} bool operator()(const eoPop<E>& p) { IV same; for (auto& x : p) { double want = g(x); same.push_back(!x.invalid() && (double)x.fitness() == want); } Ev("real").f("kind", "reals").f("n0", n0).f("n", p.size()).f("same", same); return --left > 0; } } ct(gens, n, f); eoPop<E> p; eoRealInitBounded<E> in(bnd); p.append(n, in); mark("reals"); eoEasyEA<E> a(ct, ev, b, someReplace<E>(r, st, n, k, rn)); a(p); Ev("count").f("kind", "realgens").f("got", ct.left).f("want", 0); }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (int ep = 0; ep < 40 * args().scale; ++ep) guarded("episode", [&] { easy<double>(r); easy<eoMinimizingFitness>(r); if (ep % 2) { others<double>(r); bits<eoBit<double> >(r); perms<double>(r); reals<double>(r); } else { others<eoMinimizingFitness>(r); bits<eoBit<eoMinimizingFitness> >(r); perms<eoMinimizingFitness>(r); reals<eoMinimizingFitness>(r); } });
  return done(); }
