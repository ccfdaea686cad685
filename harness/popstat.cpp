// Population queries, sorting, shuffling and statistics.
#include "eo_pop.hpp"
#include <utils/eoFDCStat.h>
#include <utils/eoPopStat.h>
#include <utils/eoFuncPtrStat.h>
#include <utils/eoScalarFitnessStat.h>
#include <utils/eoDistance.h>
#include <utils/eoFeasibleRatioStat.h>
#include <eoDualFitness.h>
// a query must leave the population alone
#define EV(o, k) Ev(o).f("kind", k).f("dir", Dir<F>::v).f("pop", p0).f("same", recs(p) == p0)
template <class F> struct Ps { typedef Ind<F> X; typedef eoPop<X> P; Rng& r; Ps(Rng& r) : r(r) {}
  static IVV ptrs(const std::vector<const X*>& v, const P& p) { IVV o; for (auto q : v) { bool in = p.size() && q >= &p[0] && q <= &p.back(); o.push_back(in ? rec(*q) : IV{-9, 0}); } return o; }
  static const int D = Dir<F>::v;
  P p; IVV p0;
  void queries() { p = mkpop<F>(r, r.in(1, 9), 1); p0 = recs(p); int n = p.size(), k = r.below(n); const P& c = p;
    { P q = p; mark("sort"); q.sort(); EV("arr", "sort").f("res", recs(q)); } { P q = p; q.shuffle(); EV("arr", "shuffle").f("res", recs(q)); }
    { std::vector<const X*> v; c.sort(v); EV("arr", "sort").f("res", ptrs(v, c)); std::vector<const X*> w(3, nullptr); c.sort(w); EV("arr", "sort").f("res", ptrs(w, c)); } { std::vector<const X*> v; c.shuffle(v); EV("arr", "shuffle").f("res", ptrs(v, c)); }
    mark("best"); EV("one", "best").f("k", 0).f("res", rec(c.best_element())); EV("one", "best").f("k", 0).f("res", rec(*p.it_best_element())); EV("one", "worst").f("k", 0).f("res", rec(c.worse_element())); EV("one", "worst").f("k", 0).f("res", rec(*p.it_worse_element()));
    { P q = p; mark("nth"); auto it = q.nth_element(k); EV("nth", "nth").f("k", k).f("at", (long)(it - q.begin())).f("res", recs(q)); } { std::vector<const X*> v; c.nth_element(k, v); EV("nth", "nthptr").f("k", k).f("at", k).f("res", ptrs(v, c)); }
    EV("one", "nthfit").f("k", k).f("res", IV{0, exactint((double)c.nth_element_fitness(k))});
    { std::ostringstream o; c.sortedPrintOn(o); std::istringstream i(o.str()); P q; q.readFrom(i); EV("arr", "sort").f("res", recs(q)); }
    { P q = p, z = mkpop<F>(r, r.in(0, 4), 51); IVV z0 = recs(z); q.swap(z); EV("swap", "swap").f("other", z0).f("res", recs(q)).f("res2", recs(z)); }
    { P q = p; q.invalidate(); IVV v = recs(q); EV("inval", "inval").f("res", v); }
    { struct Ini : public eoInit<X> { long next; Ini() : next(80) {} void operator()(X& x) { x = ind<F>(next++, 1); } } ini; int m = r.in(0, n + 4); P q = p; bool t = false; try { q.append(m, ini); } catch (std::exception&) { t = true; } EV("append", "append").f("m", m).f("threw", t).f("res", recs(q)); Ini i2; P z(m, i2); EV("append", "ctor").f("m", m).f("threw", false).f("res", recs(z)); }
  }
  static X gind(long id, long f, const IV& g) { X x(1 + g.size()); x[0] = id; for (size_t i = 0; i < g.size(); ++i) x[i + 1] = g[i]; x.fitness(F(f)); return x; }
  static IV grec(const X& x) { IV o; for (size_t i = 1; i < x.size(); ++i) o.push_back(x[i]); return o; }
  static double fsum(const P& p) { double s = 0; for (auto& x : p) s += (double)x.fitness(); return s; }
  struct Fs : public eoUF<const P&, double> { double operator()(const P& p) { return fsum(p); } };
  std::vector<std::string> lines(const std::string& s) { std::vector<std::string> o; std::istringstream i(s); std::string l; while (std::getline(i, l)) if (!l.empty() && l[0] != '#') o.push_back(l); return o; }
  void stats(eoAverageStat<X>& av, eoSecondMomentStats<X>& sm, eoBestFitnessStat<X>& bf, eoBestIndividualStat<X>& bi, eoDistanceStat<X>& ds, eoInterquartileRangeStat<X>& iq, eoAverageSizeStat<X>& as) {
    p = mkpop<F>(r, r.in(1, 9), 1); p0 = recs(p); int n = p.size(); const P& c = p; std::vector<const X*> sp; c.sort(sp);
    mark("average"); av(c); EV("stat", "average").f("v", fx((double)av.value()));
    if (n > 1) { sm(c); EV("stat", "moment").f("v", fx(sm.value().first)).f("w", fx(sm.value().second, 100)); }
    bf(c); EV("stat", "bestfit").f("v", exactint((double)bf.value())); bi(c); EV("stat", "bestind").f("v", exactint((double)bi.value().fitness())).f("id", (long)bi.value()[0]);
    iq(c); EV("stat", "iqr").f("v", exactint((double)iq.value())); int k = r.below(n); { eoNthElementStat<X> s(k, "n"); s(c); EV("stat", "nthstat").f("k", k).f("v", exactint((double)s.value())); eoNthElementStat<X> m(0.5, "m"); m(c); EV("stat", "nthstat").f("k", n / 2).f("v", exactint((double)m.value())); int q = r.below(8); eoNthElementStat<X> mq(q / 8.0, "m"); mq(c); EV("stat", "nthstat").f("k", n * q / 8).f("v", exactint((double)mq.value())); }
    { int j = r.in(0, n + 1); eoNthElementFitnessStat<X> s(j); bool t = false; mark("nth fitness stat"); try { s(sp); } catch (std::exception&) { t = true; } EV("stat", "nthsorted").f("k", j).f("threw", t).f("v", t ? 0 : exactint((double)s.value())); }
    { eoFuncPtrStat<X, double> s(&fsum); s(c); EV("stat", "sum").f("v", exactint(s.value())); Fs f; eoFunctorStat<X, double> s2(f); s2(c); EV("stat", "sum").f("v", exactint(s2.value())); eoFunctorStore st; auto& s3 = makeFuncPtrStat<X, double>(&fsum, st); s3(c); EV("stat", "sum").f("v", exactint(s3.value())); auto& s4 = makeFunctorStat<X, double>(f, st); s4(c); EV("stat", "sum").f("v", exactint(s4.value())); }
    { eoScalarFitnessStat<X> s; s(sp); IV v; for (double d : s.value()) v.push_back(exactint(d)); EV("stat", "all").f("lo", -1000).f("hi", 1000).f("v", v); int lo = r.in(-5, 0), hi = r.in(1, 5); eoRealVectorBounds b(1, lo, hi); eoScalarFitnessStat<X> s2("x", b); s2(sp); v.clear(); for (double d : s2.value()) v.push_back(exactint(d)); EV("stat", "all").f("lo", lo).f("hi", hi).f("v", v); }
    { int m = r.in(0, n); eoPopStat<X> s(m); s(c); std::vector<std::string> pr; for (auto& x : p) { std::ostringstream o; o << x; pr.push_back(o.str()); } EV("dump", "dump").f("m", m).f("ind", pr).f("v", lines(s.value())); eoSortedPopStat<X> s2(m); s2(sp); s2(sp); EV("dump", "sdump").f("m", m).f("ind", pr).f("v", lines(s2.value())); }
    // genotypic measures
    P g; int L = r.in(1, 3); IVV gs; IV fs, lens; int m = r.in(2, 5); for (int i = 0; i < m; ++i) { IV z; for (int k = 0; k < L; ++k) z.push_back(r.in(-2, 2)); int f = r.in(-3, 3); X x(L); for (int k = 0; k < L; ++k) x[k] = z[k]; x.fitness(F(f)); g.push_back(x); gs.push_back(z); fs.push_back(f); }
    auto same = [&](const P& q) { if ((int)q.size() != m) return false; for (int i = 0; i < m; ++i) { if (exactint((double)q[i].fitness()) != fs[i]) return false; for (int k = 0; k < L; ++k) if (q[i][k] != gs[i][k]) return false; } return true; };
    mark("distance"); ds(g); Ev("geno").f("kind", "spread").f("dir", Dir<F>::v).f("gs", gs).f("fs", fs).f("same", same(g)).f("v", fx(ds.value())).f("opt", IV()).f("ds", IV());
    { eoHammingDistance<X> h; eoL1Distance<X> l; bool ham = r.coin(); eoDistance<X>& d = ham ? (eoDistance<X>&)h : l; bool known = r.coin(); X best = g[r.below(m)]; IV opt; if (known) for (int k = 0; k < L; ++k) { best[k] = r.in(-2, 2); opt.push_back(best[k]); } auto run = [&](eoFDCStat<X>& s) { s(g); IV dd, ff; for (double x : s.theDist().value()) dd.push_back(exactint(x)); for (double x : s.theFit().value()) ff.push_back(exactint(x)); Ev("geno").f("kind", ham ? "fdcham" : "fdcl1").f("dir", Dir<F>::v).f("gs", gs).f("fs", fs).f("same", same(g)).f("v", fx(s.value(), 100)).f("opt", opt).f("ds", dd).f("ff", ff); }; if (known) { eoFDCStat<X> s(d, best); run(s); } else { eoFDCStat<X> s(d); run(s); } }
    { eoHammingDistance<X> h; eoL1Distance<X> l; eoQuadDistance<X> q; eoFitnessDistance<X> f; Ev("dist").f("a", gs[0]).f("b", gs[1]).f("fa", fs[0]).f("fb", fs[1]).f("ham", exactint(h(g[0], g[1]))).f("l1", exactint(l(g[0], g[1]))).f("quad", fx(q(g[0], g[1]))).f("fit", exactint(f(g[0], g[1]))); }
    { P v; int m = r.in(1, 6); for (int i = 0; i < m; ++i) { int z = r.in(0, 5); lens.push_back(z); X x(z); x.fitness(F(1)); v.push_back(x); } as(v); Ev("size").f("lens", lens).f("v", fx(as.value())); } }
  void run(int rounds) { eoAverageStat<X> av; eoSecondMomentStats<X> sm; eoBestFitnessStat<X> bf; eoBestIndividualStat<X> bi; eoDistanceStat<X> ds; eoInterquartileRangeStat<X> iq; eoAverageSizeStat<X> as; Ev("new").f("dir", Dir<F>::v); for (int i = 0; i < rounds; ++i) { queries(); stats(av, sm, bf, bi, ds, iq, as); } }
};
template <class DF> static void dual(Rng& r, int dir) { typedef eoVector<DF, int> X; eoPop<X> p; int n = r.in(1, 7); IVV v; int nf = 0; int mix = r.below(3); for (int i = 0; i < n; ++i) { X x(1, i); long f = r.in(-3, 3); bool fe = mix == 0 ? true : mix == 1 ? false : r.coin(); x.fitness(DF((double)f, fe)); p.push_back(x); v.push_back(IV{f, fe}); nf += fe; }
  eoFeasibleRatioStat<X> s; s(p); Ev("feas").f("v", v).f("r", fx(s.value())); eoDualPopSplit<X> sp; sp(p); sp(p); auto ids = [](eoPop<X>& q) { IV o; for (auto& x : q) o.push_back(x[0]); return o; }; eoPop<X> m = sp.merge(); Ev("dualsplit").f("v", v).f("fe", ids(sp.feasible())).f("un", ids(sp.unfeasible())).f("all", ids(m));
  const eoPop<X>& c = p; Ev("dualbest").f("dir", dir).f("v", v).f("best", (long)c.best_element()[0]).f("worst", (long)c.worse_element()[0]); }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 12 * args().scale; ++ep) { eo::rng.reseed(r.next() % 100000 + 1); if (ep % 2) Ps<double>(r).run(8); else Ps<eoMinimizingFitness>(r).run(8); for (int i = 0; i < 6; ++i) { dual<eoMaximizingDualFitness>(r, 0); dual<eoMinimizingDualFitness>(r, 1); } }
  return done(); }
