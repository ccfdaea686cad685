// Fitness and diversity assignments on populations of solutions.
#include "moeo_common.hpp"
#include <memory>
using namespace vt;
static long VAL(double x) { return exactint(x); }
template <class P, class F> static std::vector<Obj> popj(const P& p, F w) { std::vector<Obj> o; for (unsigned i = 0; i < p.size(); ++i) { Obj x = solj(p[i]); w(x, p[i]); o.push_back(x); } return o; }
static void noW(Obj&, const Sol&) {}
static void fitW(Obj& o, const Sol& s) { o.f("w", s.invalidFitness() ? -LIM - 1 : VAL(s.fitness())); }
static void fitF(Obj& o, const Sol& s) { o.f("f", s.invalidFitness() ? -LIM - 1 : VAL(s.fitness())); }
static void divW(Obj& o, const Sol& s) { o.f("w", s.invalidDiversity() ? -LIM - 1 : fx(s.diversity(), 1e5)); }
static void fit1024(Obj& o, const Sol& s) { double x = s.fitness() * 1024; o.f("w", std::fabs(x - std::round(x)) < 1e-6 ? std::lround(x) : -LIM - 1); }

struct Gen { Rng& r; int nobj, style, range;
  IV v() { IV x(nobj);
    if (style == 0) for (auto& e : x) e = r.in(-range, range);
    else if (style == 1) { int s = range * nobj; for (int i = 0; i + 1 < nobj; ++i) { x[i] = r.in(0, range); s -= x[i]; } x[nobj - 1] = s + r.in(-1, 1); }
    else { int b = r.in(0, range); for (auto& e : x) e = b + r.in(0, 1); }
    return x; } };
static eoPop<Sol> mkpop(Gen& g, int n, long id0, bool dups) { eoPop<Sol> p; for (int i = 0; i < n; ++i) { IV v = (dups && i && g.r.coin(1, 4)) ? ovints(p[g.r.below(i)].objectiveVector()) : g.v(); p.push_back(mksol(id0 + i, v)); } return p; }

// an indicator with exactly representable exponentials: I(u,v) = n ln2, kappa 1
struct TabMetric : public moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double> {
  std::vector<eoRealInterval>& b() { return bounds; }
  double operator()(const OV& u, const OV& v) { IV a = ovints(u), c = ovints(v); long s = 0; for (size_t i = 0; i < a.size(); ++i) s += 3 * (i + 1) * a[i] + (2 * (i + 1) + 1) * c[i]; return (((s % 8) + 8) % 8) * std::log(2.0); } };

static void fitmode(Rng& r, long eps) {
  for (long ep = 0; ep < eps; ++ep) {
    int nobj = r.coin(1, 2) ? 2 : r.in(1, 4); IV dirs; for (int i = 0; i < nobj; ++i) dirs.push_back(r.below(2));
    setDirs(dirs); Ev("new").f("dirs", dirs);
    Gen g{r, nobj, r.below(3), r.in(1, 5)};
    static moeoParetoObjectiveVectorComparator<OV> pareto;
    bool rm = r.coin(1, 3), dfl = r.coin();
    std::unique_ptr<moeoDominanceDepthFitnessAssignment<Sol>> D(dfl ? new moeoDominanceDepthFitnessAssignment<Sol>(rm) : new moeoDominanceDepthFitnessAssignment<Sol>(pareto, rm));
    moeoUnboundedArchive<Sol> ar; bool useA = r.coin(); if (useA) for (int i = 0; i < 4; ++i) ar(mksol(500 + i, g.v()));
    bool nc = r.coin(); int st = r.in(0, 2); int how = r.below(2);
    std::unique_ptr<moeoDominanceRankFitnessAssignment<Sol>> R(useA ? (how ? new moeoDominanceRankFitnessAssignment<Sol>(ar, (double)st, nc) : new moeoDominanceRankFitnessAssignment<Sol>(pareto, ar, (double)st, nc)) : (how ? new moeoDominanceRankFitnessAssignment<Sol>((double)st, nc) : new moeoDominanceRankFitnessAssignment<Sol>(pareto, (double)st, nc)));
    std::unique_ptr<moeoDominanceCountFitnessAssignment<Sol>> C(useA ? (how ? new moeoDominanceCountFitnessAssignment<Sol>(ar, nc) : new moeoDominanceCountFitnessAssignment<Sol>(pareto, ar, nc)) : (how ? new moeoDominanceCountFitnessAssignment<Sol>(nc) : new moeoDominanceCountFitnessAssignment<Sol>(pareto, nc)));
    std::unique_ptr<moeoDominanceCountRankingFitnessAssignment<Sol>> K(useA ? (how ? new moeoDominanceCountRankingFitnessAssignment<Sol>(ar, nc) : new moeoDominanceCountRankingFitnessAssignment<Sol>(pareto, ar, nc)) : (how ? new moeoDominanceCountRankingFitnessAssignment<Sol>(nc) : new moeoDominanceCountRankingFitnessAssignment<Sol>(pareto, nc)));
    TabMetric tm; moeoExpBinaryIndicatorBasedFitnessAssignment<Sol> I(tm, 1.0);
    for (int k = 0; k < 3; ++k) { // repeated use of the same objects on populations of varying size
      eoPop<Sol> p = mkpop(g, r.in(1, 9), k * 100, true);
      { eoPop<Sol> q = p; guarded("dominance depth", [&] { (*D)(q); Ev("depth").f("rm", rm).f("pop", popj(p, noW)).f("out", popj(q, fitW)); });
        eoPop<Sol> q2 = q; OV del = mkov(g.v()); guarded("dominance depth update", [&] { D->updateByDeleting(q2, del); Ev("depthdel").f("del", ovints(del)).f("pop", popj(q, fitW)).f("out", popj(q2, fitW)); }); }
      auto with = [&](const char* op, auto& obj) { eoPop<Sol> q = p; moeoUnboundedArchive<Sol> dummy; auto before = popj(useA ? ar : dummy, noW);
        guarded(op, [&] { obj(q); Ev(op).f("nocopy", nc).f("start", st).f("pop", popj(p, noW)).f("out", popj(q, fitW)).f("arch", before).f("aout", popj(useA ? ar : dummy, fitW)); }); };
      { bool two = r.coin(), cmp = r.coin(); eoPop<Sol> a = mkpop(g, r.in(1, 5), 700, true), b = two ? mkpop(g, r.in(0, 4), 800, true) : eoPop<Sol>(), ca = a, cb = b; std::unique_ptr<moeoDominanceMatrix<Sol>> M(cmp ? new moeoDominanceMatrix<Sol>(pareto, nc) : new moeoDominanceMatrix<Sol>(nc));
        guarded("dominance matrix", [&] { for (int again = 0; again < 2; ++again) { if (two) (*M)(a, b); else (*M)(a); } IV rk, ct; IVV m; unsigned n = a.size() + b.size(); for (unsigned i = 0; i < n; ++i) { rk.push_back(VAL(M->rank(i))); ct.push_back(VAL(M->count(i))); IV row; for (unsigned j = 0; j < n; ++j) row.push_back((*M)[i][j]); m.push_back(row); } Ev("dommat").f("nocopy", nc).f("a", popj(ca, noW)).f("b", popj(cb, noW)).f("rk", rk).f("ct", ct).f("m", m); }); }
      with("rank", *R); with("count", *C); with("ranking", *K);
      { eoPop<Sol> q = p; guarded("indicator fitness", [&] { I(q); IV lo, hi; for (auto& b : tm.b()) { lo.push_back(fx(b.minimum(), 1)); hi.push_back(fx(b.maximum(), 1)); }
          Ev("ind").f("pop", popj(p, noW)).f("out", popj(q, fit1024)).f("lo", lo).f("hi", hi); });
        if (q.size() > 1) { int w = r.below(q.size()); OV d = q[w].objectiveVector(); q[w] = q.back(); q.pop_back(); eoPop<Sol> q2 = q;
          guarded("indicator delete", [&] { I.updateByDeleting(q2, d); Ev("inddel").f("fresh", true).f("del", ovints(d)).f("pop", popj(q, fit1024)).f("out", popj(q2, fit1024)); });
          eoPop<Sol> q3 = q2; OV a = mkov(g.v()); guarded("indicator add", [&] { double x = I.updateByAdding(q3, a); Ev("indadd").f("add", ovints(a)).f("r", fx(x, 1024)).f("pop", popj(q2, fit1024)).f("out", popj(q3, fit1024)); }); } }
      { std::vector<double> w; IV wi; for (int i = 0; i < nobj; ++i) { wi.push_back(r.in(0, 4)); w.push_back(wi.back()); }
        eoPop<Sol> q = p; moeoAggregationFitnessAssignment<Sol> A(w); guarded("aggregation", [&] { A(q); Ev("agg").f("wt", wi).f("pop", popj(p, noW)).f("out", popj(q, fitW)); }); }
    }
  }
}
static void divmode(Rng& r, long eps) {
  for (long ep = 0; ep < eps; ++ep) {
    int nobj = r.coin(1, 2) ? 2 : r.in(1, 3); IV dirs; for (int i = 0; i < nobj; ++i) dirs.push_back(r.below(2));
    setDirs(dirs); Ev("new").f("dirs", dirs);
    Gen g{r, nobj, r.below(3), r.coin(1, 4) ? r.in(1, 2) : r.in(4, 30)};
    moeoCrowdingDiversityAssignment<Sol> C; moeoFrontByFrontCrowdingDiversityAssignment<Sol> FC;
    static moeoManhattanDistance<Sol>* M = nullptr; moeoManhattanDistance<Sol> man; M = &man; moeoEuclideanDistance<Sol> euc;
    for (int k = 0; k < 3; ++k) {
      eoPop<Sol> p = mkpop(g, r.in(1, g.range < 3 ? 5 : 7), k * 100, r.coin(1, 4));
      if (r.coin(1, 6)) for (auto& s : p) { OV o = s.objectiveVector(); o[0] = 3; s.objectiveVector(o); } // no spread along one objective
      int fr = r.in(1, 3); for (auto& s : p) { s.fitness(r.below(fr)); s.diversity(r.below(4)); }
      for (int ff = 0; ff < 2; ++ff) { eoPop<Sol> q = p; guarded("crowding", [&] { if (ff) FC(q); else C(q); Ev("crowd").f("ff", ff == 1).f("pop", popj(p, fitF)).f("out", popj(q, divW)); }); }
      int rad = r.in(1, 12), al = r.in(1, 2);
      for (int ff = 0; ff < 2; ++ff) { eoPop<Sol> q = p; moeoSharingDiversityAssignment<Sol> S(man, rad, al); moeoFrontByFrontSharingDiversityAssignment<Sol> FS(man, rad, al);
        guarded("sharing", [&] { if (ff) FS(q); else S(q); Ev("share").f("ff", ff == 1).f("r", rad).f("a", al).f("pop", popj(p, fitF)).f("out", popj(q, divW)); }); }
      moeoUnboundedArchive<Sol> ar, none; bool useA = r.coin(); if (useA) for (int i = 0; i < 4; ++i) ar(mksol(500 + i, g.v()));
      int kk = r.in(1, 4);
      if (p.size() + ar.size() > 1) { eoPop<Sol> q = p; moeoNearestNeighborDiversityAssignment<Sol> N1(man, ar, kk), N2(man, kk); auto before = popj(useA ? ar : none, noW);
        guarded("nearest neighbour", [&] { if (useA) N1(q); else N2(q); Ev("near").f("k", kk).f("pop", popj(p, noW)).f("out", popj(q, divW)).f("arch", before).f("aout", popj(useA ? ar : none, divW)); }); }
      // distances
      if (p.size() > 1) { IV u = ovints(p[0].objectiveVector()), v = ovints(p.back().objectiveVector());
        int sc = r.in(1, 4); std::vector<std::vector<double>> scale(nobj, std::vector<double>{(double)sc, (double)r.in(-3, 3)}); moeoObjectiveVectorNormalizer<Sol> nz(scale);
        moeoManhattanDistance<Sol> mn(nz); moeoEuclideanDistance<Sol> en(nz);
        guarded("distance", [&] { double d = euc(p[0].objectiveVector(), p.back().objectiveVector()); Ev("dist").f("sc", 1).f("u", u).f("v", v).f("man", VAL(man(p[0].objectiveVector(), p.back().objectiveVector()))).f("sq", fx(d * d, 1)); });
        guarded("normalised distance", [&] { double d = en(p[0].objectiveVector(), p.back().objectiveVector()); Ev("dist").f("sc", sc).f("u", u).f("v", v).f("man", VAL(mn(p[0].objectiveVector(), p.back().objectiveVector()))).f("sq", fx(d * d, 1)); });
        guarded("distance matrix", [&] { moeoDistanceMatrix<Sol, double> dm(p.size(), man); dm(p); IVV vs, m; for (unsigned i = 0; i < p.size(); ++i) { vs.push_back(ovints(p[i].objectiveVector())); IV row; for (unsigned j = 0; j < p.size(); ++j) row.push_back(VAL(dm[i][j])); m.push_back(row); } Ev("matrix").f("pop", vs).f("m", m); }); }
    }
  }
}
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); eo::rng.reseed(7); Silence q; if (args().mode == "div") divmode(r, 22 * args().scale); else fitmode(r, 16 * args().scale); return done(); }
