// Comparators: exhaustive over small grids, random elsewhere.
#include "moeo_common.hpp"
using namespace vt;
static double SC = 1, OFF = 0; // value of level k: k*SC+OFF, with noise below the tolerance
static OV mk(Rng& r, const IV& v, bool noise) {
  std::vector<double> x; for (long k : v) x.push_back(k * SC + OFF + (noise ? (r.unit() - 0.5) * 4e-11 : 0)); return OV(x); }
// feasibility-aware vector with the interface of the dual comparator
struct DV : public OV { bool f; DV(const OV& o, bool f_) : OV(o), f(f_) {} bool is_feasible() const { return f; } };

static void pair(Rng& r, const IV& u, const IV& v) {
  static moeoParetoObjectiveVectorComparator<OV> P; static moeoWeakObjectiveVectorComparator<OV> W; static moeoStrictObjectiveVectorComparator<OV> S; static moeoObjectiveObjectiveVectorComparator<OV> L;
  bool noise = SC >= 1e-9 && r.coin(1, 3);
  OV a = mk(r, u, noise), b = mk(r, v, noise);
  guarded("compare objective vectors", [&] { Ev("vec").f("u", u).f("v", v).f("pareto", (bool)P(a, b)).f("dominates", (bool)a.dominates(b)).f("weak", (bool)W(a, b)).f("strict", (bool)S(a, b)).f("lex", (bool)L(a, b))
    .f("eq", (bool)(a == b)).f("ne", (bool)(a != b)).f("lt", (bool)(a < b)).f("gt", (bool)(a > b)).f("le", (bool)(a <= b)).f("ge", (bool)(a >= b)); });
  bool fu = r.coin(), fv = r.coin();
  guarded("dual compare", [&] { moeoParetoDualObjectiveVectorComparator<DV> D; DV x(a, fu), y(b, fv); Ev("dual").f("u", u).f("fu", fu).f("v", v).f("fv", fv).f("r", (bool)D(x, y)); });
}
static void epspair(Rng& r, const IV& u, const IV& v) {
  int n[] = {1, 2, 4, 1, 1, 3}, d[] = {1, 1, 1, 2, 4, 2}; int k = r.below(6);
  IV a = u; for (auto& x : a) x *= 6; // keeps x/eps exact
  guarded("epsilon compare", [&] { moeoEpsilonObjectiveVectorComparator<OV> C((double)n[k] / d[k]); Ev("eps").f("u", a).f("v", v).f("num", n[k]).f("den", d[k]).f("r", (bool)C(mkov(a), mkov(v))); });
}
static Sol S_(Rng& r, IV v, long f, long d) { Sol s = mksol(0, v); s.fitness(f); s.diversity(d); return s; }
static void solpair(Rng& r, int nobj) {
  IV u, v; for (int i = 0; i < nobj; ++i) { u.push_back(r.in(-2, 2)); v.push_back(r.in(-2, 2)); }
  long f1 = r.in(-2, 2), f2 = r.in(-2, 2), d1 = r.in(-2, 2), d2 = r.in(-2, 2); int wf = r.in(0, 3), wd = r.in(0, 3);
  Sol a = S_(r, u, f1, d1), b = S_(r, v, f2, d2);
  guarded("compare solutions", [&] {
    moeoFitnessThenDiversityComparator<Sol> FD; moeoDiversityThenFitnessComparator<Sol> DF; moeoFitnessComparator<Sol> F; moeoAggregativeComparator<Sol> AG(wf, wd);
    moeoPtrComparator<Sol> PT(FD); std::vector<bool> one; std::string os = "[";
    for (int i = 0; i < nobj; ++i) { moeoOneObjectiveComparator<Sol> O(i); os += std::string(i ? "," : "") + (O(a, b) ? "true" : "false"); } os += "]";
    Obj oa, ob; oa.f("v", u).f("f", f1).f("d", d1); ob.f("v", v).f("f", f2).f("d", d2);
    Ev("sol").f("a", oa).f("b", ob).f("fd", (bool)FD(a, b)).f("df", (bool)DF(a, b)).f("fo", (bool)F(a, b)).f("ag", (bool)AG(a, b)).f("wf", wf).f("wd", wd).f("moeo", (bool)(a < b)).f("ptr", (bool)PT(&a, &b)).f("one", Raw{os}); });
}
static void grid(int nobj, int maxv, std::vector<IV>& out) {
  IV c(nobj, 0); while (true) { out.push_back(c); int i = 0; while (i < nobj && ++c[i] > maxv) c[i++] = 0; if (i == nobj) break; } }

int main(int argc, char** argv) {
  init(argc, argv); Rng r(shardseed()); int job = 0;
  auto setup = [&](const IV& dirs) { setDirs(dirs); IV m; for (unsigned i = 0; i < dirs.size(); ++i) { bool mi = OV::minimizing(i), ma = OV::maximizing(i); m.push_back(mi && !ma ? 1 : !mi && ma ? 0 : 9); }
    Ev("setup").f("dirs", dirs).f("n", (int)OV::nObjectives()).f("min", m); };
  for (int nobj = 1; nobj <= 3; ++nobj) for (int m = 0; m < (1 << nobj); ++m) {
    if (job++ % args().nshards != args().shard) continue;
    IV dirs; for (int i = 0; i < nobj; ++i) dirs.push_back((m >> i) & 1);
    SC = 1; OFF = 0; setup(dirs);
    std::vector<IV> g; grid(nobj, nobj == 3 ? 2 : 3, g);
    for (auto& u : g) for (auto& v : g) { pair(r, u, v); if (r.coin(1, 4)) epspair(r, u, v); }
  }
  double scs[] = {1, 1e-3, 1e6, 1e-7, 0.1};
  for (int ep = 0; ep < 12 * args().scale; ++ep) {
    int nobj = r.in(1, 6); IV dirs; for (int i = 0; i < nobj; ++i) dirs.push_back(r.below(2));
    SC = scs[r.below(5)]; OFF = 0; setup(dirs);
    for (int k = 0; k < 40; ++k) {
      IV u, v; int rg = r.in(1, 50); for (int i = 0; i < nobj; ++i) { u.push_back(r.in(-rg, rg)); v.push_back(r.coin(1, 3) ? u[i] : r.coin() ? u[i] + r.in(-1, 1) : r.in(-rg, rg)); }
      pair(r, u, v); epspair(r, u, v); solpair(r, nobj); }
  }
  return done();
}
