// Kinds of fitness: comparisons, populations ordered by them, arithmetic and statistics.
#include <eo>
#include <ga/eoBit.h>
#include <eoDualFitness.h>
#include <eoScalarFitnessAssembled.h>
#include <utils/eoFeasibleRatioStat.h>
#include <utils/eoAssembledFitnessStat.h>
#include "vt.hpp"
using namespace vt;
typedef eoScalarFitnessAssembledTraits AT;
template <class F> struct K;
template <> struct K<double> { static constexpr int dir = 1; static const char* name() { return "double"; } static double mk(int v, int) { return v; } static IV out(double f, int) { return {(long)f, 1}; } };
template <class T, class C> struct K<eoScalarFitness<T, C> > { typedef eoScalarFitness<T, C> F; static constexpr int dir = C()(1, 2) ? 1 : -1; static const char* name() { return dir > 0 ? "max" : "min"; } static F mk(int v, int) { return F(T(v)); } static IV out(const F& f, int) { return {(long)(T)f, 1}; } };
template <class C> struct K<eoDualFitness<double, C> > { typedef eoDualFitness<double, C> F; static constexpr int dir = C()(1, 2) ? 1 : -1; static const char* name() { return dir > 0 ? "dualmax" : "dualmin"; } static F mk(int v, int f) { return F(v, f != 0); } static IV out(const F& f, int) { return {(long)f.value(), f.is_feasible()}; } };
template <class C> struct K<eoScalarFitnessAssembled<double, C, AT> > { typedef eoScalarFitnessAssembled<double, C, AT> F; static constexpr int dir = C()(1, 2) ? 1 : -1; static const char* name() { return dir > 0 ? "asmmax" : "asmmin"; } static F mk(int v, int f) { F x(3, 0.0); x[0] = v; x[1] = -v; x[2] = f; x.feasible = f; return x; } static IV out(const F& f, int) { return {(long)f[0], 1}; } };
template <class F> void pairs(Rng& r, int a, int fa, int b, int fb) { typedef K<F> k; F x = k::mk(a, fa), y = k::mk(b, fb); mark(std::string("compare ") + k::name()); Ev("cmp").f("kind", std::string("cmp-") + k::name()).f("dir", k::dir).f("a", k::out(x, 0)).f("b", k::out(y, 0)).f("lt", x < y).f("gt", x > y).f("le", x <= y).f("ge", x >= y);
  eoBit<F> e(1, false), g(1, false); e.fitness(x); g.fitness(y); Ev("eo").f("kind", std::string("eo-") + k::name()).f("dir", k::dir).f("a", k::out(x, 0)).f("b", k::out(y, 0)).f("lt", e < g).f("gt", e > g); (void)r; }
template <class F> struct Tagged : eoBit<F> { int id; Tagged() : id(0) {} };
template <class F> IV tag(const Tagged<F>& e) { IV v = K<F>::out(e.fitness(), 0); v.push_back(e.id); return v; }
template <class F> IVV tags(const eoPop<Tagged<F> >& p) { IVV v; for (auto& e : p) v.push_back(tag(e)); return v; }
template <class F> eoPop<Tagged<F> > pop(Rng& r, int n) { eoPop<Tagged<F> > p; int R = r.in(1, 5); for (int i = 0; i < n; ++i) { Tagged<F> e; e.id = i + 1; e.fitness(K<F>::mk(r.in(-R, R), r.coin())); p.push_back(e); } return p; }
template <class F> void pops(Rng& r) { typedef K<F> k; std::string nm = k::name(); auto p = pop<F>(r, r.in(1, 9)); IVV t = tags(p); mark("population " + nm);
  { auto q = p; q.sort(); Ev("sort").f("kind", "sort-" + nm).f("dir", k::dir).f("p", t).f("r", tags(q)); } { std::vector<const Tagged<F>*> q; p.sort(q); IVV o; for (auto x : q) o.push_back(tag(*x)); Ev("sort").f("kind", "sortp-" + nm).f("dir", k::dir).f("p", t).f("r", o); }
  Ev("best").f("kind", "best-" + nm).f("dir", k::dir).f("p", t).f("x", tag(p.best_element())); Ev("best").f("dir", k::dir).f("p", t).f("x", tag(*p.it_best_element())); Ev("worst").f("kind", "worst-" + nm).f("dir", k::dir).f("p", t).f("x", tag(p.worse_element())); Ev("worst").f("dir", k::dir).f("p", t).f("x", tag(*p.it_worse_element()));
  int n = r.below(p.size()); { IV x = k::out(p.nth_element_fitness(n), 0); x.push_back(0); Ev("nth").f("kind", "nthf-" + nm).f("dir", k::dir).f("p", t).f("n", n).f("x", x); } { std::vector<const Tagged<F>*> q; p.nth_element(n, q); Ev("nth").f("kind", "nthp-" + nm).f("dir", k::dir).f("p", t).f("n", n).f("x", tag(*q[n])); } { auto q = p; auto it = q.nth_element(n); Ev("nth").f("kind", "nth-" + nm).f("dir", k::dir).f("p", t).f("n", n).f("x", tag(*it)); }
  { eoPop<Tagged<F> > none; bool threw = false; try { none.best_element(); } catch (std::exception&) { threw = true; } Ev("refuse").f("kind", "emptybest").f("threw", threw); eoBit<F> e; bool t2 = false; try { (void)e.fitness(); } catch (std::exception&) { t2 = true; } Ev("refuse").f("kind", "nofitness").f("threw", t2); }
  { std::ostringstream o; p.sortedPrintOn(o); std::istringstream is(o.str()); eoPop<eoBit<F> > q; q.readFrom(is); IVV v, w = t; for (auto& e : q) { IV x = k::out(e.fitness(), 0); x.push_back(0); v.push_back(x); } for (auto& x : w) x[2] = 0; Ev("sort").f("kind", "sortedprint").f("dir", k::dir).f("p", w).f("r", v); } }
template <class F> void dual(Rng& r) { typedef K<F> k; { auto p = pop<F>(r, r.in(0, 8)); eoDualPopSplit<Tagged<F> > s; s(p); if (r.coin()) s(p); Ev("split").f("kind", std::string("split-") + k::name()).f("p", tags(p)).f("yes", tags(s.feasible())).f("no", tags(s.unfeasible())).f("all", tags(s.merge())); }
  { auto p = pop<F>(r, r.in(0, 6)); struct Ids : eoStat<Tagged<F>, long> { Ids() : eoStat<Tagged<F>, long>(0, "ids") {} void operator()(const eoPop<Tagged<F> >& q) { long s = 0; for (auto& x : q) s = s * 10 + x.id; this->value() = s; } }; Ids fe, un; std::string sep = r.coin() ? "/" : " "; eoDualStatSwitch<Ids> sw(fe, un, sep); if (r.coin()) { auto p0 = pop<F>(r, r.in(0, 6)); sw(p0); } sw(p); std::string v = sw.value(); size_t c = v.find(sep); auto part = [](const std::string& s) { IV o; if (s != "?") for (char ch : s) o.push_back(ch - 48); return o; }; Ev("switch").f("kind", "switch").f("p", tags(p)).f("fe", c == std::string::npos ? IV{-1} : part(v.substr(0, c))).f("un", c == std::string::npos ? IV{-1} : part(v.substr(c + 1))); }
  { auto p = pop<F>(r, 1 << r.below(4)); eoFeasibleRatioStat<Tagged<F> > st; st(p); Ev("ratio").f("p", tags(p)).f("one", 1024).f("r", exactint(st.value() * 1024)); }
  int b = r.in(1, 4) * (r.coin() ? 1 : -1), a = b * r.in(-4, 4), fa = r.below(2), fb = r.below(2); static const char* H[] = {"add", "sub", "div"}; for (int h = 0; h < 3; ++h) for (int in = 0; in < 2; ++in) for (int num = 0; num < 2; ++num) { F x = k::mk(a, fa), y = k::mk(b, fb), z = x; double d = b; if (in) { if (num) { if (h == 0) z = (x += d); else if (h == 1) z = (x -= d); else z = (x /= d); } else { if (h == 0) z = (x += y); else if (h == 1) z = (x -= y); else z = (x /= y); } } else { if (num) z = h == 0 ? x + d : h == 1 ? x - d : x / d; else z = h == 0 ? x + y : h == 1 ? x - y : x / y; }
    IV bb = num ? IV{b, 1} : k::out(k::mk(b, fb), 0); Ev("arith").f("kind", std::string(num ? "num-" : "fit-") + H[h]).f("how", H[h]).f("inplace", in != 0).f("a", k::out(k::mk(a, fa), 0)).f("b", bb).f("r", k::out(z, 0)).f("after", k::out(x, 0)).f("bafter", num ? bb : k::out(y, 0)); }
  { F x = k::mk(a, fa); double v = x; Ev("conv").f("kind", "dual").f("v", a).f("got", exactint(v)); F c(x); F as; as = x; std::pair<double, bool> pr(a, fa); F fp(pr); Ev("conv").f("v", k::out(x, 0)).f("got", k::out(c, 0)); Ev("conv").f("v", k::out(x, 0)).f("got", k::out(as, 0)); Ev("conv").f("v", k::out(x, 0)).f("got", k::out(fp, 0)); Ev("conv").f("kind", "eq").f("v", x == fp ? 1 : 0).f("got", 1); F o = k::mk(a + 1, fa), o2 = k::mk(a, !fa); Ev("conv").f("v", (x == o) || (x == o2) ? 1 : 0).f("got", 0); } }
template <class F> void assembled(Rng& r) { typedef K<F> k; int n = r.in(1, 6); F f; f.clear(); IV want; for (int i = 0; i < n; ++i) { int v = r.in(-9, 9); want.push_back(v); std::string d = "term" + std::to_string(r.below(9)); if (r.coin()) { f.push_back(v); } else { f.push_back(v, d); Ev("term").f("desc", d).f("got", f.getDescription(i)); } }
  IV got; for (double x : f) got.push_back(exactint(x)); Ev("conv").f("kind", "terms").f("v", want).f("got", got); double head = f; Ev("conv").f("kind", "head").f("v", want[0]).f("got", exactint(head)); F e0; e0.clear(); Ev("conv").f("kind", "nohead").f("v", 0).f("got", exactint((double)e0)); F g(f); F h; h = f; Ev("conv").f("v", want).f("got", IV(g.begin(), g.end())); Ev("conv").f("v", want).f("got", IV(h.begin(), h.end())); h = 7.0; want[0] = 7; Ev("conv").f("kind", "assign").f("v", want).f("got", IV(h.begin(), h.end()));
  { auto p = pop<F>(r, r.in(1, 8)); IV fl, t0; int ok = 0; for (auto& e : p) { F x = e.fitness(); x.failed = r.coin(1, 3); e.fitness(x); fl.push_back(x.failed); ok += !x.failed; } if (ok == 1 || ok == 2 || ok == 4 || ok == 8) { unsigned w = r.below(3); for (auto& e : p) t0.push_back((long)e.fitness()[w]); eoAssembledFitnessAverageStat<Tagged<F> > st(w); st(p); Ev("avg").f("t", t0).f("failed", fl).f("one", 1024).f("r", exactint(st.value() * 1024)); }
    eoAssembledFitnessBestStat<Tagged<F> > bs(0); bs(p); IVV tp = tags(p); IV x = {(long)bs.value(), 1, 0}; for (auto& y : tp) y[2] = 0; Ev("best").f("kind", "asmbest").f("dir", k::dir).f("p", tp).f("x", x); bool threw = false; try { eoAssembledFitnessBestStat<Tagged<F> > bad(3); bad(p); } catch (std::exception&) { threw = true; } Ev("refuse").f("kind", "badterm").f("threw", threw); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; typedef eoScalarFitness<int, std::greater<int> > MinI;
  if (args().shard == 0) for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int f = 0; f < 4; ++f) { pairs<double>(r, a, f & 1, b, f >> 1); pairs<eoMaximizingFitness>(r, a, f & 1, b, f >> 1); pairs<eoMinimizingFitness>(r, a, f & 1, b, f >> 1); pairs<MinI>(r, a, f & 1, b, f >> 1); pairs<eoMaximizingDualFitness>(r, a, f & 1, b, f >> 1); pairs<eoMinimizingDualFitness>(r, a, f & 1, b, f >> 1); pairs<eoAssembledMaximizingFitness>(r, a, f & 1, b, f >> 1); pairs<eoAssembledMinimizingFitness>(r, a, f & 1, b, f >> 1); }
  for (int ep = 0; ep < 30 * args().scale; ++ep) guarded("episode", [&] { pops<double>(r); pops<eoMaximizingFitness>(r); pops<eoMinimizingFitness>(r); pops<MinI>(r); pops<eoMaximizingDualFitness>(r); pops<eoMinimizingDualFitness>(r); dual<eoMaximizingDualFitness>(r); dual<eoMinimizingDualFitness>(r); AT::resize(3, "t"); pops<eoAssembledMaximizingFitness>(r); pops<eoAssembledMinimizingFitness>(r); AT::resize(r.below(4), "t"); assembled<eoAssembledMaximizingFitness>(r); assembled<eoAssembledMinimizingFitness>(r); });
  return done(); }
