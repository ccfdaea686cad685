// Selection of one, of many, by worth; pressure and exhaustion.
#include "eo_pop.hpp"
#include "eo_extreme.hpp"
#include <eoRankingSelect.h>
#include <eoRankingCached.h>
#include <eoRankMuSelect.h>
#include <eoSharingSelect.h>
#include <eoFitnessScalingSelect.h>
#include <eoTruncatedSelectMany.h>
#include <eoTruncatedSelectOne.h>
#include <eoTruncSelect.h>
#include <eoRandomSelect.h>
#include <eoSelectPerc.h>
#include <eoSelectNumber.h>
#include <eoStochasticUniversalSelect.h>
#include <utils/eoDistance.h>
template <class F> struct Sl { typedef Ind<F> X; typedef eoPop<X> P; Rng& r; Sl(Rng& r) : r(r) {}
  P p; IVV p0; P pop(int lo, int hi) { return mkpop<F>(r, r.in(lo, hi), 1); }
  P pospop(int lo, int hi, int v) { P q; int n = r.in(lo, hi); int k = r.below(3); for (int i = 0; i < n; ++i) q.push_back(ind<F>(i + 1, k == 0 ? 2 : k == 1 ? r.in(1, v) : r.coin(1, 3) ? 0 : r.in(1, v))); bool z = true; for (auto& x : q) if ((double)x.fitness() != 0) z = false; if (z) q[r.below(n)].fitness(F(3)); return q; }
  void use(const P& q) { p = q; p0 = recs(p); }
  // position of a selected individual in the population, -1 if it is not an element of it
  long at(const X& x) { return (&x >= &p[0] && &x <= &p.back()) ? &x - &p[0] + 1 : -1; }
#define SEV(o, k) Ev(o).f("kind", k).f("dir", Dir<F>::v).f("pop", p0).f("same", recs(p) == p0)
  void pass(const char* kind, eoSelectOne<X>& s, bool setup, int k) { const P& c = p; mark(kind); if (setup) s.setup(c); IV o; for (int i = 0; i < k; ++i) o.push_back(at(s(c))); SEV("pass", kind).f("setup", setup).f("out", o); }
  void one(const char* kind, eoSelectOne<X>& s, IV a = IV()) { const P& c = p; mark(kind); s.setup(c); IV o; for (int i = 0; i < 3; ++i) o.push_back(at(s(c))); SEV("one", kind).f("a", a).f("out", o); }
  void freq(const char* kind, eoSelectOne<X>& s, int a, IV w = IV()) { const P& c = p; mark(kind); int K = 20000; s.setup(c); IV n(p.size(), 0); long bad = 0; for (int i = 0; i < K; ++i) { long z = at(s(c)); if (z > 0) n[z - 1]++; else bad++; } SEV("freq", kind).f("a", a).f("K", K).f("c", n).f("bad", bad).f("w", w); }
  void many(const char* kind, eoSelect<X>& s, int target, IV a = IV()) { P d = r.coin() ? P() : pop(1, 4); mark(kind); const P& c = p; s(c, d); SEV("many", kind).f("target", target).f("a", a).f("res", recs(d)); }
  static IV fxs(const std::vector<double>& w, double k) { IV o; for (double x : w) o.push_back(fx(x, k)); return o; }
  typename Sl::P& operator()() { return p; }
  void passes() { // the same selectors over several populations
    eoSequentialSelect<X> so(true), su(false), sd; eoEliteSequentialSelect<X> es; eoNoSelect<X> no; bool first = true;
    for (int t = 0; t < 3; ++t) { use(pop(2, 7)); int n = p.size(), k = r.in(1, 3 * n); pass("seq", so, true, k); pass("shuf", su, true, k); pass("seq", sd, true, n); pass("elite", es, true, k); if (first) { eoNoSelect<X> nn; pass("round", nn, false, k); eoSequentialSelect<X> f1(true), f2(false); eoEliteSequentialSelect<X> f3; pass("seq", f1, false, k); pass("shuf", f2, false, k); pass("elite", f3, false, k); } }
    eoStochTournamentSelect<X> s1; one("member", s1); eoDetTournamentSelect<X> d1(r.in(0, 30)); one("member", d1); eoRandomSelect<X> rs; one("member", rs); eoBestSelect<X> bs; one("best", bs); eoEliteSelect<X> el; one("best", el);
    if (!Dir<F>::v) posonly(); else { bool t = false; try { eoProportionalSelect<X> q; } catch (std::exception&) { t = true; } Ev("refuse").f("threw", t); t = false; try { eoStochasticUniversalSelect<X> q; } catch (std::exception&) { t = true; } Ev("refuse").f("threw", t); } }
  void posonly() { eoStochasticUniversalSelect<X> su; eoProportionalSelect<X> ps; for (int t = 0; t < 3; ++t) { use(pospop(1, 7, 5)); int n = p.size(); pass("sus", su, true, n * r.in(1, 2)); one("positive", ps); } }
  void freqs() { use(pop(2, 6)); int t = r.in(1, 4); { eoDetTournamentSelect<X> s(t); freq("det", s, std::max(2, t)); } int q = r.in(4, 8); { eoStochTournamentSelect<X> s(q / 8.0); freq("stoch", s, q); } { eoRandomSelect<X> s; freq("uniform", s, 0); }
    { eoStochTournamentSelect<X> s(1.5); freq("stoch", s, 8); } worths(); if (!Dir<F>::v) { use(pospop(2, 6, 5)); eoProportionalSelect<X> s; freq("prop", s, 0); eoProportionalSelect<X> s2(p); freq("prop", s2, 0); eoStochasticUniversalSelect<X> u; freq("prop", u, 0); } }
  void worths() { use(pop(2, 6)); int n = p.size(); int p8 = r.in(9, 16), e = r.in(1, 2); const P& c = p;
    { eoRanking<X> k(p8 / 8.0, e); mark("ranking"); k(c); SEV("worth", "rank").f("a", IV{p8, e}).f("w", fxs(k.value(), 1e6)); eoRankingCached<X> kc(p8 / 8.0, e); P big = pop(2, 6); kc(big); kc(c); SEV("worth", "rank").f("a", IV{p8, e}).f("w", fxs(kc.value(), 1e6)); kc(c); SEV("worth", "rank").f("a", IV{p8, e}).f("w", fxs(kc.value(), 1e6)); eoRankingSelect<X> s(p8 / 8.0, e); freq("worth", s, 0, fxs(k.value(), 1e4)); eoRouletteWorthSelect<X> s2(kc); freq("worth", s2, 0, fxs(k.value(), 1e4));
      P srt = p; std::vector<double> w0 = k.value(); k.sort_pop(srt); SEV("wsort", "wsort").f("res", recs(srt)).f("w", fxs(w0, 1e6)).f("w2", fxs(k.value(), 1e6)); int m = r.in(0, n); k.resize(srt, m); Ev("wresize").f("m", m).f("n", (long)srt.size()).f("w", (long)k.value().size()); }
    { eoLinearFitScaling<X> k(p8 / 8.0); mark("scaling"); k(c); SEV("worth", "scale").f("a", IV{p8}).f("w", fxs(k.value(), 1e6)); eoFitnessScalingSelect<X> s(p8 / 8.0); freq("worth", s, 0, fxs(k.value(), 1e4)); one("member", s); }
    { use(pospop(2, 6, 5)); int sg = r.in(1, 6); eoL1Distance<X> d; eoSharing<X> k(sg, d); mark("sharing"); k(p); SEV("worth", "share").f("a", IV{sg}).f("w", fxs(k.value(), 1e6)); eoSharingSelect<X> s(sg, d); freq("worth", s, 0, fxs(k.value(), 1e4)); } }
  void manies() { eoSequentialSelect<X> so(true); eoRandomSelect<X> rs; eoDetTournamentSelect<X> dt(2); eoBestSelect<X> bs; for (int t = 0; t < 3; ++t) { use(pop(1, 8)); int n = p.size(); int w = r.below(3); eoSelectOne<X>& s = w == 0 ? (eoSelectOne<X>&)so : w == 1 ? (eoSelectOne<X>&)rs : dt; IV a{w};
      int k8 = r.in(0, 16); auto up = [&](int k8) { return (k8 * n + 7) / 8; }; { eoSelectMany<X> m(s, k8 / 8.0); many("many", m, up(k8), a); } int c = r.in(1, 9); { eoSelectMany<X> m(s, c, false); many("many", m, c, a); } { eoSelectMany<X> m(s, eoHowMany(c)); many("many", m, c, a); } { eoSelectNumber<X> m(s, c); many("many", m, c, a); } { eoSelectPerc<X> m(s, k8 / 8.0f); many("many", m, (k8 * n) / 8, a); } { eoTruncSelect<X> m(s, eoHowMany(k8 / 8.0)); many("many", m, up(k8), a); } { eoSelectNumber<X> m(bs); many("many", m, 1, IV{3}); }
      { int g8 = r.in(0, 16), f8 = r.in(1, 8); eoTruncatedSelectMany<X> m(s, g8 / 8.0, f8 / 8.0); many("trunc", m, up(g8), IV{up(f8), w}); int f = r.in(1, n); eoTruncatedSelectMany<X> m2(s, eoHowMany(c), eoHowMany(f)); many("trunc", m2, c, IV{f, w}); eoTruncatedSelectOne<X> o(s, f8 / 8.0), o2(s, f, false), o3(s, eoHowMany(f)); eoSelectNumber<X> q(o, c), q2(o2, c), q3(o3, c); if (up(f8) <= n) many("trunc", q, c, IV{up(f8), w}); many("trunc", q2, c, IV{f, w}); many("trunc", q3, c, IV{f, w}); use(pop(n, n + 2)); many("trunc", q3, c, IV{f, w}); n = p.size(); }
      { eoDetSelect<X> d(k8 / 8.0); many("fill", d, std::max(1, up(k8))); eoDetSelect<X> d2(c, false); many("fill", d2, c); eoDetSelect<X> d3; many("fill", d3, n); } { eoRankMuSelect<X> m(c); many("rankmu", m, c); } } }
  void free() { use(pospop(1, 6, 5)); const P& c = p; double tot = sum_fitness(c); Ev("sumfit").f("pop", p0).f("v", exactint(tot)).f("v2", exactint(sum_fitness(c.begin(), c.end()))); P neg = p; neg[r.below(neg.size())].fitness(F(-1)); bool t = false; try { sum_fitness(neg); } catch (std::exception&) { t = true; } Ev("refuse").f("threw", t);
    { use(pop(1, 6)); std::pair<double, double> mm; double s = sum_fitness(p, mm); Ev("sumscaled").f("dir", Dir<F>::v).f("pop", p0).f("lo", exactint(mm.first)).f("hi", exactint(mm.second)).f("v", fx(s)); Ev("minim").f("dir", Dir<F>::v).f("v", minimizing_fitness<X>()); }
    struct Fn : public eoSelectOne<X> { std::function<const X&(const P&)> f; const X& operator()(const P& q) { return f(q); } } fn; use(pospop(2, 6, 5)); double tt = sum_fitness(c); IV w; for (auto& x : p) w.push_back((long)(double)x.fitness());
    fn.f = [&](const P& q) -> const X& { return roulette_wheel(q, tt); }; freq("worth", fn, 0, w); fn.f = [&](const P&) -> const X& { return roulette_wheel(p, tt); }; freq("worth", fn, 0, w); std::vector<double> wd(w.begin(), w.end()); fn.f = [&](const P& q) -> const X& { return q[roulette_wheel(wd.begin(), wd.end(), tt) - wd.begin()]; }; freq("worth", fn, 0, w);
    fn.f = [&](const P&) -> const X& { return deterministic_tournament(p, 3); }; freq("det", fn, 3); fn.f = [&](const P&) -> const X& { return stochastic_tournament(p, 0.75); }; freq("stoch", fn, 6);
    int n = p.size(); fn.f = [&](const P&) -> const X& { return inverse_stochastic_tournament(p, 0.75); }; freq("invstoch", fn, 6); fn.f = [&](const P&) -> const X& { return inverse_deterministic_tournament(p, 2); }; freq("invdet", fn, n); }
  // draws at the ends of the generator's range
  void extreme() { for (int z = 0; z < 3; ++z) { use(pospop(1, 6, 5)); const P& c = p; int n = p.size(); auto go = [&](const char* what, eoSelectOne<X>& s) { s.setup(c); uint32_t v = z == 0 ? 0u : z == 1 ? 0xffffffffu : 0xffffff80u; if (!nextdraws(eo::rng, std::vector<uint32_t>(20, v), 7)) return; mark(std::string("extreme draw: ") + what); long a = at(s(c)); SEV("ext", what).f("z", z).f("out", IV{a}); };
      eoRandomSelect<X> rs; go("random", rs); eoDetTournamentSelect<X> dt(3); go("det", dt); eoStochTournamentSelect<X> st(0.75); go("stoch", st); if (!Dir<F>::v) { eoProportionalSelect<X> ps; go("prop", ps); } if (n > 1) { eoRankingSelect<X> rk; go("rank", rk); eoL1Distance<X> d; eoSharingSelect<X> sh(2, d); go("share", sh); } eoFitnessScalingSelect<X> fs; go("scale", fs); double tt = sum_fitness(c); struct Fn : public eoSelectOne<X> { std::function<const X&(const P&)> f; const X& operator()(const P& q) { return f(q); } } fn; fn.f = [&](const P&) -> const X& { return roulette_wheel(p, tt); }; go("wheel", fn); fn.f = [&](const P& q) -> const X& { return roulette_wheel(q, tt); }; go("cwheel", fn); }
    eo::rng.reseed(r.next() % 100000); }
};
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  { bool t = false; try { eoProportionalSelect<eoVector<eoMinimizingFitnessT<float>, int> > q; } catch (std::exception&) { t = true; } Ev("refuse").f("threw", t); }
  for (long ep = 0; ep < 40 * args().scale; ++ep) { eo::rng.reseed(r.next() % 100000 + 1); if (ep % 2) { Sl<double> s(r); s.passes(); s.manies(); s.extreme(); if (ep % 10 == 1) { s.freqs(); s.free(); } } else { Sl<eoMinimizingFitness> s(r); s.passes(); s.manies(); s.extreme(); if (ep % 10 == 0) { s.freqs(); s.free(); } } }
  return done(); }
