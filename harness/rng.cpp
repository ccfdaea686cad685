// Random generators: reproducibility from seed and saved state, ranges and frequencies.
#include <eo>
#include <utils/rnd_generators.h>
#include <utils/eoRndGenerators.h>
#include <utils/eoUniformInit.h>
#include <utils/eoIntBounds.h>
#include <memory>
#include <map>
#include "vt.hpp"
#include "eo_extreme.hpp"
using namespace vt;
static std::map<uint64_t, long> ids;
static long id(double x) { uint64_t b; std::memcpy(&b, &x, 8); auto it = ids.find(b); if (it == ids.end()) it = ids.insert({b, (long)ids.size() + 1}).first; return it->second; }
struct Lab { Rng& r; std::vector<std::unique_ptr<eoRng> > own; std::map<int, std::string> text; Lab(Rng& r) : r(r) {}
  eoRng& gen(int g) { return g == 0 ? eo::rng : *own[g - 1]; }
  static std::string s(double x) { char b[40]; snprintf(b, 40, "%g", x); return b; }
  void rec(int g, const std::string& k, const std::string& a, double v, double lo = 0, double hi = 0, double u = 1) { bool b = hi > lo; Ev("draw").f("kind", k).f("g", g).f("k", k + " " + a).f("v", id(v)).f("q", b ? (long)std::floor(v * u) : 0L).f("lo", b ? (long)std::llround(lo * u) : 0L).f("hi", b ? (long)std::llround(hi * u) : 1L); }
  void draw(int g, int what) { eoRng& e = gen(g); const double U = 1024; mark("draw " + std::to_string(what)); static const double P[] = {0, 0.25, 0.5, 1}; double p = P[what % 4]; int m = 1 + what % 7; double lo = (what % 5) - 2, hi = lo + 1 + what % 3; double sd = 0.5 * (1 + what % 3);
    switch (what % 26) {
      case 0: rec(g, "rand", "", e.rand(), 0, 0); break;
      case 1: rec(g, "uniform", "", e.uniform(), 0, 1, 1048576); break; case 2: rec(g, "uniformm", s(hi + 3), e.uniform(hi + 3), 0, hi + 3, U); break; case 3: rec(g, "uniformlh", s(lo) + s(hi), e.uniform(lo, hi), lo, hi, U); break;
      case 4: rec(g, "random", s(m), e.random(m), 0, m); break; case 5: { uint32_t M = 0x6fffff00u - what % 100; rec(g, "randombig", s(M), e.random(M), 0, M); break; } case 6: rec(g, "flip", s(p), e.flip(p), p == 1 ? 1 : 0, p == 0 ? 1 : 2); break;
      case 7: rec(g, "binomial", s(m) + "," + s(p), e.binomial(m, p), p == 1 ? m : 0, p == 0 ? 1 : m + 1); break; case 8: case 9: case 10: rec(g, "normal", "", e.normal()); break; case 11: rec(g, "normals", s(sd), e.normal(sd)); break; case 12: rec(g, "normalms", s(sd), e.normal(3.0, sd)); break; case 13: { double x = e.negexp(sd); rec(g, "negexp", s(sd), x, 0, x < 1000 ? 1000 : x + 1); break; }
      case 14: { double ga = 1.5 + what % 3; double x = e.powerlaw(1, 1 + m, ga); rec(g, "powerlaw", s(m) + s(ga), x == x ? x : -1, 1, 1 + m + 0.01, U); break; }
      case 15: { IV w; std::vector<double> dw; std::vector<int> iw; int pos = what % m; for (int i = 0; i < m; ++i) { int x = i == pos ? 1 + what % 4 : (what >> i) % 3; w.push_back(x); dw.push_back(x); iw.push_back(x); } int tot = 0; for (int x : iw) tot += x; int how = (what / 7) % 3; int i = how == 0 ? e.roulette_wheel(dw) : how == 1 ? e.roulette_wheel(iw) : e.roulette_wheel(dw, (double)tot); rec(g, "wheel", js(w), i, 0, m); Ev("wheel").f("w", w).f("i", i + 1); break; }
      case 16: { std::vector<int> v; IV p2; for (int i = 0; i < m; ++i) { v.push_back(3 * i + 1); p2.push_back(3 * i + 1); } const std::vector<int>& c = v; int x = what % 2 ? e.choice(v) : e.choice(c); rec(g, "choice", s(m), x); Ev("choice").f("p", p2).f("x", x); break; }
      case 17: { int h = (what / 26) % 4; if (h == 0) { eoUniformGenerator<double> o(lo, hi, e); rec(g, "gen-u", s(lo) + s(hi), o(), lo, hi, U); } else if (h == 1) { eoUniformGenerator<double> o(hi + 3, e); rec(g, "gen-um", s(hi), o(), 0, hi + 3, U); } else if (h == 2) { eoUniformGenerator<int> o((int)lo, (int)lo + m, e); rec(g, "gen-ui", s(lo) + s(m), o(), lo, lo + m); } else { eoUniformGenerator<bool> o(true, e); rec(g, "gen-ub", "", o(), 0, 2); } break; }
      case 18: { int h = (what / 26) % 4; if (h == 0) { eoBooleanGenerator<bool> o(p, e); rec(g, "gen-b", s(p), o(), p == 1 ? 1 : 0, p == 0 ? 1 : 2); } else if (h == 1) { eoNormalGenerator<double> o(sd, e); rec(g, "gen-n", s(sd), o()); } else if (h == 2) { eoNegExpGenerator<double> o(sd, e); rec(g, "gen-e", s(sd), o()); } else { boolean_generator o(p, e); rec(g, "bgen", s(p), o(), p == 1 ? 1 : 0, p == 0 ? 1 : 2); } break; }
      case 19: { int h = (what / 26) % 6; if (h == 0) { uniform_generator<double> o(lo, hi, e); rec(g, "ugen", s(lo) + s(hi), o(), lo, hi, U); } else if (h == 1) { random_generator<int> o((int)lo, (int)lo + m, e); rec(g, "rgen", s(lo) + s(m), o(), lo, lo + m); } else if (h == 2) { random_generator<unsigned> o(m, e); rec(g, "rgenm", s(m), o(), 0, m); } else if (h == 3) { UF_random_generator<unsigned> o(m, e); rec(g, "ufgen", s(m), what % 2 ? o() : o(m), 0, m); } else if (h == 4) { normal_generator<double> o(sd, e); rec(g, "ngen", s(sd), o()); } else { negexp_generator<double> o(sd, e); rec(g, "egen", s(sd), o()); } break; }
      case 20: { int h = (what / 26) % 5; if (h == 0) { eoUniformInit<double> o(lo, hi, e); double x; o(x); rec(g, "init-u", s(lo) + s(hi), x, lo, hi, U); } else if (h == 1) { eoRealInterval b(lo, hi); eoUniformInit<double> o(b, e); double x; o(x); rec(g, "init-ub", s(lo) + s(hi), x, lo, hi, U); } else if (h == 2) { eoBooleanInit o(p, e); bool x; o(x); rec(g, "init-b", s(p), x, p == 1 ? 1 : 0, p == 0 ? 1 : 2); } else if (h == 3) { eoNormalInit<double> o(sd, e); double x; o(x); rec(g, "init-n", s(sd), x); } else { eoNegExpInit<double> o(sd, e); double x; o(x); rec(g, "init-e", s(sd), x); } break; }
      case 21: { int h = (what / 26) % 5; eoRealInterval b(lo, hi); if (h == 0) rec(g, "interval", s(lo) + s(hi), b.uniform(e), lo, hi, U); else if (h == 1) { eoGeneralRealBounds gb("[" + s(lo) + "," + s(hi) + "]"); rec(g, "general", s(lo) + s(hi), gb.uniform(e), lo, hi, U); } else if (h == 2) { eoRealVectorBounds vb(3, lo, hi); rec(g, "vector", s(lo) + s(hi), vb.uniform(what % 3, e), lo, hi, U); } else if (h == 3) { eoIntInterval ib((long)lo, (long)hi); rec(g, "intinterval", s(lo) + s(hi), ib.uniform(e), lo, hi, U); } else { eoGeneralIntBounds ib("[" + s(lo) + "," + s(hi) + "]"); rec(g, "intgeneral", s(lo) + s(hi), ib.uniform(e), lo, hi, U); } break; }
      case 22: if (g) draw(g, what + 1); else { int h = (what / 26) % 3; if (h == 0) { double x = eo::random(lo, hi); rec(0, "eorandom", s(lo) + s(hi), x, lo < 0 ? lo : lo, hi, U); } else if (h == 1) rec(0, "eorandomi", s(m), eo::random(m), 0, m); else rec(0, "eonormal", "", eo::normal()); } break;
      case 23: if (g) draw(g, what + 1); else { typedef eoVector<double, int> X; eoPop<X> p0; IV v, w; for (int i = 0; i < m; ++i) { X x(1, i); x.fitness(i); p0.push_back(x); v.push_back(i); } p0.shuffle(); double h = 0; for (auto& x : p0) { w.push_back(x[0]); h = h * 8 + x[0]; } rec(0, "popshuffle", s(m), h); Ev("shuffle").f("kind", "shuffled").f("p", v).f("r", w); } break;
      case 24: { int n = (what / 26) % 7 * 100 + 11; double h = 0; for (int i = 0; i < n; ++i) h = e.rand(); rec(g, "skip", s(n), h); break; }
      default: rec(g, "rand", "", e.rand()); } }
  void seed(int g, int sd) { if (g == 0) { eo::rng.reseed(sd); eo::rng.clearCache(); } else { if ((int)own.size() < g) own.resize(g); if (!own[g - 1] || r.coin()) own[g - 1].reset(new eoRng(sd)); else { own[g - 1]->reseed(sd); own[g - 1]->clearCache(); } } Ev("seed").f("g", g).f("seed", sd); }
  void save(int g, int f) { std::ostringstream o; if (r.coin(1, 4)) o.precision(r.in(1, 20)); mark("save"); if (r.coin()) gen(g).printOn(o); else o << gen(g); o << " 4711"; text[f] = o.str(); Ev("save").f("g", g).f("file", f); }
  void load(int g, int f) { std::istringstream i(text[f]); mark("load"); if (r.coin()) gen(g).readFrom(i); else i >> gen(g); int t = 0; i >> t; Ev("load").f("g", g).f("file", f).f("tail", t == 4711); }
  // the same requests again after every way of returning to an earlier point
  void history() { Ev("forget"); own.clear(); own.resize(3); text.clear(); int s0 = r.in(1, 1000000); for (int g = 0; g < 4; ++g) seed(g, g < 2 ? s0 : r.coin() ? s0 : r.in(1, 1000000)); std::vector<int> plan; int n = r.in(5, 25); for (int i = 0; i < n; ++i) plan.push_back(r.coin(1, 3) ? 8 : r.below(26 * 40));
    auto run = [&](int g, size_t from, size_t to) { for (size_t i = from; i < to && i < plan.size(); ++i) { int w = plan[i]; if (w % 26 == 22 || w % 26 == 23) w = 8; draw(g, w); } };
    int cut = r.in(0, n); for (int g = 0; g < 2; ++g) run(g, 0, cut); save(0, 1); save(1, 2); run(0, cut, n); load(2, 1); run(2, cut, n); run(1, cut, n); load(1, 2); run(1, cut, n); load(3, 2); int mid = r.in(cut, n); run(3, cut, mid); save(3, 3); run(3, mid, n); load(0, 3); run(0, mid, n);
    seed(0, s0); seed(3, s0); run(3, 0, n); run(0, 0, n); std::vector<int> g0; for (int i = 0; i < 6; ++i) g0.push_back(r.below(26 * 40)); seed(0, s0 + 1); for (int w : g0) draw(0, w); save(0, 4); for (int w : g0) draw(0, w); seed(0, s0 + 1); for (int w : g0) draw(0, w); load(0, 4); for (int w : g0) draw(0, w);
    // interleaved use of two generators with the same past
    seed(1, s0 + 2); seed(2, s0 + 2); seed(0, s0 + 2); for (int i = 0; i < 10; ++i) { int w = plan[r.below(n)]; if (w % 26 == 22 || w % 26 == 23) w = 9; draw(1, w); draw(0, w); draw(2, w); } }
  // the largest and smallest raw draws
  void extremes() { Ev("forget"); own.clear(); own.resize(1); seed(1, r.in(1, 100000)); for (int i = 0; i < 30; ++i) { int w = r.below(26 * 40); if (w % 26 == 13 || w % 26 == 18 || w % 26 == 19 || w % 26 == 20) w = 1 + 26 * r.below(30); std::vector<uint32_t> d; int k = r.in(1, 4); for (int j = 0; j < k; ++j) d.push_back(r.coin() ? 0u : 0xffffffffu); nextdraws(*own[0], d, r.next() % 100000 + 1); Ev("seed").f("g", 1).f("seed", 2000000 + i); draw(1, w); } }
  void rates() { Ev("forget"); eoRng e(r.in(1, 1000000)); const int N = 4000; auto rate = [&](const char* k, long c, int num, int den) { Ev("rate").f("kind", k).f("c", c).f("n", N).f("num", num).f("den", den); };
    { IV c(8, 0), d(8, 0), b(5, 0); std::vector<double> w = {0, 1, 2, 0, 3}; IV wi = {0, 1, 2, 0, 3}; long f = 0, bn = 0, n1 = 0, n2 = 0, ng = 0; for (int i = 0; i < N; ++i) { ++c[e.random(8)]; ++d[(int)(e.uniform(2, 10) - 2)]; ++b[e.roulette_wheel(w)]; f += e.flip(0.375); bn += e.binomial(5, 0.25); double x = e.normal(); n1 += x > 0; n2 += std::fabs(x) < 0.6744897501960817; ng += e.negexp(2.0) < 1.3862943611198906; } for (int i = 0; i < 8; ++i) { rate("bucket", c[i], 1, 8); rate("ubucket", d[i], 1, 8); } rate("fliprate", f, 3, 8); rate("binrate", bn, 5, 4); rate("normhalf", n1, 1, 2); rate("normquart", n2, 1, 2); rate("expmed", ng, 1, 2); Ev("wheels").f("w", wi).f("c", b).f("n", N); }
    { double m = 0, v = 0; for (int i = 0; i < N; ++i) { double x = e.normal(3.0, 2.0); m += x; v += (x - 3) * (x - 3); } Ev("mean").f("kind", "normmean").f("m", fx(m / N)).f("want", 3000).f("band", (long)(7 * 2000 / std::sqrt(N))); Ev("mean").f("kind", "normvar").f("m", fx(v / N)).f("want", 4000).f("band", (long)(7 * 4000 * std::sqrt(2.0 / N))); }
    { long c = 0; for (int i = 0; i < N; ++i) { eoBooleanGenerator<bool> g(0.25, e); c += g(); } rate("genrate", c, 1, 4); c = 0; eoRealInterval b(0, 8); for (int i = 0; i < N; ++i) c += b.uniform(e) < 3; rate("boundrate", c, 3, 8); IV d(3, 0); random_generator<int> g(5, 8, e); for (int i = 0; i < N; ++i) ++d[g() - 5]; for (int i = 0; i < 3; ++i) rate("rgenrate", d[i], 1, 3); }
    auto bad = [&](const char* k, std::function<void()> f) { bool t = false; try { f(); } catch (std::exception&) { t = true; } Ev("refuse").f("kind", k).f("threw", t); }; bad("ubad", [] { uniform_generator<double> u(2.0, 1.0); }); bad("rbad", [] { random_generator<int> u(2, 1); }); bad("ibad", [] { eoUniformInit<double> u(2.0, 1.0); }); }
};
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; Lab L(r);
  for (long ep = 0; ep < 14 * args().scale; ++ep) { L.history(); L.extremes(); if (ep % 4 == 0) L.rates(); }
  return done(); }
