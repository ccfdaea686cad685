// Covariance matrix adaptation: parameters, learning and sampling.
#include "vt.hpp"
#include <eo>
#include <es.h>
#include <es/CMAParams.h>
#include <es/CMAState.h>
#include <es/eoCMABreed.h>
#include <es/eoCMAInit.h>
#include <edo>
using namespace vt;
typedef eoVector<double, double> V;
typedef eoVector<eoMinimizingFitness, double> VM;
static IV fxs(const std::vector<double>& v, double s) { IV o; for (double x : v) o.push_back(fx(x, s)); return o; }
static IV fxa(const std::valarray<double>& v, double s) { IV o; for (double x : v) o.push_back(fx(x, s)); return o; }
template <class P> static IVV fxp(const P& p, double s) { IVV o; for (auto& x : p) { o.emplace_back(); for (double y : x) o.back().push_back(fx(y, s)); } return o; }
static eo::CMAParams make(int n, int lambda, int mu, int how, const std::string& inits = "", const std::string& mins = "") { std::vector<std::string> a{"cma", "-N", std::to_string(n)}; if (lambda >= 0) { a.push_back("--lambda=" + std::to_string(lambda)); } if (mu >= 0) a.push_back("--mu=" + std::to_string(mu)); a.push_back("--weighting=" + std::to_string(how)); if (inits != "") a.push_back("--init-stdev=" + inits); if (mins != "") a.push_back("--min-stdev=" + mins);
  a[1] = "--dimensionality=" + std::to_string(n); a.erase(a.begin() + 2); std::vector<char*> c; for (auto& s : a) c.push_back(&s[0]); eoParser p(c.size(), c.data()); return eo::CMAParams(p, n); }
static std::string list(const IV& v) { std::string s = std::to_string(v.size()); for (long x : v) s += "," + std::to_string(x); return s; }
static void params(Rng& r) { static const char* K[] = {"log", "equal", "linear"}; int how = r.below(3), n = r.in(1, 6), lam = r.coin(1, 4) ? -1 : r.in(0, 14), mu = r.coin(1, 3) ? -1 : r.in(1, 12); IV in, mi; for (int k = r.in(1, n + 1); k > 0; --k) in.push_back(r.in(1, 5)); for (int k = r.in(1, n + 1); k > 0; --k) mi.push_back(r.in(0, 3)); mark(std::string("parameters ") + K[how]); eo::CMAParams p = make(n, lam, mu, how, list(in), list(mi));
  Ev("params").f("kind", K[how]).f("n", n).f("al", lam).f("am", mu).f("pn", p.n).f("lambda", p.lambda).f("mu", p.mu).f("w", fxa(p.weights, 10000)).f("w3", fxa(p.weights, 1000)).f("mueff", fx(p.mueff, 1000)).f("rates", IV{fx(p.ccumsig, 1e6), fx(p.ccumcov, 1e6), fx(p.ccov, 1e6)}).f("damp", fx(p.damp, 1000)).f("inits", in).f("gi", fxa(p.initialStdevs, 1)).f("mins", mi).f("gm", fxa(p.minStdevs, 1));
  { char raw[sizeof(eo::CMAParams)]; memset(raw, r.coin() ? 0 : 0x41, sizeof raw); eo::CMAParams* q = new (raw) eo::CMAParams; q->defaults(n, 1000); eo::CMAParams d = make(n, -1, -1, 0); Ev("defaults").f("got", IV{(long)q->lambda, (long)q->mu, fx(q->mueff, 1000), fx(q->ccumsig, 1e6), fx(q->ccumcov, 1e6), fx(q->ccov, 1e6), fx(q->damp, 1000)}).f("want", IV{(long)d.lambda, (long)d.mu, fx(d.mueff, 1000), fx(d.ccumsig, 1e6), fx(d.ccumcov, 1e6), fx(d.ccov, 1e6), fx(d.damp, 1000)}); q->~CMAParams(); } }
// a history of parent populations
struct History { std::vector<std::vector<std::vector<double> > > x; std::vector<std::vector<double> > f; };
static double U(Rng& r, double a, double b) { return a + (b - a) * (r.below(100001) / 100000.0); }
template <class X> static eoPop<X> replay(const History& h, eo::CMAState s, int lambda, double mul, const std::vector<double>& add, bool shuffle, int trans, Rng& r, long seed, int copyAt, bool& clean) { eoPop<X> off; std::unique_ptr<eo::CMAState> st(new eo::CMAState(s)); eo::CMAState other(s);
  for (size_t g = 0; g < h.x.size(); ++g) { eoPop<X> p; for (size_t i = 0; i < h.x[g].size(); ++i) { X v; for (size_t j = 0; j < h.x[g][i].size(); ++j) v.push_back(h.x[g][i][j] * mul + add[j]); double f = h.f[g][i]; v.fitness(trans == 1 ? 3 * f + 7 : trans == 2 ? f * f * f : f); p.push_back(v); } if (shuffle) for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
    if (copyAt == (int)g) { std::unique_ptr<eo::CMAState> c; if (r.coin()) c.reset(new eo::CMAState(*st)); else { c.reset(new eo::CMAState(other)); *c = *st; } /* the original goes on elsewhere */ { eoCMABreed<typename X::Fitness> b(*st, 2); eoPop<X> o; b(p, o); } st = std::move(c); }
    auto was = fxp(p, 1e4); eo::rng.reseed(seed + g); eo::rng.clearCache(); eoCMABreed<typename X::Fitness> b(*st, lambda); if (r.coin()) off.resize(r.below(16)); for (auto& o : off) o.fitness(1); b(p, off); clean = clean && fxp(p, 1e4) == was; for (auto& o : off) clean = clean && o.invalid(); if (off.size() != (size_t)lambda) clean = false; }
  return off; }
template <class X> static void twins(Rng& r, const char* kind) { int n = 2, lambda = r.in(6, 10), mu = r.in(3, 5), G = r.in(1, 6); eo::CMAParams p = make(n, lambda, mu, r.below(3), "2,1,2"); std::vector<double> m{U(r, -3, 3), U(r, -3, 3)}; double sg = U(r, 0.5, 2); History h; std::vector<double> c = m; for (int g = 0; g < G; ++g) { h.x.emplace_back(); h.f.emplace_back(); for (auto& y : c) y += U(r, -1, 1); for (int i = 0; i < mu; ++i) { h.x[g].push_back({c[0] + U(r, -2, 2), c[1] + U(r, -2, 2)}); double f; bool dup; do { f = r.in(-30, 30); dup = false; for (double z : h.f[g]) dup = dup || z == f; } while (dup); h.f[g].push_back(f); } }
  long seed = r.next() % 100000 + 1; std::vector<double> z(2, 0.0), t{(double)r.in(-9, 9), (double)r.in(-9, 9)}, m2, mt; for (int j = 0; j < 2; ++j) { m2.push_back(m[j] * 2); mt.push_back(m[j] + t[j]); } eo::CMAState s(p, m, sg), s2(p, m2, 2 * sg), ss(p, mt, sg); bool clean = true; mark(std::string("CMA breeding ") + kind);
  auto a = replay<X>(h, s, lambda, 1, z, false, 0, r, seed, -1, clean), b = replay<X>(h, s, lambda, 1, z, true, 0, r, seed, -1, clean), c1 = replay<X>(h, s, lambda, 1, z, false, 1 + r.below(2), r, seed, -1, clean), d = replay<X>(h, s2, lambda, 2, z, false, 0, r, seed, -1, clean), e = replay<X>(h, ss, lambda, 1, t, false, 0, r, seed, -1, clean), f = replay<X>(h, s, lambda, 1, z, false, 0, r, seed, r.below(G), clean);
  Ev("breed").f("kind", kind).f("clean", clean).f("lambda", lambda).f("base", fxp(a, 1e4)).f("shuffled", fxp(b, 1e4)).f("rescaled", fxp(c1, 1e4)).f("doubled", fxp(d, 1e4)).f("moved", fxp(e, 1e4)).f("by", fxs(t, 1e4)).f("copied", fxp(f, 1e4)); }
// where the samples lie
struct Cloud { IV avg, sd; };
template <class F> static Cloud cloud(F one, int n, double s) { const int N = 3000; std::vector<double> a(n, 0.0), b(n, 0.0); for (int i = 0; i < N; ++i) { std::vector<double> v; one(v); for (int j = 0; j < n; ++j) { a[j] += v[j]; b[j] += v[j] * v[j]; } } Cloud c; for (int j = 0; j < n; ++j) { double mean = a[j] / N, var = b[j] / N - mean * mean; c.avg.push_back(fx(mean, s)); c.sd.push_back(fx(std::sqrt(std::max(0.0, var)), s)); } return c; }
static void clouds(Rng& r) { int n = r.in(2, 4), lambda = r.in(8, 12), mu = r.in(3, 6), how = r.below(3); IV in; for (int i = 0; i < n; ++i) in.push_back(r.in(1, 3)); eo::CMAParams p = make(n, lambda, mu, how, list(in)); std::vector<double> m; for (int i = 0; i < n; ++i) m.push_back(r.in(-6, 6)); eo::CMAState s(p, m, 1.0); eo::rng.reseed(r.next() % 100000 + 1); eo::rng.clearCache(); mark("CMA samples");
  eoCMAInit<double> init(s); bool inv = true; Cloud c0 = cloud([&](std::vector<double>& v) { V x; x.fitness(1); init(x); inv = inv && x.invalid() && (int)x.size() == n; v = x; }, n, 1000); Ev("first").f("inv", inv).f("m", fxs(m, 1000)).f("avg", c0.avg).f("sd", c0.sd).f("inits", in);
  eoPop<V> q; IVV px; std::vector<int> ord; for (int i = 0; i < mu; ++i) { V x; IV row; for (int j = 0; j < n; ++j) { long y = (long)m[j] + r.in(-3, 3); row.push_back(y); x.push_back(y); } x.fitness(100 - i); px.push_back(row); q.push_back(x); } for (size_t i = q.size(); i > 1; --i) std::swap(q[i - 1], q[r.below(i)]); { eoCMABreed<double> b(s, lambda); eoPop<V> o; b(q, o); } Cloud c1 = cloud([&](std::vector<double>& v) { s.sample(v); }, n, 1000); Ev("centre").f("ranked", px).f("w", fxa(p.weights, 10000)).f("avg", c1.avg).f("sd", c1.sd); }
// parents that all lie at the centre: the shape of the cloud stays
static void still(Rng& r) { int n = r.in(2, 4), mu = r.in(2, 5); IV in; for (int i = 0; i < n; ++i) in.push_back(r.in(1, 3)); eo::CMAParams p = make(n, mu + r.in(2, 5), mu, r.below(3), list(in)); std::vector<double> m; for (int i = 0; i < n; ++i) m.push_back(r.in(-6, 6)); eo::CMAState s(p, m, 1.0); eo::rng.reseed(r.next() % 100000 + 1); eo::rng.clearCache(); mark("CMA at rest"); for (int g = r.in(1, 3); g > 0; --g) { eoPop<V> q; for (int i = 0; i < mu; ++i) { V x; for (double y : m) x.push_back(y); x.fitness(9 - i + g); q.push_back(x); } eoCMABreed<double> b(s, 4); eoPop<V> o; b(q, o); }
  Cloud c = cloud([&](std::vector<double>& v) { s.sample(v); }, n, 1000); Ev("first").f("kind", "rest").f("inv", true).f("m", fxs(m, 1000)).f("avg", c.avg).f("sd", c.sd).f("inits", in); }
// the published update, kept apart from the code under test, for whole histories in the plane
static void history(Rng& r) { typedef Eigen::Vector2d V2; typedef Eigen::Matrix2d M2; int n = 2, mu = r.in(2, 5), G = r.coin() ? r.in(1, 3) : r.in(4, 7); IV in{r.in(1, 3), r.in(1, 3)}; eo::CMAParams p = make(n, mu + 3, mu, r.below(3), list(in)); eo::CMAState s(p, {0.0, 0.0}, 1.0); bool low = r.coin(); double reach = r.coin(1, 3) ? 3.0 : 1.2;
  V2 m(0, 0), pc(0, 0), ps(0, 0); M2 C = M2::Zero(); double tr = in[0] * in[0] + in[1] * in[1], sg = 1; for (int i = 0; i < 2; ++i) C(i, i) = in[i] * in[i] * 2 / tr; std::vector<double> best; mark("CMA history");
  for (int g = 0; g < G; ++g) { std::vector<V2> x; std::vector<double> f; double base = r.in(-40, 40); V2 drift(U(r, -1, 1), U(r, -1, 1)); if (g >= 3 && r.coin()) drift *= 6; for (int i = 0; i < mu; ++i) { x.push_back(m + sg * (reach * drift + V2(U(r, -1.5, 1.5), U(r, -1.5, 1.5)))); f.push_back(base + (low ? i : -i)); }
    { std::vector<int> o; for (int i = 0; i < mu; ++i) o.push_back(i); for (int i = mu; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); auto go = [&](auto tag) { typedef decltype(tag) X; eoPop<X> q, off; for (int i : o) { X v; v.push_back(x[i](0)); v.push_back(x[i](1)); v.fitness(f[i]); q.push_back(v); } eoCMABreed<typename X::Fitness> b(s, 3); b(q, off); }; if (low) go(VM()); else go(V()); }
    V2 old = m; m.setZero(); for (int i = 0; i < mu; ++i) m += p.weights[i] * x[i]; V2 step = std::sqrt(p.mueff) * (m - old) / sg; Eigen::SelfAdjointEigenSolver<M2> es(C); M2 inv = es.operatorInverseSqrt(); ps = (1 - p.ccumsig) * ps + std::sqrt(p.ccumsig * (2 - p.ccumsig)) * (inv * step); double chi = std::sqrt(2.0) * (1 - 1 / 8.0 + 1 / 84.0); bool h = g > 0 && ps.norm() / std::sqrt(1 - std::pow(1 - p.ccumsig, 2.0 * g)) / chi < 1.5 + 1 / 1.5; pc = (1 - p.ccumcov) * pc + (h ? 1 : 0) * std::sqrt(p.ccumcov * (2 - p.ccumcov)) * step;
    best.push_back(f[0]); double q2 = ps.squaredNorm(); if (g >= 3) { bool worse = low ? best[g] > best[g - 1] && best[g] > best[g - 2] : best[g] < best[g - 1] && best[g] < best[g - 2]; if (q2 / 2 > 1.5 + 10 && worse) { double t = std::sqrt((1 + std::max(0.0, std::log(q2 / 2))) * 2 / q2); ps *= t; q2 *= t * t; } }
    M2 N = (1 - p.ccov) * C + p.ccov / p.mucov * pc * pc.transpose(); if (!h) N += p.ccumcov * (2 - p.ccumcov) * C; for (int i = 0; i < mu; ++i) { V2 y = (x[i] - old) / sg; N += p.ccov * (1 - 1 / p.mucov) * p.weights[i] * y * y.transpose(); } C = N; sg *= std::exp((std::sqrt(q2) / chi - 1) / p.damp); }
  eo::rng.reseed(r.next() % 100000 + 1); eo::rng.clearCache(); double a = sg * std::sqrt(C(0, 0)), b = sg * std::sqrt(C(1, 1)), z = 1000 / std::max(a, b); if (std::min(a, b) * z < 20) return; double sxy = 0, sx = 0, sy = 0, sxx = 0, syy = 0; const int N = 3000; for (int i = 0; i < N; ++i) { std::vector<double> v; s.sample(v); double X = v[0] - m(0), Y = v[1] - m(1); sx += X; sy += Y; sxy += X * Y; sxx += X * X; syy += Y * Y; } double vx = sxx / N - sx * sx / N / N, vy = syy / N - sy * sy / N / N;
  Ev("history").f("g", G).f("off", IV{fx(sx / N, z), fx(sy / N, z)}).f("sd", IV{fx(std::sqrt(vx), z), fx(std::sqrt(vy), z)}).f("want", IV{fx(a, z), fx(b, z)}).f("corr", fx((sxy / N - sx * sy / N / N) / std::sqrt(vx * vy), 1000)).f("wcorr", fx(C(0, 1) / std::sqrt(C(0, 0) * C(1, 1)), 1000)); }
static void trend(Rng& r) { static const char* K[] = {"far", "near", "axis"}; int k = r.below(3), n = 2, mu = 4, G = 8; eo::CMAParams p = make(n, 8, mu, r.below(3)); eo::CMAState s(p, {0.0, 0.0}, 1.0); eo::rng.reseed(r.next() % 100000 + 1); eo::rng.clearCache(); int ax = r.below(2); std::vector<double> c(2, 0.0); Cloud b = cloud([&](std::vector<double>& v) { s.sample(v); }, n, 1000); mark(std::string("CMA trend ") + K[k]);
  for (int g = 0; g < G; ++g) { eoPop<V> q; for (int i = 0; i < mu; ++i) { V x; for (int j = 0; j < 2; ++j) { double y = c[j]; if (k == 0) y += 2 + U(r, -0.5, 0.5); if (k == 1) y += U(r, -0.05, 0.05); if (k == 2) y += j == ax ? (i % 2 ? 2.0 : -2.0) + U(r, -0.2, 0.2) : U(r, -0.1, 0.1); x.push_back(y); } x.fitness(50 - i + g); q.push_back(x); } if (k == 0) { c[0] += 2; c[1] += 2; } eoCMABreed<double> br(s, 8); eoPop<V> o; br(q, o); }
  Cloud a = cloud([&](std::vector<double>& v) { s.sample(v); }, n, 1000); Ev("trend").f("kind", K[k]).f("ax", ax + 1).f("before", b.sd).f("after", a.sd); }
// the adaptive distribution
typedef eoReal<eoMinimizingFitness> R; typedef edoNormalAdaptive<R> NA; typedef NA::Vector Vec; typedef NA::Matrix Mat;
static IV fe(const Vec& v, double s) { IV o; for (long i = 0; i < v.size(); ++i) o.push_back(fx(v(i), s)); return o; }
static IVV fm(const Mat& m, double s) { IVV o; for (long i = 0; i < m.rows(); ++i) { o.emplace_back(); for (long j = 0; j < m.cols(); ++j) o.back().push_back(fx(m(i, j), s)); } return o; }
static void probe(int k) { NA d(k); edoEstimatorNormalAdaptive<R> est(d); eoPop<R> p; for (int i = 0; i < k; ++i) { R x(k); x[i] = 1; p.push_back(x); } mark("adaptive weights"); est(p); Ev("probe").f("k", k).f("w", fe(d.mean(), 1e5)); }
static void adaptive(Rng& r) { int n = r.in(1, 3), k = r.in(1, 6), G = r.in(1, 5); NA d(n), moved(n), twice(n), turned(n); Vec m0(n), t(n); for (int j = 0; j < n; ++j) { m0(j) = r.in(-5, 5); t(j) = r.in(-9, 9); } Vec mr = m0.reverse(); d.mean(m0); moved.mean(Vec(m0 + t)); twice.mean(Vec(2 * m0)); twice.sigma(2.0); turned.mean(mr); edoEstimatorNormalAdaptive<R> e(d), em(moved), e2(twice), et(turned); mark("adaptive learning");
  for (int g = 0; g < G; ++g) { eoPop<R> p, pm, p2, pt; IVV px; double spread = r.coin() ? 1 : 4; for (int i = 0; i < k; ++i) { R x(n), xm(n), x2(n), xt(n); IV row; for (int j = 0; j < n; ++j) { long y = (long)std::floor(d.mean()(j)) + (long)(spread * r.in(-2, 2)); y = std::max(-150l, std::min(150l, y)); row.push_back(y); x[j] = y; xm[j] = y + t(j); x2[j] = 2 * y; xt[n - 1 - j] = y; } px.push_back(row); p.push_back(x); pm.push_back(xm); p2.push_back(x2); pt.push_back(xt); }
    double s0 = d.sigma(); Vec m1 = d.mean(), pc0 = d.path_covar(), ps0 = d.path_sigma(); Mat C0 = d.covar(); NA out = e(p); em(pm); e2(p2); et(pt); Mat C = d.covar(), B = d.coord_sys(); double chi = std::sqrt((double)n) * (1 - 1 / (4.0 * n) + 1 / (21.0 * n * n)), size = std::max(1.0, C.norm()); Eigen::SelfAdjointEigenSolver<Mat> es(C); Mat rec = B * d.scaling().cwiseAbs2().asDiagonal() * B.transpose();
    if (d.mean().norm() > 300 || size > 1e4 || d.sigma() > 1e3 || d.sigma() < 1e-3) break; Mat y(n, k); for (int i = 0; i < k; ++i) for (int j = 0; j < n; ++j) y(j, i) = (p[i][j] - m1(j)) / s0; Vec w(k); for (int i = 0; i < k; ++i) w(i) = std::log(k + 0.5) - std::log(i + 1.0); w /= w.sum(); double me = 1 / w.squaredNorm(), cc = (4 + me / n) / (n + 4 + 2 * me / n), cs = (me + 2) / (n + me + 5), c1 = 2 / (std::pow(n + 1.3, 2) + me), cmu = 2 * (me - 2 + 1 / me) / (std::pow(n + 2, 2) + me); Mat mix = y * w.asDiagonal() * y.transpose(), one = d.path_covar() * d.path_covar().transpose(); Vec move = std::sqrt(cc * (2 - cc) * me) * (d.mean() - m1) / s0; Eigen::SelfAdjointEigenSolver<Mat> e0(C0); if (e0.eigenvalues().minCoeff() < 1e-6) break; Vec ps = (1 - cs) * ps0 + std::sqrt(cs * (2 - cs) * me) * e0.operatorInverseSqrt() * (d.mean() - m1) / s0; double lim = 1.4 + 2.0 / (n + 1), len = d.path_sigma().norm() / chi / std::sqrt(1 - std::pow(1 - cs, 2.0 * (g + 1)));
    size = std::max(std::max(size, C0.norm()), std::max(mix.norm(), one.norm())); if (size > 1e4) break; double q = 1e4 / size;
    Ev("learn").f("k", k).f("n", n).f("pop", px).f("mean", fe(d.mean(), 1e5)).f("ret", fe(out.mean(), 1e5)).f("sym", (C - C.transpose()).norm() <= 1e-9 * size).f("psd", es.eigenvalues().minCoeff() >= -1e-9 * size).f("ortho", (B * B.transpose() - Mat::Identity(n, n)).norm() < 1e-6).f("same", (rec - C).norm() <= 1e-6 * size).f("path", fx(d.path_sigma().norm() / chi, 1000)).f("grow", fx(d.sigma() / s0, 1e6)).f("sigma", fx(d.sigma(), 1e4)).f("C", fm(C, q))
      .f("mm", fe(Vec(moved.mean() - t), 1e4)).f("Cm", fm(moved.covar(), q)).f("sm", fx(moved.sigma(), 1e4)).f("m2", fe(Vec(twice.mean() / 2), 1e4)).f("C2", fm(twice.covar(), q)).f("s2", fx(twice.sigma() / 2, 1e4)).f("mt", fe(Vec(turned.mean().reverse()), 1e4)).f("Ct", fm(Mat(turned.covar().reverse()), q)).f("st", fx(turned.sigma(), 1e4)).f("m4", fe(d.mean(), 1e4)).f("C0", fm(C0, q)).f("one", fm(one, q)).f("mix", fm(mix, q)).f("c1", fx(c1, 1e4)).f("cmu", fx(cmu, 1e4)).f("cor", fx(cc * (2 - cc), 1e4)).f("pc", fe(d.path_covar(), 1e3)).f("keep", fe(Vec((1 - cc) * pc0), 1e3)).f("move", fe(move, 1e3)).f("ps", fe(d.path_sigma(), 1e3)).f("wps", fe(ps, 1e3)).f("len", fx(len, 1000)).f("lim", fx(lim, 1000)); } }
static void direction(Rng& r) { int n = 2, k = 6, ax = r.below(2); NA d(n); edoEstimatorNormalAdaptive<R> e(d); for (int g = 0; g < 6; ++g) { eoPop<R> p; for (int i = 0; i < k; ++i) { R x(2); x[ax] = d.mean()(ax) + d.sigma() * ((i % 2 ? 2 : -2) + U(r, -0.2, 0.2)); x[1 - ax] = d.mean()(1 - ax) + d.sigma() * U(r, -0.1, 0.1); p.push_back(x); } e(p); } mark("adaptive direction"); Ev("axis").f("along", fx(d.covar()(ax, ax), 1000)).f("across", fx(d.covar()(1 - ax, 1 - ax), 1000)); }
static void again(Rng& r) { int n = 2, k = 4; NA a(n), b(n); edoEstimatorNormalAdaptive<R> ea(a), eb(b); auto pop = [&] { eoPop<R> p; for (int i = 0; i < k; ++i) { R x(n); for (auto& y : x) y = U(r, -2, 2); p.push_back(x); } return p; }; for (int g = r.in(1, 4); g > 0; --g) { auto p = pop(); ea(p); } a.reset(); ea.resetCalls(); mark("adaptive reset"); for (int g = r.in(1, 3); g > 0; --g) { auto p = pop(); ea(p); eb(p); } Ev("again").f("ma", fe(a.mean(), 1e4)).f("mb", fe(b.mean(), 1e4)).f("sa", fe(a.scaling(), 1e4)).f("sb", fe(b.scaling(), 1e4)).f("ga", fx(a.sigma(), 1e4)).f("gb", fx(b.sigma(), 1e4)); }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (int k = 1; k <= 6; ++k) probe(k);
  for (long ep = 0; ep < 30 * args().scale; ++ep) { params(r); twins<V>(r, "max"); twins<VM>(r, "min"); adaptive(r); direction(r); again(r); history(r); if (ep % 3 == 0) { clouds(r); trend(r); still(r); } }
  return done(); }
