// Distributions: estimation, sampling, bounds and repair, centring, stopping.
#include "vt.hpp"
#include <eo>
#include <es.h>
#include <ga.h>
#include <edo>
#include <utils/edoHyperVolume.h>
using namespace vt;
typedef eoReal<eoMinimizingFitness> R;
typedef eoBit<double> B;
struct Row : std::vector<bool> { using std::vector<bool>::vector; };
struct Grid : EO<double>, std::vector<std::vector<bool> > { typedef std::vector<bool> AtomType; };
static IV fxs(const R& v, double s = 1000) { IV o; for (double x : v) o.push_back(fx(x, s)); return o; }
static IV ex(const R& v, double s = 1) { IV o; for (double x : v) o.push_back(exactint(x * s)); return o; }
template <class V> static IV fv(const V& v, double s = 1000) { IV o; for (long i = 0; i < v.size(); ++i) o.push_back(fx(v[i], s)); return o; }
template <class M> static IVV fm(const M& m, double s = 1000) { IVV o; for (long i = 0; i < m.rows(); ++i) { o.emplace_back(); for (long j = 0; j < m.cols(); ++j) o.back().push_back(fx(m(i, j), s)); } return o; }
static R vec(const IV& v, double s = 1) { R r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i] / s; return r; }
static R rvec(Rng& r, int d, int lo, int hi) { R v(d); for (auto& x : v) x = r.in(lo, hi); return v; }
typedef edoNormalMulti<R> NM; typedef edoNormalAdaptive<R> NA; typedef NM::Vector Vec; typedef NM::Matrix Mat;
static Vec ev(const R& v) { Vec o(v.size()); for (size_t i = 0; i < v.size(); ++i) o(i) = v[i]; return o; }
struct Rec : edoRepairer<R> { int calls = 0; R last; double add = 0; void operator()(R& x) { ++calls; for (auto& y : x) y += add; last = x; } };
struct Vote : edoContinue<edoNormalMono<R> > { bool v; int* n; std::vector<std::string>* log = 0; Vote(bool v, int* n) : v(v), n(n) {} bool operator()(const edoNormalMono<R>&) { ++*n; if (log) log->push_back("c"); return v; } };
struct St : edoStatBase<edoNormalMono<R> > { std::vector<std::string>& l; St(std::vector<std::string>& l) : l(l) {} void operator()(const edoNormalMono<R>&) { l.push_back("s"); } void lastCall(const edoNormalMono<R>&) { l.push_back("last s"); } };
struct Up : eoUpdater { std::vector<std::string>& l; Up(std::vector<std::string>& l) : l(l) {} void operator()() { l.push_back("u"); } void lastCall() { l.push_back("last u"); } };
struct Mo : eoMonitor { std::vector<std::string>& l; Mo(std::vector<std::string>& l) : l(l) {} eoMonitor& operator()() { l.push_back("m"); return *this; } void lastCall() { l.push_back("last m"); } };
struct Gen : eoRndGenerator<double> { IV given; double operator()() { double v = 100 + given.size(); given.push_back((long)v); return v; } };
struct Step : edoEstimator<edoNormalMono<R> > { int id; IV* order; Step(int id, IV* o) : id(id), order(o) {} edoNormalMono<R> operator()(eoPop<R>&) { order->push_back(id); return edoNormalMono<R>(R(1, id), R(1, 1)); } };
static void estimates(Rng& r) {
  int d = r.in(1, 4), n = r.in(1, 9); int off = r.in(-20, 20); eoPop<R> p; IVV x; for (int i = 0; i < n; ++i) { R v = rvec(r, d, off - 6, off + 6); if (i && r.coin(1, 6)) v = p.back(); p.push_back(v); x.push_back(ex(v)); }
  auto same = [&] { if ((int)p.size() != n) return false; for (int i = 0; i < n; ++i) if (ex(p[i]) != x[i]) return false; return true; };
  { edoEstimatorUniform<R> e; auto u = e(p); Ev("est").f("kind", "uniform").f("x", x).f("lo", ex(u.min())).f("hi", ex(u.max())).f("untouched", same() && (int)u.size() == d); }
  { edoEstimatorNormalMono<R> e; auto u = e(p); Ev("est").f("kind", "mono").f("x", x).f("m", fxs(u.mean())).f("v", fxs(u.variance())).f("untouched", same() && (int)u.size() == d); }
  { edoEstimatorNormalMulti<R> e; auto u = e(p); Ev("est").f("kind", "multi").f("x", x).f("m", fv(u.mean())).f("c", fm(u.varcovar())).f("untouched", same() && (int)u.size() == d); }
  { eoPop<B> q; IVV y; for (int i = 0; i < n; ++i) { B b(d); IV z; for (int j = 0; j < d; ++j) { b[j] = r.coin(); z.push_back(b[j]); } q.push_back(b); y.push_back(z); } edoEstimatorBinomial<B> e; auto u = e(q); IV m; for (double v : u) m.push_back(fx(v)); Ev("est").f("kind", "binomial").f("x", y).f("m", m).f("untouched", true); }
  { int c = r.in(1, 3); eoPop<Grid> q; IVV y; for (int i = 0; i < n; ++i) { Grid g; IV z; for (int j = 0; j < d; ++j) { std::vector<bool> row; for (int k = 0; k < c; ++k) { row.push_back(r.coin(1, 3)); z.push_back(row[k]); } g.push_back(row); } q.push_back(g); y.push_back(z); } edoEstimatorBinomialMulti<Grid> e; auto u = e(q); IV m; for (int j = 0; j < u.rows(); ++j) for (int k = 0; k < u.cols(); ++k) m.push_back(fx(u(j, k))); Ev("est").f("kind", "binomialmulti").f("x", y).f("m", m).f("untouched", u.rows() == d && u.cols() == c); } }
template <class S, class D> static void normal(const char* kind, S& s, D& d, const R& mu, const IVV& cov) {
  int n = 2500, k = mu.size(); std::vector<double> m(k, 0); std::vector<std::vector<double> > c(k, std::vector<double>(k, 0)); std::vector<bool> flat(k, true); bool fin = true;
  for (int i = 0; i < n; ++i) { R v = s(d); if ((int)v.size() != k) { fin = false; v.resize(k); } for (int a = 0; a < k; ++a) { if (!std::isfinite(v[a])) fin = false; if (std::fabs(v[a] - mu[a]) > 1e-6) flat[a] = false; m[a] += v[a] - mu[a]; for (int b = 0; b < k; ++b) c[a][b] += (v[a] - mu[a]) * (v[b] - mu[b]); } }
  IV ml; IVV cl; for (int a = 0; a < k; ++a) { ml.push_back(fx(m[a] / n + mu[a], 100)); cl.emplace_back(); for (int b = 0; b < k; ++b) cl.back().push_back(fx(c[a][b] / n, 10)); }
  std::string fl = "["; for (int a = 0; a < k; ++a) fl += (a ? "," : "") + js((bool)flat[a]);
  Ev("normal").f("kind", kind).f("mu", ex(mu)).f("cov", cov).f("n", n).f("m", ml).f("c", cl).f("flat", Raw{fl + "]"}).f("finite", fin); }
static void samples(Rng& r) {
  int k = r.in(1, 4); R mu = rvec(r, k, -9, 9); edoBounderNo<R> no;
  { IVV cov(k, IV(k, 0)); R var(k); for (int i = 0; i < k; ++i) { cov[i][i] = r.coin(1, 5) ? 0 : r.in(1, 30); var[i] = cov[i][i]; } edoNormalMono<R> d(mu, var); edoSamplerNormalMono<R> s(no); normal("mono", s, d, mu, cov); }
  // a covariance A A^T of a random integer matrix, possibly singular
  IVV a(k, IV(k, 0)), cov(k, IV(k, 0)); for (auto& row : a) for (auto& x : row) x = r.in(-2, 2); if (r.coin(1, 3)) for (auto& x : a[r.below(k)]) x = 0; for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) for (int l = 0; l < k; ++l) cov[i][j] += a[i][l] * a[j][l];
  Mat C(k, k); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) C(i, j) = cov[i][j];
  { NM d(ev(mu), C); edoSamplerNormalMulti<R> s(no); normal("multi", s, d, mu, cov); }
  { Eigen::SelfAdjointEigenSolver<Mat> es(C); NA d(k); d.mean(mu); d.covar(C); d.coord_sys(es.eigenvectors()); double sg = r.coin() ? 1.0 : 2.0; d.scaling(es.eigenvalues().cwiseMax(0.0).cwiseSqrt() / sg); d.sigma(sg); edoSamplerNormalAdaptive<R> s(no); normal("adaptive", s, d, mu, cov); }
  { R lo = rvec(r, k, -9, 9), hi = lo; for (auto& x : hi) x += r.below(4); edoUniform<R> d(lo, hi); edoSamplerUniform<R> s(no); IVV x; for (int i = 0; i < 150; ++i) { R v = s(d); x.push_back(IV()); for (double y : v) x.back().push_back((long)std::floor(y * 1000)); } Ev("unif").f("kind", "unif").f("lo", ex(lo)).f("hi", ex(hi)).f("x", x); Ev("spread").f("lo", ex(lo)).f("hi", ex(hi)).f("x", x); }
  { IV p; edoBinomial<B> d(k, 0.0); for (int i = 0; i < k; ++i) { p.push_back(r.coin(1, 3) ? 1000 * r.below(2) : r.in(1, 999)); d[i] = p[i] / 1000.0; } edoSamplerBinomial<B> s; IV c(k, 0); int n = 900; for (int i = 0; i < n; ++i) { B b = s(d); for (size_t j = 0; j < b.size() && j < c.size(); ++j) c[j] += b[j]; if ((int)b.size() != k) c.push_back(0); } Ev("bits").f("kind", "bits").f("p", p).f("k", c).f("n", n);
    int cols = r.in(1, 3); Eigen::MatrixXd P(k, cols); IV q; for (int i = 0; i < k; ++i) for (int j = 0; j < cols; ++j) { q.push_back(r.coin(1, 3) ? 1000 * r.below(2) : r.in(1, 999)); P(i, j) = q.back() / 1000.0; } edoBinomialMulti<Grid> g(P); edoSamplerBinomialMulti<Grid> sg; IV cg(q.size(), 0); for (int i = 0; i < n; ++i) { Grid b = sg(g); size_t z = 0; for (auto& row : b) for (bool v : row) { if (z < cg.size()) cg[z] += v; ++z; } if (z != q.size()) cg.push_back(0); } Ev("bits").f("kind", "grid").f("p", q).f("k", cg).f("n", n); }
  { Rec rec; rec.add = 1; R lo(k, 2), hi(k, 2); edoUniform<R> d(lo, hi); edoSamplerUniform<R> s(rec); R y = s(d); Ev("via").f("kind", "viauniform").f("calls", rec.calls).f("y", fxs(y)).f("made", fxs(rec.last)); rec.calls = 0; edoNormalMono<R> m(mu, R(k, 1)); edoSamplerNormalMono<R> sm(rec); y = sm(m); Ev("via").f("kind", "viamono").f("calls", rec.calls).f("y", fxs(y)).f("made", fxs(rec.last)); rec.calls = 0; NM mm(ev(mu), Mat::Identity(k, k)); edoSamplerNormalMulti<R> s2(rec); y = s2(mm); Ev("via").f("kind", "viamulti").f("calls", rec.calls).f("y", fxs(y)).f("made", fxs(rec.last)); rec.calls = 0; NA na(k); edoSamplerNormalAdaptive<R> s3(rec); y = s3(na); Ev("via").f("kind", "viaadaptive").f("calls", rec.calls).f("y", fxs(y)).f("made", fxs(rec.last)); }
  { edoBounderBound<R> bb(R(k, -1), R(k, 1)); edoNormalMono<R> m(R(k, 0), R(k, 9)); edoSamplerNormalMono<R> s(bb); IVV x; for (int i = 0; i < 60; ++i) x.push_back(fxs(s(m))); Ev("unif").f("kind", "bounded").f("lo", IV(k, -1)).f("hi", IV(k, 1)).f("x", x); edoBounderUniform<R> bu(R(k, -1), R(k, 1)); edoSamplerNormalMulti<R> s2(bu); NM mm(ev(R(k, 0)), Mat::Identity(k, k) * 9.0); x.clear(); for (int i = 0; i < 60; ++i) x.push_back(fxs(s2(mm))); Ev("unif").f("kind", "rebounded").f("lo", IV(k, -1)).f("hi", IV(k, 1)).f("x", x); } }
static void repairs(Rng& r) {
  int k = r.in(1, 5); R lo = rvec(r, k, -5, 2), hi = lo; for (auto& x : hi) x += r.below(5); R x = rvec(r, k, -9, 9); IV il = ex(lo, 1000), ih = ex(hi, 1000), ix = ex(x, 1000);
  auto out = [&](const char* kind, edoRepairer<R>& b, IV gen = IV()) { R y = x; b(y); Ev("bound").f("kind", kind).f("lo", il).f("hi", ih).f("x", ix).f("y", fxs(y)).f("gen", gen); };
  edoBounderBound<R> bb(lo, hi); out("clamp", bb); edoBounderUniform<R> bu(lo, hi); out("redraw", bu); edoBounderNo<R> bn; out("none", bn);
  { Gen g; edoBounderRng<R> br(lo, hi, g); R y = x; br(y); for (auto& v : g.given) v *= 1000; Ev("bound").f("kind", "generator").f("lo", il).f("hi", ih).f("x", ix).f("y", fxs(y)).f("gen", g.given); }
  IV q; for (int i = 0; i < k; ++i) q.push_back(r.in(-30, 30)); R z = vec(q, 4);
  auto one = [&](const std::string& kind, int arg, edoRepairer<R>& f) { R y = z; y.fitness(1); f(y); IV at; for (int i = 0; i < k; ++i) at.push_back(i + 1); IV o = kind == "tenths" ? fxs(y, 10) : ex(y, 4); Ev("repair").f("kind", kind).f("x", q).f("y", o).f("invalid", y.invalid()).f("ops", Raw{"[" + js(Obj().f("kind", kind).f("arg", arg).f("at", at)) + "]"}); };
  edoRepairerFloor<R> fl; one("floor", 1, fl); edoRepairerCeil<R> ce; one("ceil", 1, ce); edoRepairerRound<R> ro; one("round", 1, ro); edoRepairerRoundDecimals<R> rd(0.1); one("tenths", 1, rd); int m = r.in(1, 4); edoRepairerModulo<R> mo(m); one("modulo", m, mo);
  { edoRepairer<R>* all[] = {&fl, &ce, &ro, &mo}; const char* nm[] = {"floor", "ceil", "round", "modulo"}; edoRepairerDispatcher<R> d; std::string ops = "["; int n = r.below(4); for (int i = 0; i < n; ++i) { std::vector<unsigned> at; IV a1; for (int j = 0; j < k; ++j) if (r.coin()) { at.push_back(j); a1.push_back(j + 1); } std::reverse(at.begin(), at.begin() + r.below((int)at.size() + 1)); int w = r.below(4); d.add(at, all[w]); if (i) ops += ","; ops += js(Obj().f("kind", nm[w]).f("arg", m).f("at", a1)); } R y = z; y.fitness(1); d(y); Ev("repair").f("kind", "parts").f("x", q).f("y", ex(y, 4)).f("invalid", y.invalid()).f("ops", Raw{ops + "]"}); } }
static void centres(Rng& r) {
  int k = r.in(1, 4); R mu = rvec(r, k, -9, 9), mass = rvec(r, k, -9, 9), var = rvec(r, k, 0, 9);
  { edoNormalMono<R> d(mu, var); edoNormalMonoCenter<R> c; c(d, mass); Ev("centre").f("kind", "mono").f("mass", ex(mass)).f("mean", ex(d.mean())).f("var", ex(var)).f("var2", ex(d.variance())); }
  { Mat C = Mat::Identity(k, k) * 3; NM d(ev(mu), C); edoNormalMultiCenter<R> c; c(d, mass); Ev("centre").f("kind", "multi").f("mass", ex(mass, 1000)).f("mean", fv(d.mean())).f("var", fm(C)).f("var2", fm(d.varcovar())); }
  { R lo = rvec(r, k, -9, 9), hi = lo; for (auto& x : hi) x += 2 * r.below(4); edoUniform<R> d(lo, hi); edoUniformCenter<R> c; c(d, mass); Ev("centre").f("kind", "uniform").f("mass", ex(mass)).f("lo", ex(lo)).f("hi", ex(hi)).f("lo2", ex(d.min())).f("hi2", ex(d.max())); } }
static void stops(Rng& r) {
  edoNormalMono<R> d(R(1, 0), R(1, 1));
  { int n = r.in(1, 4), asked = 0; std::vector<bool> v; std::vector<Vote*> c; std::string vs = "["; for (int i = 0; i < n; ++i) { v.push_back(r.coin(3, 4)); c.push_back(new Vote(v[i], &asked)); vs += (i ? "," : "") + js((bool)v[i]); } std::vector<edoContinue<edoNormalMono<R> >*> cc(c.begin(), c.end()); bool got; if (r.coin()) { edoCombinedContinue<edoNormalMono<R> > k(cc); got = k(d); } else { edoCombinedContinue<edoNormalMono<R> > k(*c[0]); for (int i = 1; i < n; ++i) k.add(*c[i]); got = k(d); } Ev("go").f("kind", "combined").f("votes", Raw{vs + "]"}).f("got", got).f("asked", asked);
    std::vector<std::string> log, things; edoCheckPoint<edoNormalMono<R> > cp(*c[0]); for (auto* x : c) x->log = &log; St s(log), s2(log); Up u(log); Mo m(log); int ns = r.below(3); if (ns > 0) { cp.add(s); things.push_back("s"); } if (ns > 1) { cp.add(s2); things.push_back("s"); } if (r.coin()) { cp.add(u); things.push_back("u"); } if (r.coin()) { cp.add(m); things.push_back("m"); } for (int i = 1; i < n; ++i) cp.add(*c[i]); got = cp(d); Ev("check").f("kind", "check").f("votes", Raw{vs + "]"}).f("got", got).f("log", log).f("things", things); for (auto* x : c) delete x; edoDummyContinue<edoNormalMono<R> > dc; bool t = dc(d); Ev("same").f("kind", "dummy").f("got", IV{t}).f("want", IV{1}); }
  { int k = r.in(1, 3); NA a(k); const char* what[] = {"", "sigma", "path_sigma", "scaling", "coord", "path_covar", "covar"}; int w = r.below(7); double bad = r.coin() ? INFINITY : NAN; int i = r.below(k), j = r.below(k); auto vs = [&](Vec v) { v(i) = bad; return v; }; auto ms = [&](Mat v) { v(i, j) = bad; return v; }; switch (w) { case 1: a.sigma(bad); break; case 2: a.path_sigma(vs(a.path_sigma())); break; case 3: a.scaling(vs(a.scaling())); break; case 4: a.coord_sys(ms(a.coord_sys())); break; case 5: a.path_covar(vs(a.path_covar())); break; case 6: a.covar(ms(a.covar())); break; } edoContAdaptiveFinite<NA> f; bool got = f(a); Ev("finite").f("kind", "finite").f("bad", what[w]).f("got", got); }
  { int k = r.in(1, 4); IV dg; NA a(k); Mat C = Mat::Zero(k, k); for (int i = 0; i < k; ++i) { dg.push_back(r.in(1, 60)); C(i, i) = dg[i]; } a.covar(C); int lim = r.in(2, 20); bool edge = false; for (long u : dg) for (long v : dg) if (u == lim * v) edge = true; if (!edge) { edoContAdaptiveIllCovar<NA> f(lim); bool got = f(a); Ev("cond").f("kind", "cond").f("d", dg).f("limit", lim).f("got", got); } }
  { IV order; int n = r.in(1, 4); std::vector<Step*> s; for (int i = 1; i <= n; ++i) s.push_back(new Step(i, &order)); std::vector<edoEstimator<edoNormalMono<R> >*> ss(s.begin(), s.end()); eoPop<R> p; p.push_back(R(1, 0)); edoNormalMono<R> keep; edoEstimatorCombinedAdaptive<edoNormalMono<R> > c(keep, *s[0]); for (int i = 1; i < n; ++i) c.add(*s[i]); edoNormalMono<R> g = c(p); Ev("chain").f("kind", "chain").f("n", n).f("order", order).f("got", exactint(g.mean()[0])).f("kept", exactint(keep.mean()[0])); for (int rep = 0; rep < 2; ++rep) { order.clear(); static edoEstimatorCombinedStateless<edoNormalMono<R> >* st; if (rep == 0) st = new edoEstimatorCombinedStateless<edoNormalMono<R> >(ss); edoNormalMono<R> h = (*st)(p); Ev("chain").f("kind", "chainless").f("n", n).f("order", order).f("got", exactint(h.mean()[0])).f("kept", exactint(st->distribution().mean()[0])); if (rep == 1) delete st; } for (auto* x : s) delete x; }
  auto fresh = [](NA& a, int k) { return (int)a.size() == k && a.mean() == Vec::Zero(k) && a.covar() == Mat::Identity(k, k) && a.coord_sys() == Mat::Identity(k, k) && a.scaling() == Vec::Constant(k, 1) && a.sigma() == 1.0 && a.path_covar() == Vec::Zero(k) && a.path_sigma() == Vec::Zero(k); };
  auto dirty = [&](int k) { return NA(k, Vec::Constant(k, 2), Mat::Identity(k, k) * 2, Mat::Identity(k, k) * 3, Vec::Constant(k, 4), 5.0, Vec::Constant(k, 6), Vec::Constant(k, 7)); };
  { int k = r.in(1, 4), k2 = r.in(1, 4); eoPop<R> p; NA a = dirty(k); Ev("same").f("kind", "full").f("got", IV{(long)a.size(), fx(a.mean()(0)), fx(a.covar()(0, 0)), fx(a.coord_sys()(k - 1, k - 1)), fx(a.scaling()(k - 1)), fx(a.sigma()), fx(a.path_covar()(0)), fx(a.path_sigma()(0))}).f("want", IV{k, 2000, 2000, 3000, 4000, 5000, 6000, 7000}); edoDistribReset<NA> z(a); z(p); Ev("reset").f("kind", "reset").f("dim", (long)a.mean().size()).f("want", k).f("fresh", fresh(a, k)); NA b = dirty(k); edoDistribReset<NA> zd(b, k2); zd(p); Ev("reset").f("kind", "resetdim").f("dim", (long)b.mean().size()).f("want", k2).f("fresh", fresh(b, k2)); NA c = dirty(k); edoEstimatorAdaptiveReset<NA> er(c); NA c2 = er(p); Ev("reset").f("kind", "ereset").f("dim", (long)c2.mean().size()).f("want", k).f("fresh", fresh(c, k) && fresh(c2, k)); NA e = dirty(k); edoEstimatorAdaptiveReset<NA> ed(e, k2); NA e2 = ed(p); Ev("reset").f("kind", "eresetdim").f("dim", (long)e2.mean().size()).f("want", k2).f("fresh", fresh(e, k2) && fresh(e2, k2)); R to = rvec(r, k, -9, 9); int calls = 0; NA g(k); edoEstimatorAdaptiveEdit<NA> ee(g, [&] { ++calls; return to; }, [&](R m) { g.mean(m); }); NA g2 = ee(p); IV got = fv(g2.mean()); got.push_back(calls); IV want = ex(to, 1000); want.push_back(1); Ev("same").f("kind", "edit").f("got", got).f("want", want); }
  { struct T : edoTransformAdaptive<edoNormalMono<R> > { using edoTransformAdaptive<edoNormalMono<R> >::edoTransformAdaptive; }; int k = r.in(1, 3), n = r.in(1, 6); R at = rvec(r, k, -9, 9); eoPop<R> p; for (int i = 0; i < n; ++i) p.push_back(at); edoEstimatorNormalMono<R> e; Rec rec; edoSamplerNormalMono<R> s(rec); edoNormalMono<R> dd; edoTransformAdaptive<edoNormalMono<R> > t(dd, e, s); t(p); IV got{(long)p.size(), rec.calls}, want{n, n}; for (auto& x : p) for (double v : x) got.push_back(fx(v)); for (int i = 0; i < n; ++i) for (double v : at) want.push_back(fx(v)); for (double v : dd.mean()) got.push_back(fx(v)); for (double v : at) want.push_back(fx(v)); Ev("same").f("kind", "transform").f("got", got).f("want", want); rec.calls = 0; { edoTransformStateless<edoNormalMono<R> > ts(e, s); ts(p); } Ev("same").f("kind", "transformless").f("got", IV{(long)p.size(), rec.calls}).f("want", IV{n, n}); }
  { int k = r.in(1, 3); edoHyperVolume<R> h; long want = 1; for (int i = 0; i < k; ++i) { int v = r.in(1, 9); h.update(v * v); want *= v; } Ev("same").f("kind", "volume").f("got", IV{fx(h.get_hypervolume())}).f("want", IV{want * 1000}); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); eo::rng.reseed((uint32_t)shardseed()); Silence q; for (int ep = 0; ep < 40 * args().scale; ++ep) { guarded("estimates", [&] { estimates(r); }); guarded("repairs", [&] { repairs(r); }); guarded("centres", [&] { centres(r); }); guarded("stops", [&] { stops(r); }); if (ep % 4 == 0) guarded("samples", [&] { samples(r); }); } return done(); }
