// Bounds on numbers and vectors; initialisers and operators on real vectors.
#include <eo>
#include <es.h>
#include <es/eoRealInitBounded.h>
#include <es/eoRealOp.h>
#include <es/eoNormalMutation.h>
#include <es/eoRealAtomXover.h>
#include <es/eoEsStandardXover.h>
#include <es/eoEsGlobalXover.h>
#include <es/eoEsChromInit.h>
#include <es/eoEsMutate.h>
#include <utils/eoIntBounds.h>
#include <eoRealToIntInit.h>
#include <eoRealToIntMonOp.h>
#include <eoRealToIntQuadOp.h>
#include <eoRealBoundModifier.h>
#include <memory>
#include "vt.hpp"
#include "eo_extreme.hpp"
using namespace vt;
typedef std::vector<double> DV;
static void arm(Rng& r) { eo::rng.reseed(r.next() % 1000000 + 1); eo::rng.clearCache(); if (r.coin(1, 3)) { std::vector<uint32_t> d; int k = r.in(1, 5); for (int i = 0; i < k; ++i) d.push_back(r.coin() ? 0u : 0xffffffffu); nextdraws(eo::rng, d, r.next() % 100000 + 1); } }
struct Bd { long lo, hi; bool ml, mh; Raw js(double k = 1) const { Obj o; o.f("lo", (long)std::lround(lo * k)).f("hi", (long)std::lround(hi * k)).f("ml", ml).f("mh", mh); return o; } };
static Bd rbd(Rng& r, int w, int kind = -1) { Bd b; b.lo = r.in(-w, w - 1); b.hi = r.in(b.lo + 1, w); int k = kind < 0 ? r.below(4) : kind; b.ml = k == 0 || k == 1; b.mh = k == 0 || k == 2; return b; }
static std::string jl(const std::vector<Bd>& B, double k) { std::string s = "["; for (size_t i = 0; i < B.size(); ++i) s += (i ? "," : "") + B[i].js(k).s; return s + "]"; }
static std::string jb(const std::vector<bool>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? std::string(",") : std::string()) + (v[i] ? "true" : "false"); return s + "]"; }
template <class F> bool thrown(F f) { try { f(); return false; } catch (std::exception&) { return true; } }
static eoRealBounds* mkreal(const Bd& b, double u) { if (b.ml && b.mh) return new eoRealInterval(b.lo * u, b.hi * u); if (b.ml) return new eoRealBelowBound(b.lo * u); if (b.mh) return new eoRealAboveBound(b.hi * u); return new eoRealNoBounds; }
static eoIntBounds* mkint(const Bd& b, long u) { if (b.ml && b.mh) return new eoIntInterval(b.lo * u, b.hi * u); if (b.ml) return new eoIntBelowBound(b.lo * u); if (b.mh) return new eoIntAboveBound(b.hi * u); return new eoIntNoBounds; }
static long un(double x, double u) { double y = x / u; return y == std::floor(y) ? clampi(y) : -LIM - 1; }
template <class B> void bnd(const char* kind, B& bd, const Bd& b, double u, long x, bool far, bool aslong) {
  mark(std::string("bounds ") + kind); double f = x * u, t = f; long lf = (long)f, lt = lf;
  if constexpr (std::is_same<B, eoIntBounds>::value) { if (aslong) { bd.foldsInBounds(lf); bd.truncate(lt); f = lf; t = lt; } else { bd.foldsInBounds(f); bd.truncate(t); } } else { bd.foldsInBounds(f); bd.truncate(t); }
  double lo = 0, hi = 0, rg = 0; bool t1 = thrown([&] { lo = bd.minimum(); }), t2 = thrown([&] { hi = bd.maximum(); }), t3 = thrown([&] { rg = bd.range(); }); std::vector<long> uni; bool t4 = thrown([&] { for (int i = 0; i < 4; ++i) { double z = bd.uniform(); long k = std::lround(z / u); if (z < b.lo * u) k = b.lo - 1; if (z > b.hi * u) k = b.hi + 1; uni.push_back(k); } });
  if constexpr (std::is_same<B, eoIntBounds>::value) { bool t5 = thrown([&] { for (int i = 0; i < 4; ++i) { long z = bd.random(); uni.push_back(z < b.lo * u ? b.lo - 1 : z > b.hi * u ? b.hi + 1 : (long)std::floor(z / u)); } }); if (t5 != t4) t4 = !t3; }
  long fo = far && b.ml && b.mh && !(x >= b.lo && x <= b.hi) ? (f < b.lo * u ? b.lo - 1 : f > b.hi * u ? b.hi + 1 : b.lo) : un(f, u);
  Ev("bnd").f("kind", kind).f("b", b.js()).f("x", x).f("far", far).f("in", bd.isInBounds(x * u)).f("fold", fo).f("trunc", un(t, u)).f("bounded", bd.isBounded()).f("free", bd.hasNoBoundAtAll()).f("minb", bd.isMinBounded()).f("maxb", bd.isMaxBounded()).f("lo", t1 ? 0 : un(lo, u)).f("hi", t2 ? 0 : un(hi, u)).f("range", t3 ? 0 : un(rg, u)).f("threw", Raw{jb({t1, t2, t3, t4})}).f("uni", uni); }
static std::string num(long k, double u) { std::ostringstream o; o.precision(17); o << k * u; return o.str(); }
static std::string txt(Rng& r, const Bd& b, double u, bool general) { std::string sep = r.coin() ? "," : (r.coin() ? ";" : ", "); if (r.coin(1, 5)) sep = " "; bool par = r.coin(1, 4); auto inf = [&](const char* s) { return std::string(s) + (general && r.coin() ? "inity" : ""); }; return (par ? "(" : "[") + (b.ml ? num(b.lo, u) : inf("-inf")) + sep + (b.mh ? num(b.hi, u) : inf("+inf")) + (par ? ")" : "]"); }
static Bd see(eoRealBounds& b, double u) { Bd o; o.ml = b.isMinBounded(); o.mh = b.isMaxBounded(); o.lo = o.ml ? un(b.minimum(), u) : 0; o.hi = o.mh ? un(b.maximum(), u) : 0; return o; }
static std::string seeall(eoRealBaseVectorBounds& v, double u) { std::vector<Bd> s; for (auto* p : v) s.push_back(see(*p, u)); return jl(s, 1); }
static void scalars(Rng& r) { double u = 1 / 8.0;
  for (int i = 0; i < 6; ++i) { arm(r); Bd b = rbd(r, 40); long x = r.in(-400, 400); if (r.coin(1, 4)) x = r.coin() ? b.lo : b.hi; std::unique_ptr<eoRealBounds> p(mkreal(b, u)); bnd("real", *p, b, u, x, false, false); std::unique_ptr<eoRealBounds> d(p->dup()); bnd("realdup", *d, b, u, x, false, false);
    long xf = r.in(-900, 900); double uf = 16777216.0; std::unique_ptr<eoRealBounds> pf(mkreal(b, uf)); bnd("realfar", *pf, b, uf, xf, true, false); { Bd w = b; w.lo = r.in(-800, -100); w.hi = r.in(100, 800); w.ml = w.mh = true; std::unique_ptr<eoRealBounds> pw(mkreal(w, uf)); bnd("realfar", *pw, w, uf, xf, true, false); }
    std::unique_ptr<eoIntBounds> q(mkint(b, 1)); bnd("int", *q, b, 1, x, false, r.coin()); std::unique_ptr<eoIntBounds> qd(q->dup()); bnd("int", *qd, b, 1, x, false, r.coin()); { Bd w = b; w.lo = r.in(-800, -100); w.hi = r.in(100, 800); w.ml = w.mh = true; std::unique_ptr<eoIntBounds> qf(mkint(w, 16777216)); bnd("intfar", *qf, w, uf, xf, true, r.coin()); }
    { Bd z = b; z.hi = z.lo; z.ml = z.mh = true; std::unique_ptr<eoRealBounds> pz(mkreal(z, u)); bnd("point", *pz, z, u, x, false, false); } }
  // as text
  { Bd b = rbd(r, 40); if (r.coin(1, 6) && b.ml && b.mh) std::swap(b.lo, b.hi); bool bad = b.ml && b.mh && b.hi <= b.lo; auto one = [&](auto* tag, double uu) { typedef std::remove_pointer_t<decltype(tag)> G; std::string s = txt(r, b, uu, true); Bd g = b, a = b, c = b; bool t = thrown([&] { G x(s); mark("general bounds " + s); auto look = [&](G& y) { Bd o; o.ml = y.isMinBounded(); o.mh = y.isMaxBounded(); o.lo = o.ml ? un(y.minimum(), uu) : 0; o.hi = o.mh ? un(y.maximum(), uu) : 0; return o; }; g = look(x); std::ostringstream o; o.precision(17); x.printOn(o); G y; std::istringstream in(o.str()); y.readFrom(in); a = look(y); G z("[1,2]"); z = x; z = *&z; c = look(z); G w(x); if (!bad) { long xx = r.in(-200, 200); bnd("general", static_cast<std::conditional_t<std::is_same<G, eoGeneralIntBounds>::value, eoIntBounds, eoRealBounds>&>(w), b, uu, xx, false, false); } });
      Ev("gen").f("kind", std::is_same<G, eoGeneralIntBounds>::value ? "genint" : "genreal").f("b", b.js()).f("bad", bad).f("threw", t).f("got", g.js()).f("again", a.js()).f("asg", c.js()); };
    one((eoGeneralRealBounds*)0, u); one((eoGeneralIntBounds*)0, 1.0); }
  { auto bad = [&](const char* what, std::function<void()> f, bool want) { Ev("refuse").f("kind", what).f("threw", thrown(f)).f("want", want); };
    bad("nobracket", [] { eoGeneralRealBounds b("1,2"); }, true); bad("noclose", [] { eoGeneralRealBounds b("[1,2"); }, true); bad("nodelim", [] { eoGeneralRealBounds b("[12]"); }, true); bad("empty", [] { eoGeneralIntBounds b(""); }, true); bad("inodelim", [] { eoGeneralIntBounds b("[3]"); }, true); bad("vnoclose", [] { eoRealVectorBounds v("2[0,1"); }, true); bad("vnodelim", [] { eoRealVectorBounds v("[01]"); }, true); bad("void", [] { eoRealVectorBounds v(2, 1.0, 1.0); }, true); bad("rev", [] { eoRealVectorBounds v(2, 2.0, 1.0); }, true); bad("ok", [] { eoRealVectorBounds v(2, 0.0, 1.0); }, false); bad("dims", [] { eoRealVectorBounds v(DV{0, 0}, DV{1}); }, true); bad("ivoid", [] { eoIntInterval v(1, 1); }, true);
    bad("initfree", [] { eoRealVectorNoBounds v(2); eoRealInitBounded<eoReal<double> > i(v); }, true); bad("inithalf", [] { eoRealVectorBounds v("[0,1][0,+inf]"); eoRealInitBounded<eoReal<double> > i(v); }, true); bad("initok", [] { eoRealVectorBounds v("2[0,1]"); eoRealInitBounded<eoReal<double> > i(v); }, false); bad("blx", [] { eoHypercubeCrossover<eoReal<double> > h(-0.5); }, true);
    bad("dim", [] { eoRealVectorBounds v("2[0,1]"); eoUniformMutation<eoReal<double> > m(v, 0.5); eoReal<double> x(3, 0.5); m(x); }, true); bad("ddim", [] { eoRealVectorBounds v("2[0,1]"); eoDetUniformMutation<eoReal<double> > m(v, 0.5); eoReal<double> x(3, 0.5); m(x); }, true); } }
// vector bounds built in every way
static std::unique_ptr<eoRealVectorBounds> mkvec(Rng& r, const std::vector<Bd>& B, double u, std::vector<std::unique_ptr<eoRealBounds> >& own) { std::string s; size_t i = 0; while (i < B.size()) { size_t n = 1; while (i + n < B.size() && B[i + n].js().s == B[i].js().s) ++n; if (n > 1 || r.coin(1, 4)) s += std::to_string(n); s += txt(r, B[i], u, false); s += r.coin() ? ";" : ""; i += n; }
  bool same = true, closed = true; for (auto& b : B) { same &= b.js().s == B[0].js().s; closed &= b.ml && b.mh; }
  if (same && closed && r.coin()) return std::unique_ptr<eoRealVectorBounds>(new eoRealVectorBounds(B.size(), B[0].lo * u, B[0].hi * u));
  if (same && r.coin()) { own.emplace_back(mkreal(B[0], u)); return std::unique_ptr<eoRealVectorBounds>(new eoRealVectorBounds(B.size(), *own.back())); }
  if (closed && r.coin()) { DV a, b; for (auto& x : B) { a.push_back(x.lo * u); b.push_back(x.hi * u); } return std::unique_ptr<eoRealVectorBounds>(new eoRealVectorBounds(a, b)); }
  if (B.size() == 2 && r.coin()) { own.emplace_back(mkreal(B[0], u)); own.emplace_back(mkreal(B[1], u)); return std::unique_ptr<eoRealVectorBounds>(new eoRealVectorBounds(*own[own.size() - 2], *own.back())); }
  return std::unique_ptr<eoRealVectorBounds>(new eoRealVectorBounds(s)); }
static std::vector<Bd> rvec(Rng& r, int n, int w, bool closed) { std::vector<Bd> B; bool same = r.coin(1, 3); for (int i = 0; i < n; ++i) B.push_back(i && (same || r.coin(1, 4)) ? B[i - 1] : rbd(r, w, closed ? 0 : -1)); return B; }
static IV un(const DV& v, double u) { IV o; for (double x : v) o.push_back(un(x, u)); return o; }
static void vectors(Rng& r) { double u = 1 / 8.0; int n = r.in(1, 5); std::vector<Bd> B = rvec(r, n, 40, r.coin()); std::vector<std::unique_ptr<eoRealBounds> > own; auto V = mkvec(r, B, u, own); auto& v = *V; DV x; for (int i = 0; i < n; ++i) x.push_back(r.in(-200, 200) * u); DV f = x, t = x, fi = x, ti = x; mark("vector bounds"); arm(r);
  v.foldsInBounds(f); v.truncate(t); std::vector<bool> in1; for (int i = 0; i < n; ++i) { v.foldsInBounds(i, fi[i]); v.truncate(i, ti[i]); in1.push_back(v.isInBounds(i, x[i])); } bool bd = v.isBounded(); double avg = 0; IV uni; if (bd) { avg = v.averageRange(); DV y; v.uniform(y); for (size_t i = 0; i < y.size(); ++i) { long k = std::lround(y[i] / u); if ((int)i < n && y[i] < B[i].lo * u) k = B[i].lo - 1; if ((int)i < n && y[i] > B[i].hi * u) k = B[i].hi + 1; uni.push_back(k); } }
  bool w = r.coin(); Ev("vec").f("B", Raw{jl(B, 1)}).f("x", un(x, u)).f("fold", un(w ? f : fi, u)).f("trunc", un(w ? t : ti, u)).f("in1", Raw{jb(in1)}).f("in", v.isInBounds(x)).f("bounded", bd).f("free", v.hasNoBoundAtAll()).f("total", (long)std::lround(avg * 8 * n)).f("uni", uni); }
static void parse(Rng& r) { double u = 1 / 8.0; int k = r.in(1, 3); std::string s, list = "["; for (int i = 0; i < k; ++i) { Bd b = rbd(r, 40); int n = r.in(1, 3); std::string c = n > 1 || r.coin(1, 3) ? std::to_string(n) : ""; s += c + txt(r, b, u, false) + (r.coin() ? ";" : r.coin() ? "," : ""); Obj o; o.f("n", n).f("b", b.js()); list += (i ? "," : "") + js(o); } list += "]"; mark("parse bounds " + s);
  int old = r.coin() ? 0 : r.in(1, 8); eoRealVectorBounds v; if (old) v.readFrom(std::to_string(old) + "[0,1]"); if (old || r.coin()) { std::string nosp; for (char c : s) if (c != ' ') nosp += c; bool spaces = nosp != s; if (!spaces && r.coin()) { std::istringstream in(s); v.readFrom(in); } else v.readFrom(s); } else { v.readFrom(s); } std::string got = seeall(v, u); std::ostringstream o; o.precision(17); v.printOn(o); eoRealVectorBounds v2(o.str()); std::string again = seeall(v2, u); eoRealVectorBounds c(v); 
  int size = r.in(1, 12); eoRealVectorBounds adj(s); if (old) { adj.readFrom(std::to_string(old) + "[0,1]"); eoRealVectorBounds a2; a2.readFrom(std::to_string(old) + "[0,1]"); a2.readFrom(s); a2.adjust_size(size); std::string as = seeall(a2, u); v.readFrom("9[5,6]"); v2.readFrom("9[5,6]"); Ev("parse").f("list", Raw{list}).f("old", old).f("size", size).f("got", Raw{got}).f("again", Raw{again}).f("copy", Raw{seeall(c, u)}).f("adj", Raw{as}); return; }
  adj.adjust_size(size); v.readFrom("9[5,6]"); Ev("parse").f("list", Raw{list}).f("old", old).f("size", size).f("got", Raw{got}).f("again", Raw{again}).f("copy", Raw{seeall(c, u)}).f("adj", Raw{seeall(adj, u)}); }
// operators on real vectors; measurements in 1/500
static const double S = 500;
template <class X> IV mv(const X& x) { IV o; for (size_t i = 0; i < x.size(); ++i) o.push_back(fx(x[i], S)); return o; }
struct Ops { Rng& r; int n; double u; std::vector<Bd> B; bool free; std::unique_ptr<eoRealVectorBounds> V; std::vector<std::unique_ptr<eoRealBounds> > own; typedef eoReal<double> X;
  Ops(Rng& r) : r(r), u(1 / 8.0) { n = r.in(1, 4); free = false; B = rvec(r, n, 64, r.coin()); V = mkvec(r, B, u, own); }
  X point() { X x; for (int i = 0; i < n; ++i) { double lo = B[i].ml ? B[i].lo : -64, hi = B[i].mh ? B[i].hi : 64; if (lo > hi) { if (B[i].ml) hi = lo; else lo = hi; } double y = lo + (hi - lo) * r.below(9) / 8; x.push_back((r.coin(1, 4) ? (r.coin() ? lo : hi) : y) * u); } x.fitness(1); return x; }
  std::string bj(bool bounded) { return bounded ? jl(B, u * S) : "[]"; }
  void mut(const char* kind, eoMonOp<X>& op, bool bounded, int most, const DV& amp) { X x = point(), y = x; arm(r); mark(std::string("real mutation ") + kind); op(x); std::vector<bool> ch; for (int i = 0; i < n; ++i) ch.push_back(x[i] != y[i]); IV a; for (int i = 0; i < n; ++i) a.push_back(amp.empty() ? -1 : (long)std::ceil(amp[i] * S)); Ev("mut").f("kind", kind).f("B", Raw{bj(bounded)}).f("p", mv(y)).f("r", mv(x)).f("chg", Raw{jb(ch)}).f("most", most).f("amp", a); }
  void cross(const char* kind, eoQuadOp<X>& op, bool bounded, int a) { X x = point(), y = point(); if (r.coin(1, 4)) { int i = r.below(n); y[i] = x[i]; } X p = x, q = y; arm(r); mark(std::string("real crossover ") + kind); op(x, y); Ev("cross").f("kind", kind).f("a", a).f("B", Raw{bj(bounded)}).f("p", mv(p)).f("q", mv(q)).f("r", mv(x)).f("s", mv(y)); }
  DV width(double e) { DV a; for (auto& b : B) a.push_back(b.ml && b.mh ? e * (b.hi - b.lo) * u : e); return a; }
  void all() { double e = r.in(1, 8) / 8.0; int k = r.in(0, 3); DV flat(n, e), none; double pc = r.in(0, 4) / 4.0; int mp = pc == 0 ? 0 : n;
    { eoUniformMutation<X> m(e, pc); mut("uniform", m, false, mp, flat); eoUniformMutation<X> m2(*V, e, pc); mut("uniformb", m2, true, mp, width(e)); DV ev, pv; for (int i = 0; i < n; ++i) { ev.push_back(r.in(1, 40) / 8.0); pv.push_back(r.below(2)); } int np = 0; DV av; for (int i = 0; i < n; ++i) { np += pv[i] > 0; av.push_back(pv[i] > 0 ? ev[i] : 0); } eoUniformMutation<X> m3(*V, ev, pv); mut("uniformv", m3, true, np, av); }
    { DV ka; for (int i = 0; i < n; ++i) ka.push_back(k * e); eoDetUniformMutation<X> m(e, k); mut("det", m, false, k, ka); eoDetUniformMutation<X> m1(e); mut("det", m1, false, 1, flat); eoDetUniformMutation<X> m2(*V, e, k); DV w = width(e), wk; for (double x : w) wk.push_back(x * k); mut("detb", m2, true, k, wk); DV ev(n, e); eoDetUniformMutation<X> m3(*V, ev, k); mut("detv", m3, true, k, wk); }
    { double sg = r.in(1, 80) / 8.0; eoNormalMutation<X> m(sg, pc); mut("normal", m, false, mp, none); eoNormalMutation<X> m2(*V, sg, pc); mut("normalb", m2, true, mp, none); eoNormalVecMutation<X> m3(sg / 8, pc); mut("normalvec", m3, false, mp, none); eoNormalVecMutation<X> m4(*V, e * 2, pc); mut("normalvecb", m4, true, mp, none); double z = 0; eoNormalMutation<X> mz(*V, z); mut("still", mz, true, n, DV(n, 0)); double big = 1e7; eoNormalMutation<X> mb(*V, big); mut("wild", mb, true, n, none); eoNormalVecMutation<X> mv0(0.5); X x0(n, 0.0), y0 = x0; arm(r); mv0(x0); double d = 0; for (int i = 0; i < n; ++i) d = std::max(d, std::fabs(x0[i])); Ev("refuse").f("kind", "vecsize").f("threw", d > 6 * 0.5 || d == 0).f("want", false); }
    for (int al : {0, r.in(1, 8)}) { double a = al / 8.0; if (al) { eoSegmentCrossover<X> s(a); cross("segment", s, false, al); eoSegmentCrossover<X> sb(*V, a); cross("segment", sb, true, al); eoHypercubeCrossover<X> h(a); cross("box", h, false, al); eoHypercubeCrossover<X> hb(*V, a); cross("box", hb, true, al); } else { eoSegmentCrossover<X> s; cross("segment", s, true, 0); eoSegmentCrossover<X> sb(*V); cross("segment", sb, true, 0); eoHypercubeCrossover<X> h; cross("box", h, true, 0); eoHypercubeCrossover<X> hb(*V); cross("box", hb, true, 0); } }
    { eoRealUXover<X> ux(r.in(0, 8) / 8.0f); cross("ux", ux, true, 0); eoRealUXover<X> u1; cross("ux", u1, true, 0); }
    { double eta = r.in(0, 20) / 2.0; eoSBXCrossover<X> s(eta); bool f = false; (void)f; X x = point(), y = point(), p = x, q = y; eo::rng.reseed(r.next() % 100000 + 1); s(x, y); Ev("cross").f("kind", "sbx").f("a", 0).f("B", Raw{"[]"}).f("p", mv(p)).f("q", mv(q)).f("r", mv(x)).f("s", mv(y)); bool anyfree = !B[0].ml; if (!anyfree) { eoSBXCrossover<X> sb(*V, eta); x = p; y = q; arm(r); sb(x, y); Ev("cross").f("kind", "sbx").f("a", 0).f("B", Raw{bj(true)}).f("p", mv(p)).f("q", mv(q)).f("r", mv(x)).f("s", mv(y)); } }
    { eoDoubleExchange ex; eoDoubleIntermediate im; for (int w = 0; w < 2; ++w) { X x = point(), y = point(), p = x, q = y; arm(r); eoBinOp<double>& o = w ? (eoBinOp<double>&)ex : im; for (int i = 0; i < n; ++i) o(x[i], y[i]); Ev("cross").f("kind", w ? "exchange" : "intermediate").f("a", 0).f("B", Raw{bj(true)}).f("p", mv(p)).f("q", mv(q)).f("r", mv(x)).f("s", mv(y)); } }
    if (V->isBounded()) { eoRealInitBounded<X> in(*V); X x; if (r.coin()) x = point(); arm(r); in(x); Ev("init").f("B", Raw{bj(true)}).f("r", mv(x)).f("valid", !x.invalid()); es<eoEsSimple<double> >(); es<eoEsStdev<double> >(); es<eoEsFull<double> >(); } }
  // evolution-strategy individuals
  static IV devs(const eoEsSimple<double>& x) { return IV{fx(x.stdev, S)}; } static IV devs(const eoEsStdev<double>& x) { return mv(x.stdevs); } static IV devs(const eoEsFull<double>& x) { return mv(x.stdevs); }
  static bool pos(const eoEsSimple<double>& x) { return x.stdev > 0; } template <class Y> static bool pos(const Y& x) { for (double d : x.stdevs) if (!(d > 0)) return false; return true; }
  static IV cors(const eoEsFull<double>& x) { return mv(x.correlations); } template <class Y> static IV cors(const Y&) { return IV(); }
  template <class Y> void es() { bool single = std::is_same<Y, eoEsSimple<double> >::value, full = std::is_same<Y, eoEsFull<double> >::value; int s8 = r.in(1, 8); bool sc = r.coin(); eoEsChromInit<Y> in(*V, s8 / 8.0, sc); Y x; arm(r); in(x); const long pi = 1 + (long)std::ceil(M_PI * S); Ev("init").f("B", Raw{bj(true)}).f("r", mv(x)).f("valid", !x.invalid()); Ev("sigma").f("B", Raw{bj(true)}).f("s8", s8).f("unit", (long)S).f("scaled", sc).f("single", single).f("full", full).f("dev", devs(x)).f("cor", cors(x)).f("pi", pi);
    { DV sv; for (int i = 0; i < n; ++i) sv.push_back(s8 / 8.0); eoEsChromInit<Y> iv(*V, sv); Y y; iv(y); Ev("sigma").f("B", Raw{bj(true)}).f("s8", s8).f("unit", (long)S).f("scaled", false).f("single", single).f("full", full).f("dev", devs(y)).f("cor", cors(y)).f("pi", pi); }
    char a0[] = "driver"; char* av[] = {a0, 0}; eoParser pr(1, av); eoEsMutationInit mi(pr); eoEsMutate<Y> mu(mi, *V); for (int k = 0; k < 4; ++k) { Y p = x; arm(r); mark("es mutation"); if (r.coin(1, 4)) tiny(x); mu(x); Ev("esmut").f("B", Raw{bj(true)}).f("p", mv(p)).f("r", mv(x)).f("devpos", pos(x)).f("cor", cors(x)).f("pi", pi).f("ndev", (long)devs(x).size()).f("ndev0", (long)devs(p).size()).f("ncor0", (long)cors(p).size()); if (r.coin(1, 3)) angles(x); }
    eoDoubleExchange ex; eoDoubleIntermediate im; bool w1 = r.coin(), w2 = r.coin(); eoBinOp<double>&o1 = w1 ? (eoBinOp<double>&)ex : im, &o2 = w2 ? (eoBinOp<double>&)ex : im; auto all = [](const Y& y) { IV d = devs(y), c = cors(y); d.insert(d.end(), c.begin(), c.end()); return d; }; auto snap = [&](const eoPop<Y>& p, IVV& P, IVV& D) { P.clear(); D.clear(); for (auto& y : p) { P.push_back(mv(y)); D.push_back(all(y)); } };
    eoPop<Y> pop; for (int k = 0; k < 4; ++k) { Y y; in(y); mu(y); y.fitness(k); pop.push_back(y); } IVV P, D, P2, D2; snap(pop, P, D);
    { Y a = pop[0]; eoEsStandardXover<Y> xo(o1, o2); arm(r); Y b = pop[1]; xo(a, b); snap(pop, P2, D2); Ev("esx").f("kind1", w1 ? "exchange" : "mid").f("kind2", w2 ? "exchange" : "mid").f("P", IVV{P[0], P[1]}).f("D", IVV{D[0], D[1]}).f("r", mv(a)).f("dev", all(a)).f("same", P == P2 && D == D2 && mv(b) == P[1] && all(b) == D[1]); }
    { eoEsGlobalXover<Y> gx(o1, o2); eoPop<Y> off; struct First : eoSelectOne<Y> { const Y& operator()(const eoPop<Y>& p) { return p[0]; } } sel; eoSelectivePopulator<Y> it(pop, off, sel); arm(r); gx(it); snap(pop, P2, D2); Ev("global").f("kind1", w1 ? "exchange" : "mid").f("kind2", w2 ? "exchange" : "mid").f("P", P).f("D", D).f("r", mv(off[0])).f("dev", all(off[0])).f("valid", !off[0].invalid()).f("same", P == P2 && D == D2 && off.size() == 1); } }
  static void tiny(eoEsSimple<double>& x) { x.stdev = 1e-42; } template <class Y> static void tiny(Y& x) { for (double& d : x.stdevs) d = 1e-42; }
  static void angles(eoEsFull<double>& x) { for (double& c : x.correlations) c = c < 0 ? -3.14 : 3.14; } template <class Y> static void angles(Y&) {}
};
// real operators carried over to integers
static void toint(Rng& r) { typedef eoInt<double> J0; typedef eoVector<double, int> J; typedef eoReal<double> X; (void)sizeof(J0); Bd b = rbd(r, 9); std::unique_ptr<eoIntBounds> bd(mkint(b, 1)); int n = r.in(1, 4); auto ivp = [&] { J x; for (int i = 0; i < n; ++i) { long v = r.in(-20, 20); if (b.ml) v = std::max(v, b.lo); if (b.mh) v = std::min(v, b.hi); x.push_back((int)v); } x.fitness(1); return x; }; auto iv = [](const J& x) { IV o; for (int v : x) o.push_back(v); return o; };
  DV y1, y2; for (int i = 0; i < n; ++i) { y1.push_back(r.in(-200, 200) / 8.0); y2.push_back(r.in(-200, 200) / 8.0); } bool chg = r.coin(3, 4), folds = r.coin(), own = r.coin(); auto u8 = [](const DV& d) { IV o; for (double x : d) o.push_back(std::lround(x * 8)); return o; }; Bd nb = b; nb.ml = nb.mh = false; Bd& ub = own ? b : nb;
  struct M : eoMonOp<X> { DV y; bool c; bool operator()(X& x) { if (c) for (size_t i = 0; i < x.size(); ++i) x[i] = y[i]; return c; } } m; m.y = y1; m.c = chg; struct Q : eoQuadOp<X> { DV y, z; bool c; bool operator()(X& x, X& w) { if (c) for (size_t i = 0; i < x.size(); ++i) { x[i] = y[i]; w[i] = z[i]; } return c; } } q; q.y = y1; q.z = y2; q.c = chg; struct I : eoInit<X> { DV y; void operator()(X& x) { x.resize(y.size()); for (size_t i = 0; i < y.size(); ++i) x[i] = y[i]; } } in; in.y = y1;
  { typedef eoRealToIntMonOp<J, X> O; J x = ivp(), p = x; bool dflt = folds == false && r.coin(); std::unique_ptr<O> o(!own ? new O(m) : dflt ? new O(m, *bd) : new O(m, *bd, folds ? O::Repair::folds : O::Repair::truncate)); bool ret = (*o)(x); Ev("toint").f("kind", "toint-mon").f("b", ub.js()).f("folds", folds).f("y", u8(y1)).f("chg", ret && chg).f("p", iv(p)).f("r", iv(x)); }
  { typedef eoRealToIntQuadOp<J, X> O; J x = ivp(), y = ivp(), p = x, p2 = y; bool dflt = folds == false && r.coin(); std::unique_ptr<O> o(!own ? new O(q) : dflt ? new O(q, *bd) : new O(q, *bd, folds ? O::Repair::folds : O::Repair::truncate)); bool ret = (*o)(x, y); Ev("toint").f("kind", "toint-quad").f("b", ub.js()).f("folds", folds).f("y", u8(y1)).f("chg", ret && chg).f("p", iv(p)).f("r", iv(x)); Ev("toint").f("kind", "toint-quad").f("b", ub.js()).f("folds", folds).f("y", u8(y2)).f("chg", ret && chg).f("p", iv(p2)).f("r", iv(y)); }
  { typedef eoRealToIntInit<J, X> O; J x; if (r.coin()) x = ivp(); bool dflt = folds == false && r.coin(); std::unique_ptr<O> o(!own ? new O(in) : dflt ? new O(in, *bd) : new O(in, *bd, folds ? O::Repair::folds : O::Repair::truncate)); (*o)(x); Ev("toint").f("kind", "toint-init").f("b", ub.js()).f("folds", folds).f("y", u8(y1)).f("chg", true).f("p", IV()).f("r", iv(x)); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 18 * args().scale; ++ep) { eo::rng.reseed(r.next() % 100000 + 1); scalars(r); vectors(r); parse(r); parse(r); Ops(r).all(); Ops(r).all(); toint(r); toint(r); }
  return done(); }
