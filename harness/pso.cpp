// Particle swarms: memories, neighbourhood bests, bounds, order of the steps.
#include "vt.hpp"
#include <eo>
#include <memory>
#include <map>
using namespace vt;
template <class F> struct Dir { static constexpr int v = 0; }; template <> struct Dir<eoMinimizingFitness> { static constexpr int v = 1; };
template <class F> using P = eoRealParticle<F>;
static IV iv(const std::vector<double>& x) { IV o; for (double v : x) o.push_back(exactint(v)); return o; }
static IV fv(const std::vector<double>& x) { IV o; for (double v : x) o.push_back(fx(v, 1000)); return o; }
static Raw mem(const IV& x, long f) { return Raw{"[" + js(x) + "," + js(f) + "]"}; }
template <class F> static Raw own(const P<F>& p) { return mem(iv(p.bestPositions), exactint((double)p.best())); }
template <class F> static Raw here(const P<F>& p) { return mem(iv(p), exactint((double)p.fitness())); }
static Raw seq(const std::vector<Raw>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += v[i].s; } return Raw{o + "]"}; }
struct Land { int kind; unsigned salt; long operator()(const std::vector<double>& x) const { long s = 0; unsigned h = salt; for (double v : x) { long q = (long)v; s += kind == 0 ? q * q : kind == 1 ? -std::labs(q - 2) : 0; h = (h ^ (unsigned)(q + 1000)) * 2654435761u; h ^= h >> 13; } return kind == 2 ? (long)(h % 7) - 3 : kind == 3 ? 5 : s; } };
template <class F> struct Ctx { eoPop<P<F> >* pop; eoTopology<P<F> >* topo; Land land; int n; long evals = 0; int idx(const P<F>& p) const { return (int)(&p - &(*pop)[0]); } Raw nbs() { std::vector<Raw> v; for (int i = 0; i < n; ++i) v.push_back(here<F>(topo->best(i))); return seq(v); } Raw gb() { return here<F>(topo->globalBest()); } };
struct A { int w = 8, c1 = 8, c2 = 8, c3 = 0, coeff = 8, lo = -2000, hi = 2000; bool in = false; Raw js() const { return Obj().f("w", w).f("c1", c1).f("c2", c2).f("c3", c3).f("coeff", coeff).f("lo", lo).f("hi", hi).f("int", in); } };
template <class F> struct LogVel : eoVelocity<P<F> > { eoVelocity<P<F> >& v; Ctx<F>& c; A& a; const char* kind; LogVel(eoVelocity<P<F> >& v, Ctx<F>& c, A& a, const char* k) : v(v), c(c), a(a), kind(k) {}
  void operator()(P<F>& p, unsigned i) { IV x = iv(p), u = iv(p.velocities); Raw g = c.gb(); v(p, i); Ev("vel").f("kind", kind).f("i", i).f("x", x).f("v", u).f("gb", g).f("a", a.js()).f("y", fv(p.velocities)); for (auto& q : p.velocities) q = std::floor(q); }
  void updateNeighborhood(P<F>& p, unsigned i) { v.updateNeighborhood(p, i); Ev("upd").f("i", i).f("x", iv(p)).f("f", exactint((double)p.fitness())).f("mem", own<F>(p)).f("nb", c.nbs()).f("gb", c.gb()); } using eoVelocity<P<F> >::updateNeighborhood; eoTopology<P<F> >& getTopology() { return v.getTopology(); } };
template <class F> struct LogFly : eoFlight<P<F> > { eoFlight<P<F> >& f; Ctx<F>& c; int lo, hi; LogFly(eoFlight<P<F> >& f, Ctx<F>& c, int lo, int hi) : f(f), c(c), lo(lo), hi(hi) {} void operator()(P<F>& p) { IV v = iv(p.velocities); f(p); Ev("fly").f("i", c.idx(p)).f("v", v).f("x", iv(p)).f("lo", lo).f("hi", hi).f("invalid", p.invalid()); } };
template <class F> struct Eval : eoEvalFunc<P<F> > { Ctx<F>& c; bool log = false; Eval(Ctx<F>& c) : c(c) {} void operator()(P<F>& p) { long f = c.land(p); p.fitness(F(f)); ++c.evals; if (log) Ev("eval").f("i", c.idx(p)).f("x", iv(p)).f("f", f); } };
template <class F> struct PopEval : eoPopEvalFunc<P<F> > { Eval<F>& e; PopEval(Eval<F>& e) : e(e) {} void operator()(eoPop<P<F> >&, eoPop<P<F> >& q) { for (auto& x : q) e(x); } };
template <class F> struct Cont : eoContinue<P<F> > { int left, done = 0, want; Cont(int n) : left(n), want(0) {} bool operator()(const eoPop<P<F> >& p) { ++done; std::vector<Raw> x, m; IV f; for (auto& q : p) { x.push_back(Raw{js(iv(q))}); f.push_back(exactint((double)q.fitness())); m.push_back(own<F>(q)); } Ev("iter").f("gens", done).f("want", ++want).f("pos", seq(x)).f("fit", f).f("mem", seq(m)); return --left > 0; } std::string className() const { return "Cont"; } };
struct Wt : eoWeightUpdater<double> { A& a; Rng& r; Wt(A& a, Rng& r) : a(a), r(r) {} void operator()(double& w) { a.w = r.below(17); w = a.w / 8.0; } };
struct IntGen : eoRndGenerator<double> { Rng& r; int lo, hi; IntGen(Rng& r, int lo, int hi) : r(r), lo(lo), hi(hi) {} double operator()() { return r.in(lo, hi); } };
template <class F> static void swarm(Rng& r) { typedef P<F> X; int n = r.in(2, 6), dim = r.in(1, 3), k = 0, t = r.below(3); Ctx<F> c; c.n = n; c.land = Land{r.below(4), (unsigned)r.next()}; std::unique_ptr<eoTopology<X> > topo; const char* tn;
  if (t == 0) { tn = "linear"; k = r.in(1, n - 1); topo.reset(new eoLinearTopology<X>(k)); } else if (t == 1) { tn = "ring"; k = r.in(1, n); topo.reset(new eoRingTopology<X>(k)); } else { tn = "star"; topo.reset(new eoStarTopology<X>()); }
  eoPop<X> pop; IntGen pg(r, -6, 6), vg(r, -4, 4); eoInitFixedLength<X> pi(dim, pg); pop.append(n, pi); c.pop = &pop; c.topo = topo.get(); Eval<F> ev(c); PopEval<F> pe(ev); eoVelocityInitFixedLength<X> vi(dim, vg); eoFirstIsBestInit<X> bi; mark(std::string("eoInitializer ") + tn);
  bool sync = r.coin(); std::unique_ptr<eoInitializerBase<X> > init; if (r.coin()) init.reset(new eoInitializer<X>(static_cast<eoUF<X&, void>&>(ev), vi, bi, *topo, pop)); else init.reset(new eoInitializer<X>(static_cast<eoPopEvalFunc<X>&>(pe), vi, bi, *topo, pop));
  struct First : eoInitializerBase<X> { std::function<void()> f; void operator()() { f(); } } first; first.f = [&] { ev.log = false; (*init)(); ev.log = true; std::vector<Raw> x, m; IV f, want; bool vok = (int)pop.size() == n; for (auto& q : pop) { x.push_back(Raw{js(iv(q))}); f.push_back(q.invalid() ? -99 : exactint((double)q.fitness())); want.push_back(c.land(q)); m.push_back(own<F>(q)); vok = vok && (int)q.velocities.size() == dim && (int)q.size() == dim && (int)q.bestPositions.size() == dim; for (double v : q.velocities) vok = vok && v >= -4 && v <= 4; } Ev("new").f("kind", tn).f("topo", tn).f("k", k).f("dir", Dir<F>::v).f("sync", sync).f("pos", seq(x)).f("fit", f).f("want", want).f("mem", seq(m)).f("nb", c.nbs()).f("gb", c.gb()).f("vok", vok); };
  A a; auto co = [&] { return r.coin(1, 3) ? 0 : r.below(25); }; a.w = r.below(17); a.c1 = co(); a.c2 = co(); bool vb = r.coin(); if (vb) { a.lo = -r.in(1, 5); a.hi = r.in(1, 5); } eoRealVectorBounds bd(dim, vb ? a.lo : -5000, vb ? a.hi : 5000); double w = a.w / 8.0, c1 = a.c1 / 8.0, c2 = a.c2 / 8.0, c3, coeff; std::unique_ptr<eoVelocity<X> > v; Wt wt(a, r); const char* vn; int q = r.below(7);
  struct Mod : eoRealBoundModifier { void operator()(eoRealBaseVectorBounds&, unsigned) {} } mod; int ct = vb ? r.below(2) : 2;
#define MAKE(T, ...) (ct == 0 ? new T<X>(*topo, __VA_ARGS__, bd) : ct == 1 ? new T<X>(*topo, __VA_ARGS__, bd, mod) : new T<X>(*topo, __VA_ARGS__))
  switch (q) { case 0: vn = "standard"; v.reset(MAKE(eoStandardVelocity, w, c1, c2)); break; case 1: vn = "constricted"; a.w = 8; a.coeff = r.below(13); coeff = a.coeff / 8.0; v.reset(MAKE(eoConstrictedVelocity, coeff, c1, c2)); break; case 2: vn = "extended"; a.c3 = co(); c3 = a.c3 / 8.0; v.reset(MAKE(eoExtendedVelocity, w, c1, c2, c3)); break; case 3: vn = "integer"; a.in = true; v.reset(MAKE(eoIntegerVelocity, w, c1, c2)); break;
    case 4: vn = "inertia"; v.reset(MAKE(eoFixedInertiaWeightedVelocity, w, c1, c2)); break; case 5: vn = "varinertia"; v.reset(MAKE(eoVariableInertiaWeightedVelocity, wt, c1, c2)); break; default: vn = "constrvar"; a.coeff = r.below(13); coeff = a.coeff / 8.0; v.reset(MAKE(eoConstrictedVariableWeightVelocity, coeff, wt, c1, c2)); }
  LogVel<F> lv(*v, c, a, vn); int plo = -5000, phi = 5000; std::unique_ptr<eoRealVectorBounds> pb; std::unique_ptr<eoFlight<X> > fl; int fk = r.below(3); if (fk) { plo = -r.in(6, 9); phi = r.in(6, 9); } if (fk == 0) fl.reset(new eoStandardFlight<X>()); else if (fk == 1) { pb.reset(new eoRealVectorBounds(dim, plo, phi)); fl.reset(new eoStandardFlight<X>(*pb)); } else fl.reset(new eoStandardFlight<X>(dim, plo, phi)); LogFly<F> lf(*fl, c, plo, phi);
  int gens = r.in(1, 7); Cont<F> cont(gens); mark(std::string(sync ? "eoSyncEasyPSO " : "eoEasyPSO ") + tn + " " + vn); std::unique_ptr<eoPSO<X> > al; int z = r.below(3); if (!sync) { if (z) al.reset(new eoEasyPSO<X>(first, cont, ev, lv, lf)); else al.reset(new eoEasyPSO<X>(cont, ev, lv, lf)); } else if (z == 2) al.reset(new eoSyncEasyPSO<X>(first, cont, pe, lv, lf)); else if (z == 1) al.reset(new eoSyncEasyPSO<X>(first, cont, ev, lv, lf)); else if (r.coin()) al.reset(new eoSyncEasyPSO<X>(cont, ev, lv, lf)); else al.reset(new eoSyncEasyPSO<X>(cont, pe, lv, lf)); if (!z) first(); (*al)(pop); Ev("partic").f("kind", sync ? "syncpso" : "asyncpso").f("got", cont.done).f("want", gens); }
template <class F> static void misc(Rng& r) { typedef P<F> X; mark("particles");
  { X p(2, 1.0); auto th = [&](int how) { bool t = false; long g = 0; try { g = exactint((double)(how ? p.best() : p.fitness())); } catch (std::exception&) { t = true; } return std::make_pair(t, g); }; auto ev = [&](const char* k, int how, bool want, long f) { auto q = th(how); Ev("po").f("kind", k).f("threw", q.first).f("want", want).f("got", q.second).f("f", f); }; ev("nofit", 0, true, 0); ev("nobest", 1, true, 0); long f = r.in(-9, 9), b = r.in(-9, 9); p.fitness(F(f)); ev("hasfit", 0, false, f); ev("nobest", 1, true, 0); p.best(F(b)); ev("hasbest", 1, false, b); p.invalidate(); ev("nofit", 0, true, 0); ev("bestkept", 1, false, b); p.invalidateBest(); ev("nobest", 1, true, 0); p.fitness(F(f)); ev("hasfit", 0, false, f); ev("nobest", 1, true, 0); }
  { X p(2, 1.0); p.fitness(F(3)); std::vector<double> v; int n = r.in(1, 5); for (int i = 0; i < n; ++i) v.push_back(r.in(-5, 5)); p.position(v); Ev("partic").f("kind", "position").f("got", iv(p)).f("want", iv(v)); Ev("partic").f("kind", "posinvalid").f("got", IV{p.invalid(), (long)p.bestPositions.size(), (long)p.velocities.size()}).f("want", IV{1, n, n}); X a(1, 0.0), b(1, 0.0); long fa = r.in(0, 3), fb = r.in(0, 3); a.best(F(fa)); b.best(F(fb)); a.fitness(F(fb)); b.fitness(F(fa)); Ev("partic").f("kind", "order").f("got", bool(a < b)).f("want", Dir<F>::v ? fb < fa : fa < fb); }
  { int n = r.in(1, 4); eoPop<X> pop; for (int i = 0; i < n; ++i) { X p(1, 0.0); p.fitness(F(0)); p.best(F(0)); pop.push_back(p); } bool t = false; try { eoLinearTopology<X> l(n + r.below(2)); l.setup(pop); } catch (std::exception&) { t = true; } Ev("badsize").f("kind", "badsize").f("threw", t); eoSocialNeighborhood<X> s; IV ids; for (int i = 0; i < n; ++i) { int id = r.below(9); s.put(id); ids.push_back(id); } IV got, inf; for (unsigned i = 0; i < s.size(); ++i) got.push_back(s.get(i)); for (unsigned x : s.getInformatives()) inf.push_back(x); Ev("partic").f("kind", "nbids").f("got", got).f("want", ids); Ev("partic").f("kind", "nbids").f("got", inf).f("want", ids); IV has, hw; for (int i = 0; i < 9; ++i) { has.push_back(s.contains(i)); hw.push_back(std::count(ids.begin(), ids.end(), i) > 0); } Ev("partic").f("kind", "nbhas").f("got", has).f("want", hw); t = false; try { s.get(n); } catch (std::exception&) { t = true; } Ev("badsize").f("kind", "nbout").f("threw", t); }
  { unsigned stop = r.in(1, 20), cn = r.below(stop + 1); double a = r.in(-3, 9), b = r.in(-3, 9); eoValueParam<unsigned> ctr(cn, "c"); eoLinearDecreasingWeightUp<double, unsigned> u(stop, a, b, ctr); double w = 77; u(w); Ev("weight").f("kind", "lindec").f("a", (long)a).f("b", (long)b).f("stop", stop).f("c", cn).f("y", fx(w)); int lo = r.in(-5, 5), hi = lo + r.below(4); eoRandomRealWeightUp rw(lo, hi); for (int i = 0; i < 4; ++i) { rw(w); Ev("weight").f("kind", "rndw").f("a", lo).f("b", hi).f("y", fx(w)); } bool t = false; try { eoRandomRealWeightUp bad(hi + 1, hi); } catch (std::exception&) { t = true; } Ev("weight").f("kind", "badw").f("threw", t); int blo = -r.below(6), bhi = r.in(1, 9); eoRealVectorBounds bd(2, blo, bhi); eoExpDecayingBoundModifier m(stop, 1.0, ctr); m(bd, 1); Ev("weight").f("kind", "decay").f("a", blo).f("b", bhi).f("lo", exactint(bd.minimum(1))).f("y", fx(bd.maximum(1))).f("stop", stop).f("c", cn); }
  { typedef eoBitParticle<F> B; int L = r.in(2, 6); B p(L); IV want; for (int i = 0; i < L; ++i) { bool up = r.coin(); p.velocities[i] = up ? 400 : -400; want.push_back(up); } p.fitness(F(0)); unsigned sl = r.in(1, 5); eoSigBinaryFlight<B> f1, f2(sl); if (r.coin()) f1(p); else f2(p); IV got; for (int i = 0; i < L; ++i) got.push_back(p[i]); Ev("bits").f("kind", "bitext").f("x", got).f("want", want).f("invalid", p.invalid()); B q(1000); int sg = r.coin() ? 1 : 0; for (auto& v : q.velocities) v = sg * 8.0; q.fitness(F(0)); eoSigBinaryFlight<B> f3(sg ? 1000000u : 1u); f3(q); long c = 0, z = 0; for (int i = 0; i < 1000; ++i) (q[i] ? c : z)++; Ev("bits").f("kind", "bithalf").f("c", c).f("z", z).f("K", 1000).f("invalid", q.invalid()); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; eo::rng.reseed(args().seed * 31 + args().shard); for (int ep = 0; ep < 60 * args().scale; ++ep) guarded("episode", [&] { if (ep & 1) swarm<double>(r); else swarm<eoMinimizingFitness>(r); if (ep % 8 == 0) misc<double>(r); if (ep % 8 == 4) misc<eoMinimizingFitness>(r); }); return done(); }
