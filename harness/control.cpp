// Stopping criteria, checkpoints, statistics and samplings of the local searches.
#include "mo_ls.hpp"
#include <ctime>
#include <eoEvalFuncCounter.h>
#include <utils/eoDistance.h>
#include <continuator/moValueParamContinuator.h>
#include <continuator/moBestNoImproveContinuator.h>
#include <continuator/moEvalsContinuator.h>
#include <continuator/moTimeContinuator.h>
#include <continuator/moCounterStat.h>
#include <continuator/moMinusOneCounterStat.h>
#include <continuator/moCounterMonitorSaver.h>
#include <continuator/moBooleanStat.h>
#include <continuator/moUnsignedStat.h>
#include <continuator/moValueStat.h>
#include <continuator/moVectorMonitor.h>
#include <continuator/moQuartilesNeighborStat.h>
#include <continuator/moSecondMomentNeighborStat.h>
#include <sampling/moDensityOfStatesSampling.h>
#include <sampling/moAutocorrelationSampling.h>
#include <sampling/moFDCsampling.h>
#include <sampling/moNeutralDegreeSampling.h>
#include <sampling/moNeutralWalkSampling.h>
#include <sampling/moHillClimberSampling.h>
#include <sampling/moAdaptiveWalkSampling.h>
#include <sampling/moRndBestFitnessCloudSampling.h>
#include <sampling/moRndRndFitnessCloudSampling.h>
#include <sampling/moMHBestFitnessCloudSampling.h>
#include <sampling/moMHRndFitnessCloudSampling.h>
#include <sampling/moStatistics.h>
template <class F> struct Ct { typedef eoBit<F> B; typedef moBitNeighbor<F> N; Rng& r; Full<F> full; NbEval<F> ne; Ct(Rng& r) : r(r) {}
  void put(const Obj& o) { fputs(js(o).c_str(), file()); fputc('\n', file()); ++count(); }
  struct Kid { std::unique_ptr<moContinuator<N> > c; Raw desc; std::function<long()> value; };
  struct World { eoEvalFuncCounter<B> fc; moEvalCounter<N> nc; eoValueParam<unsigned> val; B best; World(Full<F>& f, NbEval<F>& e) : fc(f), nc(e), val(0, "v"), best(NB) {} };
  Kid kid(World& w) { Kid k; int t = r.below(8); int m = r.in(0, 6); bool rs = r.coin(); const char* nm = ""; auto set = [&](moContinuator<N>* c, const char* n) { k.c.reset(c); nm = n; };
    if (t == 0) { auto c = new moIterContinuator<N>(m, r.coin()); set(c, "iter"); k.value = [c] { return (long)c->value(); }; }
    else if (t == 1) { m = r.in(-2, 6); set(new moFitContinuator<N>(F(m)), "fit"); }
    else if (t == 2) { auto c = rs && r.coin() ? new moFullEvalContinuator<N>(w.fc, m) : new moFullEvalContinuator<N>(w.fc, m, rs); set(c, "full"); k.value = [c] { return (long)c->value(); }; }
    else if (t == 3) { auto c = rs && r.coin() ? new moNeighborEvalContinuator<N>(w.nc, m) : new moNeighborEvalContinuator<N>(w.nc, m, rs); set(c, "nb"); k.value = [c] { return (long)c->value(); }; }
    else if (t == 4) { auto c = rs && r.coin() ? new moEvalsContinuator<N>(w.fc, w.nc, m) : new moEvalsContinuator<N>(w.fc, w.nc, m, rs); set(c, "evals"); k.value = [c] { return (long)c->value(); }; }
    else if (t == 5) { auto c = new moBestNoImproveContinuator<N>(w.best, m, r.coin()); set(c, "noimpr"); k.value = [c] { return (long)c->value(); }; }
    else if (t == 6) { auto c = rs && r.coin() ? new moValueParamContinuator<N, unsigned>(w.val, m) : new moValueParamContinuator<N, unsigned>(w.val, m, rs); set(c, "value"); k.value = [c] { return (long)c->value(); }; }
    else set(new moTrueContinuator<N>(), "true");
    k.desc = Obj().f("k", nm).f("max", m).f("restart", rs); return k; }
  struct CStat : public moStat<B, unsigned> { int inits = 0, calls = 0, lasts = 0; CStat() : moStat<B, unsigned>(0, "c") {} void init(B&) { ++inits; this->value() = 0; } void operator()(B&) { ++calls; ++this->value(); } void lastCall(B&) { ++lasts; } };
  struct CUpd : public eoUpdater { int calls = 0, lasts = 0; void operator()() { ++calls; } void lastCall() { ++lasts; } };
  struct CMoUpd : public moUpdater { int inits = 0, calls = 0, lasts = 0; void init() { ++inits; } void operator()() { ++calls; } void lastCall() { ++lasts; } };
  struct CMon : public eoMonitor { int calls = 0, lasts = 0; long seen = 0; CStat* s = 0; CUpd* u = 0; eoMonitor& operator()() { ++calls; if (s) seen = s->value() * 1000 + (u ? u->calls : 0); return *this; } void lastCall() { ++lasts; } };
  // criteria alone, in combination, under a checkpoint, or driving a search
  void crits() { landscape(r, r.in(1, 3), r.in(2, 8)); World w(full, ne); full(w.best); int m = r.in(1, 3), form = r.below(3); std::vector<Kid> ks; std::vector<Raw> d; for (int i = 0; i < m; ++i) { ks.push_back(kid(w)); d.push_back(ks.back().desc); } int interval = r.in(1, 4);
    std::unique_ptr<moContinuator<N> > top; CStat st[2]; CUpd up; CMoUpd mu; CMon mn[2]; moCheckpoint<N>* cp = 0; CMon saved; int every = r.in(1, 3); moCounterMonitorSaver sv(every, saved); mn[0].s = &st[0]; mn[0].u = &up;
    if (form == 1) { auto c = new moCombinedContinuator<N>(*ks[0].c); for (int i = 1; i < m; ++i) c->add(*ks[i].c); top.reset(c); }
    else if (form == 2) { cp = interval == 1 && r.coin() ? new moCheckpoint<N>(*ks[0].c) : new moCheckpoint<N>(*ks[0].c, interval); for (int i = 1; i < m; ++i) cp->add(*ks[i].c); cp->add(st[0]); cp->add(st[1]); cp->add((eoUpdater&)up); cp->add(mu); cp->add(mn[0]); cp->add(mn[1]); cp->add((eoUpdater&)sv); top.reset(cp); }
    put(Obj().f("op", "new").f("kind", "crit").f("form", form == 0 ? "single" : form == 1 ? "comb" : "check").f("dir", Dir<F>::v).f("kids", d).f("interval", interval).f("every", every).f("n", NB).f("tab", TAB));
    B b = mk<F>(r.below(1 << NB), NB); moContinuator<N>& run = top ? *top : *ks[0].c;
    auto see = [&](Ev& e) { e.f("f", fitof(b)).f("full", (long)w.fc.value()).f("nb", (long)w.nc.value()).f("val", (long)w.val.value()).f("best", fitof(w.best)); };
    auto after = [&](Ev& e) { IV v; for (auto& k : ks) v.push_back(k.value ? k.value() : -1); e.f("vals", v); if (cp) e.f("obs", IV{st[0].inits, st[0].calls, st[0].lasts, st[1].inits, st[1].calls, st[1].lasts, up.calls, up.lasts, mu.inits, mu.calls, mu.lasts, mn[0].calls, mn[0].lasts, mn[1].calls, mn[1].lasts, saved.calls, saved.lasts, mn[0].seen}); };
    auto wander = [&] { for (int q = r.below(3); q > 0; --q) { B c = b; c.invalidate(); w.fc(c); } for (int q = r.below(3); q > 0; --q) { N nb; nb.index(r.below(NB)); w.nc(b, nb); } if (r.coin()) w.val.value() += r.below(3); };
    w.fc(b);
    for (int t = 0; t < r.in(1, 3); ++t) { wander(); run.init(b); { Ev e("cinit"); see(e); after(e); }
      for (int i = 0; i < r.in(1, 9); ++i) { wander(); b = mk<F>(r.below(1 << NB), NB); full(b); bool go = true; if (form == 0 && m > 1) { for (int q = 1; q < m; ++q) (void)0; }
        { Ev e("ccall"); see(e); go = run(b); e.f("res", go); after(e); } if (b.fitness() > w.best.fitness()) w.best = b; if (!go && r.coin()) break; }
      if (r.coin()) { run.lastCall(b); Ev e("clast"); after(e); } } }
  struct Tap : public moContinuator<N> { moContinuator<N>& in; World& w; int inits = 0, calls = 0; Tap(moContinuator<N>& in, World& w) : in(in), w(w) {} void see(Ev& e, B& b) { e.f("f", fitof(b)).f("full", (long)w.fc.value()).f("nb", (long)w.nc.value()).f("val", (long)w.val.value()).f("best", fitof(w.best)).f("vals", IV()); }
    void init(B& b) { in.init(b); Ev e("cinit"); see(e, b); } bool operator()(B& b) { Ev e("ccall"); see(e, b); bool g = in(b); e.f("res", g); if (b.fitness() > w.best.fitness()) w.best = b; return g; } };
  // a random walk is stopped by its criteria and nothing else
  void drive() { landscape(r, r.in(1, 4), r.in(2, 8)); World w(full, ne); full(w.best); Kid a = kid(w), b = kid(w); moIterContinuator<N> cap(r.in(1, 12), false); moCombinedContinuator<N> c(*a.c); c.add(*b.c); c.add(cap); Tap tap(c, w); std::vector<Raw> d; d.push_back(a.desc); d.push_back(b.desc); int left = 0; (void)left; moRndWithReplNeighborhood<N> h(NB); moRandomWalk<N> ls(h, w.fc, w.nc, tap); IV caps;
    int mx = r.in(1, 12); moIterContinuator<N> cap2(mx, false); moCombinedContinuator<N> c2(*a.c); c2.add(*b.c); c2.add(cap2); Tap tap2(c2, w); d.push_back(Obj().f("k", "iter").f("max", mx).f("restart", true)); ls.setContinuator(tap2);
    put(Obj().f("op", "new").f("kind", "drive").f("form", "comb").f("dir", Dir<F>::v).f("kids", d).f("interval", 1).f("every", 1).f("n", NB).f("tab", TAB));
    for (int t = 0; t < 2; ++t) { B s = mk<F>(r.below(1 << NB), NB); if (!guarded("driven search", [&] { ls(s); })) return; Ev("driven").f("f", fitof(s)); } }
  void time_() { moTimeContinuator<N> c(r.in(20, 60), r.coin()); B b = mk<F>(0, 1); static const int off[] = {0, 10, 100, 1000}; int d = off[r.below(4)], m = r.in(20, 60); if (r.coin()) { m = r.in(20, 60); c.maxTime(m); } else { moTimeContinuator<N> c2(m); (void)c2; c.maxTime(m); } bool ext = r.coin(); time_t now = time(0); if (ext) c.setStartingTime(now - d); if (r.coin()) c.init(b); bool res = c(b); Ev("time").f("d", ext ? d : 0).f("m", m).f("res", res); c.maxTime(ext && d > 0 ? d - 5 : 0); bool res2 = c(b); Ev("time").f("d", ext ? d : 0).f("m", ext && d > 0 ? d - 5 : 0).f("res", res2); }
  IV fxv(const std::vector<double>& v) { IV o; for (double x : v) o.push_back(fx(x)); return o; }
  // statistics over a history of solutions
  void stats() { landscape(r, r.in(1, 4), r.in(2, 8)); put(Obj().f("op", "new").f("kind", "stats").f("dir", Dir<F>::v).f("n", NB).f("tab", TAB)); bool re = r.coin(), fl = false; unsigned uv = 0; eoValueParam<unsigned long> vp(0, "v"); bool rs = r.coin(); eoHammingDistance<B> hd; B ref = mk<F>(r.below(1 << NB), NB);
    moBestFitnessStat<B> bf(re); moBestSoFarStat<B> bs(re); moBestFitnessStat<B> bfd; moBestSoFarStat<B> bsd; moBooleanStat<B> bo(&fl); moUnsignedStat<B> us(&uv); moCounterStat<B> cs; moMinusOneCounterStat<B> mc; moFitnessStat<B> fs; moSolutionStat<B> ss; moDistanceStat<B> ds(hd, ref); moStatFromStat<B, unsigned> sf(cs); moValueStat<B, unsigned long> vs(vp, rs);
    moOrderNeighborhood<N> oh(NB); moRndWithoutReplNeighborhood<N> wo(NB); moNeighborhood<N>& h = r.coin() ? (moNeighborhood<N>&)oh : wo; moNeighborhoodStat<N> ns(h, ne); moAverageFitnessNeighborStat<N> av(ns); moStdFitnessNeighborStat<N> sd(ns); moMinNeighborStat<N> mi(ns); moMaxNeighborStat<N> ma(ns); moQ1NeighborStat<N> q1(ns); moMedianNeighborStat<N> me(ns); moQ3NeighborStat<N> q3(ns); moQuartilesNeighborStat<N> qq(ns); moSecondMomentNeighborStat<N> sm(ns); moSizeNeighborStat<N> sz(ns); moNbInfNeighborStat<N> ni(ns); moNbSupNeighborStat<N> nu(ns); moNeutralDegreeNeighborStat<N> nd(ns); int kmax = r.coin() ? 0 : r.in(1, NB); moNeighborBestStat<N> nb(h, ne, kmax); moRndWithReplNeighborhood<N> wr(NB); moNeighborFitnessStat<N> nf(wr, ne);
    std::vector<moStatBase<B>*> all = {&bf, &bs, &bfd, &bsd, &bo, &us, &cs, &mc, &fs, &ss, &ds, &sf, &vs, &ns, &av, &sd, &mi, &ma, &q1, &me, &q3, &qq, &sm, &sz, &ni, &nu, &nd, &nb, &nf};
    int steps = r.in(2, 9); for (int i = 0; i < steps; ++i) { bool first = i == 0 || r.coin(1, 5); B b = mk<F>(r.below(1 << NB), NB); full(b); fl = r.coin(); uv = r.below(100); vp.value() += r.below(5); for (auto s : all) if (first) s->init(b); else (*s)(b);
      Ev("stat").f("first", first).f("re", re).f("x", code(b)).f("b", fl).f("bo", bo.value()).f("u", (long)uv).f("us", (long)us.value()).f("v", (long)vp.value()).f("rs", rs).f("vs", exactint(vs.value())).f("bf", exactint((double)bf.value())).f("bs", code(bs.value())).f("bsf", fitof(bs.value())).f("bfd", exactint((double)bfd.value())).f("bsd", code(bsd.value())).f("cs", (long)cs.value()).f("sf", (long)sf.value()).f("mc", (long)mc.value()).f("fs", exactint((double)fs.value())).f("ss", code(ss.value())).f("ref", code(ref)).f("ds", exactint(ds.value()))
        .f("has", ns.value()).f("av", fx(av.value())).f("sd", fx(sd.value(), 100)).f("mi", exactint((double)mi.value())).f("ma", exactint((double)ma.value())).f("q1", exactint((double)q1.value())).f("me", exactint((double)me.value())).f("q3", exactint((double)q3.value())).f("qa", exactint(qq.value().first)).f("qb", exactint(qq.value().second)).f("sma", fx(sm.value().first)).f("smb", fx(sm.value().second, 100)).f("sz", (long)sz.value()).f("ni", (long)ni.value()).f("nu", (long)nu.value()).f("nd", (long)nd.value()).f("k", kmax).f("ordered", &h == &oh).f("nb", exactint((double)nb.value())).f("nf", exactint((double)nf.value())); } }
  struct LogInit : public eoInit<B> { Rng& r; IV made; bool evaluated = false; Full<F>* full = 0; LogInit(Rng& r) : r(r) {} void operator()(B& b) { b = mk<F>(r.below(1 << NB), NB); if (evaluated) (*full)(b); made.push_back(code(b)); } };
  struct Visit : public moStat<B, double> { IV xs, fs; Visit() : moStat<B, double>(0, "visit") {} void init(B& b) { xs.clear(); fs.clear(); (*this)(b); } void operator()(B& b) { xs.push_back(code(b)); fs.push_back(fitof(b)); } };
  template <class S> void sample(const char* nm, S& s, int num, LogInit& in, int cols, int solcol, long ref, std::vector<double> probe = {}) { (void)probe; Visit v; s.add(v, false);
    put(Obj().f("op", "new").f("kind", "sample").f("dir", Dir<F>::v).f("n", NB).f("tab", TAB)); for (int t = 0; t < r.in(1, 2); ++t) { in.made.clear(); if (!guarded(std::string("sampling ") + nm, [&] { s(); })) return; std::vector<IV> cs; IV sols; for (int c = 0; c < cols; ++c) { if (c == solcol) { for (auto& b : s.getSolutions(c)) sols.push_back(code(b)); cs.push_back(IV()); } else cs.push_back(fxv(s.getValues(c))); }
      Ev("sample").f("kind", nm).f("num", num).f("xs", v.xs).f("fs", v.fs).f("made", in.made).f("cols", cs).f("sols", sols).f("ref", ref);
      std::string path = args().tmp + "/col" + std::to_string(args().shard) + ".txt"; int col = solcol == 0 ? 1 : 0; if (args().tmp.size()) { s.fileExport((unsigned)col, path); IV back; std::ifstream is(path); double x; while (is >> x) back.push_back(fx(x, 100)); is.close(); unlink(path.c_str()); IV mem; for (double q : s.getValues(col)) mem.push_back(fx(q, 100)); Ev("export").f("mem", mem).f("back", back); } } }
  void samplings() { landscape(r, r.in(1, 4), r.in(2, 8), true); full.lazy = false; LogInit in(r); in.full = &full; in.evaluated = r.coin(); int num = r.in(2, 12); moOrderNeighborhood<N> oh(NB); moRndWithoutReplNeighborhood<N> wo(NB); moRndWithReplNeighborhood<N> wr(NB); eoHammingDistance<B> hd; B ref = mk<F>(r.below(1 << NB), NB); full(ref); moNeighborhood<N>& any = r.coin() ? (moNeighborhood<N>&)oh : wo;
    switch (r.below(11)) {
      case 0: { moDensityOfStatesSampling<N> s(in, full, num); sample("dos", s, num, in, 1, -1, 0); break; }
      case 1: { moAutocorrelationSampling<N> s(in, wr, full, ne, num); sample("walk", s, num, in, 1, -1, 0); break; }
      case 2: { moFDCsampling<N> s(in, full, hd, ref, num); sample("fdc", s, num, in, 2, -1, code(ref)); break; }
      case 3: { moNeutralDegreeSampling<N> s(in, any, full, ne, num); sample("ndeg", s, num, in, 2, -1, 0); break; }
      case 4: { moNeutralWalkSampling<N> s(ref, any, full, ne, hd, num); sample("nwalk1", s, num, in, 13, 0, code(ref)); break; }
      case 5: { moNeutralWalkSampling<N> s(in, any, full, ne, num); sample("nwalk2", s, num, in, 12, 0, 0); break; }
      case 6: { moHillClimberSampling<N> s(in, any, full, ne, num); sample("hc", s, num, in, 2, 1, 0); break; }
      case 7: { moAdaptiveWalkSampling<N> s(in, any, full, ne, num); sample("adapt", s, num, in, 3, 2, 0); break; }
      case 8: { moRndBestFitnessCloudSampling<N> s(in, any, full, ne, num); sample("rbest", s, num, in, 2, -1, 0); break; }
      case 9: { moRndRndFitnessCloudSampling<N> s(in, wr, full, ne, num); sample("rrnd", s, num, in, 2, -1, 0); break; }
      default: if (r.coin()) { moMHBestFitnessCloudSampling<N> s(in, any, full, ne, num); sample("mhbest", s, num, in, 2, -1, 0); } else { moMHRndFitnessCloudSampling<N> s(in, wr, full, ne, num); sample("mhrnd", s, num, in, 2, -1, 0); } } }
  void series() { moStatistics ms; std::vector<double> d; int n = r.in(0, 8), v = r.in(1, 4); for (int i = 0; i < n; ++i) d.push_back(r.below(v)); IV iv; for (double x : d) iv.push_back((long)x); double mi, ma, av, sd; ms.basic(d, mi, ma, av, sd); Ev("basic").f("d", iv).f("mi", exactint(mi)).f("ma", exactint(ma)).f("av", fx(av)).f("sd", fx(sd, 100));
    if (n >= 3) { int lag = r.in(1, n - 2); std::vector<double> rho, phi; ms.autocorrelation(d, lag, rho, phi); IV a, b, c; for (double x : rho) { a.push_back(fx(x, 100)); c.push_back(fx(x)); } for (double x : phi) b.push_back(fx(x)); Ev("acf").f("d", iv).f("lag", lag).f("rho", a).f("rhom", c).f("phi", b); }
    NB = 4; std::vector<B> bs; IV cs; for (int i = 0; i < r.below(5); ++i) { bs.push_back(mk<F>(r.below(16), 4)); cs.push_back(code(bs.back())); } eoHammingDistance<B> hd; std::vector<std::vector<double> > m; ms.distances(bs, hd, m); std::vector<IV> mm; for (auto& q : m) { IV z; for (double x : q) z.push_back(exactint(x)); mm.push_back(z); } Ev("dists").f("xs", cs).f("m", mm); }
  void all() { crits(); crits(); drive(); time_(); stats(); samplings(); samplings(); series(); }
};
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 50 * args().scale; ++ep) { eo::rng.reseed(r.next() % 100000 + 1); if (ep % 2) Ct<double>(r).all(); else Ct<eoMinimizingFitness>(r).all(); }
  return done(); }
