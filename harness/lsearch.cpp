// Hill climbers, walks, annealing and tabu search on table landscapes.
#include "mo_ls.hpp"
#include <comparator/moEqualNeighborComparator.h>
#include <comparator/moEqualSolNeighborComparator.h>
#include <memory/moRndIndexedVectorTabuList.h>
#include <set>
template <class F> struct Run { typedef eoBit<F> B; typedef moBitNeighbor<F> N; Rng& r; Full<F> full; NbEval<F> ne; Rec<F> rec; 
  moNeighborComparator<N> cn; moEqualNeighborComparator<N> ecn; moSolNeighborComparator<N> cs; moEqualSolNeighborComparator<N> ecs; moTrueContinuator<N> tc;
  Run(Rng& r) : r(r) {}
  Obj base(const char* kind, const std::string& nb, bool fullnb, int limit) { Obj o; o.f("op", "new").f("kind", kind).f("n", NB).f("dir", Dir<F>::v).f("tab", TAB).f("nb", nb).f("full", fullnb).f("limit", limit); return o; }
  void put(const Obj& o) { fputs(js(o).c_str(), file()); fputc('\n', file()); ++count(); }
  // run the same search object several times
  void go(moLocalSearch<N>& ls, int runs, int cap, bool own) { full.lazy = r.coin(); moContinuator<N>* c = ls.getContinuator(); rec.inner = own ? c : 0; ls.setContinuator(rec);
    for (int t = 0; t < runs; ++t) { B b = mk<F>(r.below(1 << NB), NB); bool pre = r.coin(); if (pre) { b.fitness(F(TAB[code(b)])); } rec.left = cap; SEEN.clear(); Ev("start").f("x", code(b));
      if (!guarded("local search", [&] { ls(b); })) return; Ev("end").f("x", code(b)).f("f", fitof(b)); } }
  void climb() { landscape(r, r.coin(1, 12) ? 0 : r.in(1, 4), r.in(1, 9)); Hood<F> h = hood<F>(r, NB, NB ? r.below(3) : 0); int w = r.below(7); int cap = r.coin() ? 40 : r.in(1, 4);
    bool eqn = r.coin(1, 4), eqs = r.coin(1, 4); moNeighborComparator<N>& a = eqn ? ecn : cn; moSolNeighborComparator<N>& s = eqs ? (moSolNeighborComparator<N>&)ecs : cs; int form = r.below(3); int limit = r.in(0, 6); int runs = r.in(1, 3); bool always = w == 1 && r.coin(1, 4);
    const char* kinds[] = {"simple", "first", "rbest", "neutral", "rwalk", "rneutral", "rsearch"}; bool def = form < 2; std::string rule = w <= 2 && !def && eqs ? "eq" : "strict"; if (rule == "eq" || always) cap = r.in(1, 12);
    Obj o = base(kinds[w], h.name, h.full, w == 6 ? std::max(1, limit - 1) : limit); o.f("rule", rule).f("always", always); put(o); std::unique_ptr<moLocalSearch<N> > ls; bool own = form == 0; moNeighborhood<N>& nh = *h.p;
    if (w == 0) ls.reset(form == 0 ? new moSimpleHC<N>(nh, full, ne) : form == 1 ? new moSimpleHC<N>(nh, full, ne, tc) : new moSimpleHC<N>(nh, full, ne, tc, a, s));
    else if (w == 1) { auto p = form == 0 ? new moFirstImprHC<N>(nh, full, ne) : form == 1 ? new moFirstImprHC<N>(nh, full, ne, tc) : new moFirstImprHC<N>(nh, full, ne, tc, a, s); if (always) p->alwaysContinue(); ls.reset(p); }
    else if (w == 2) ls.reset(form == 0 ? new moRandomBestHC<N>(nh, full, ne) : form == 1 ? new moRandomBestHC<N>(nh, full, ne, tc) : new moRandomBestHC<N>(nh, full, ne, tc, a, s));
    else if (w == 3) ls.reset(form == 0 ? new moNeutralHC<N>(nh, full, ne, limit) : form == 1 ? new moNeutralHC<N>(nh, full, ne, limit, tc) : new moNeutralHC<N>(nh, full, ne, limit, tc, cn, cs));
    else if (w == 4) { if (form == 0) ls.reset(new moRandomWalk<N>(nh, full, ne, std::max(1, limit))); else ls.reset(new moRandomWalk<N>(nh, full, ne, tc)); }
    else if (w == 5) ls.reset(form == 0 ? new moRandomNeutralWalk<N>(nh, full, ne, limit) : form == 1 ? new moRandomNeutralWalk<N>(nh, full, ne, limit, tc) : new moRandomNeutralWalk<N>(nh, full, ne, limit, tc, cs));
    else { eoUniformGenerator<bool> g; auto init = std::make_shared<eoInitFixedLength<B> >(NB, g); ls.reset(form == 0 ? new moRandomSearch<N>(*init, full, limit) : new moRandomSearch<N>(*init, full, limit, tc)); go(*ls, runs, cap, own); return; }
    go(*ls, runs, cap, own); }
  // ties: every best neighbour can be chosen; the random walk reaches every neighbour
  void cover() { landscape(r, r.in(2, 4), 3); moOrderNeighborhood<N> o(NB); moRndWithReplNeighborhood<N> w(NB); long x = r.below(1 << NB); int k = r.below(3); std::set<long> got; B b = mk<F>(x, NB); full(b);
    moRandomBestHCexplorer<N> rb(o, ne, cn, cs); moNeutralHCexplorer<N> nt(o, ne, cn, cs, 1000000); moRandomWalkExplorer<N> rw(w, ne); moNeighborhoodExplorer<N>& e = k == 0 ? (moNeighborhoodExplorer<N>&)rb : k == 1 ? (moNeighborhoodExplorer<N>&)nt : rw;
    bool hop = r.coin(); e.initParam(b); for (int t = 0; t < 300; ++t) { if (hop) { B d = mk<F>(r.below(1 << NB), NB); full(d); if (t % 2) e.initParam(d); e(d); e.initParam(b); /* a search left half-way, then a new one */ } e(b); if (e.accept(b)) { B c = b; e.move(c); got.insert(code(c)); } e.updateParam(b); }
    put(base(k == 0 ? "rbest" : k == 1 ? "neutral" : "rwalk", "order", true, 0).f("rule", "strict").f("always", false)); Ev("cover").f("x", x).f("got", std::vector<long>(got.begin(), got.end())); SEEN.clear(); }
  // ------------------------------------------------------------ annealing
  struct Sched { std::unique_ptr<moCoolingSchedule<B> > p; Obj o; double init; };
  static long tt(double t) { return t != t || t > 32000 ? -LIM : (long)std::floor(t * 65536.0); }
  Sched sched() { Sched s; double init = (double)(1 << r.in(0, 12)); if (r.coin(1, 8)) init = 0; static const double al[] = {0.5, 0.25, 1.0, 0.0, 0.75}; int ai = r.below(4); double alpha = al[ai]; s.init = init; s.o.f("init", tt(init)).f("num", ai == 0 ? 1 : ai == 1 ? 1 : ai == 2 ? 1 : 0).f("den", ai == 0 ? 2 : ai == 1 ? 4 : 1);
    if (r.coin()) { int span = r.in(0, 4); double fin = ai >= 2 && r.coin(1, 3) ? 0.0 : (double)(1 << r.in(0, 14)) / 4096; s.p.reset(new moSimpleCoolingSchedule<B>(init, alpha, span, fin)); s.o.f("kind", "simple").f("span", span).f("final", tt(fin)); s.o.f("maxmoves", 0).f("maxidle", 0); }
    else { int a = r.in(1, 5), m = r.in(1, 4), k = r.in(0, 3); s.p.reset(new moDynSpanCoolingSchedule<B>(init, alpha, a, m, k)); s.o.f("kind", "dyn").f("span", a).f("maxmoves", m).f("maxidle", k).f("final", 0); }
    return s; }
  void schedule() { Sched s = sched(); B b; Ev("sched").f("c", s.o); for (int t = 0; t < r.in(1, 2); ++t) { double T = s.p->init(b); Ev("cinit").f("t", tt(T)); for (int k = 0; k < r.in(5, 30); ++k) { bool acc = r.coin(); s.p->update(T, acc); Ev("cool").f("acc", acc).f("t", tt(T)).f("go", (*s.p)(T)); } } }
  void anneal() { landscape(r, r.in(1, 4), r.in(2, 9)); Hood<F> h = hood<F>(r, NB, r.coin(1, 6) ? 1 : 2); Sched s = sched(); int form = r.below(5); bool iter = r.coin(); moIterContinuator<N> ic(r.in(1, 20), false); int cap = 60; moContinuator<N>& c = iter ? (moContinuator<N>&)ic : tc;
    // sa0: no schedule given, only a continuator
    std::unique_ptr<moSA<N> > ls; bool own = true; if (form == 0) { int span = r.in(0, 3); s.init = 16; s.o = Obj(); s.o.f("init", tt(16)).f("num", 1).f("den", 2).f("span", span).f("final", tt(0.25)).f("kind", "simple").f("maxmoves", 0).f("maxidle", 0); ls.reset(new moSA<N>(*h.p, full, ne, 16, 0.5, span, 0.25)); }
    else if (form == 1) ls.reset(new moSA<N>(*h.p, full, ne, *s.p)); else if (form == 2) ls.reset(new moSA<N>(*h.p, full, ne, *s.p, c)); else if (form == 3) ls.reset(new moSA<N>(*h.p, full, ne, *s.p, cs, c)); else { s.o = Obj(); s.o.f("init", 0).f("num", 0).f("den", 1).f("span", 0).f("final", -1).f("kind", "simple").f("maxmoves", 0).f("maxidle", 0); ls.reset(new moSA<N>(*h.p, full, ne, c)); cap = r.in(2, 15); }
    put(base("sa", h.name, h.full, 0).f("c", s.o)); auto* ex = dynamic_cast<moSAexplorer<N>*>(&ls->getNeighborhoodExplorer()); rec.more = [ex](Ev& e) { e.f("t", tt(ex->getTemperature())); }; 
    // keep the temperature exactly representable
    if (form != 4 && cap > 28) cap = 28; go(*ls, r.in(1, 3), cap, own); rec.more = nullptr; }
  void ratio() { landscape(r, r.in(1, 4), r.in(2, 9), r.coin()); for (auto& t : TAB) t = std::abs(t); Hood<F> h = hood<F>(r, NB, r.coin(1, 6) ? 1 : 2); int limit = r.in(0, 20); int form = r.below(3); std::unique_ptr<moMetropolisHasting<N> > ls(form == 0 ? new moMetropolisHasting<N>(*h.p, full, ne, limit) : form == 1 ? new moMetropolisHasting<N>(*h.p, full, ne, limit, tc) : new moMetropolisHasting<N>(*h.p, full, ne, limit, tc, cn, cs)); put(base("mh", h.name, h.full, limit)); go(*ls, r.in(1, 3), r.coin() ? 40 : r.in(1, 10), true); }
  // how often a loss is accepted: d/T in halves for annealing, v/u for ratios
  void rate() { NB = 1; TAB.clear(); int d = r.in(0, 8); bool sa = r.coin(); moRndWithReplNeighborhood<N> w(1); int M = 6000, acc = 0; B b = mk<F>(0, 1); 
    if (sa) { double T = (double)(1 << r.in(0, 4)); TAB = {0, Dir<F>::v ? d : -d}; if (d == 0) return; moSimpleCoolingSchedule<B> c(2.0 * T, 1, 1, 0); 
      // loss d * T at temperature 2 T: exponent d / 2
      TAB[1] = (long)(TAB[1] * T); full(b); moSAexplorer<N> e(w, ne, cs, c); e.initParam(b); for (int t = 0; t < M; ++t) { e(b); acc += e.accept(b); e.moveApplied(false); } Ev("rate").f("kind", "sarate").f("halves", d).f("of", 1).f("n", M).f("acc", acc); }
    else { int u = r.in(2, 9), v = r.in(1, u - 1); TAB = Dir<F>::v ? IV{v, u} : IV{u, v}; full(b); moMetropolisHastingExplorer<N> e(w, ne, cn, cs, 1000); e.initParam(b); for (int t = 0; t < M; ++t) { e(b); acc += e.accept(b); } Ev("rate").f("kind", "mhrate").f("halves", v).f("of", u).f("n", M).f("acc", acc); }
    SEEN.clear(); }
  // ------------------------------------------------------------ tabu
  struct List { std::unique_ptr<moTabuList<N> > p; Obj o; };
  List list() { List l; int w = r.below(5); int size = r.in(1, 4), len = r.in(0, 4); if (w == 0) { l.p.reset(new moSolVectorTabuList<N>(size, len)); l.o.f("kind", "sol").f("size", size).f("lo", len).f("hi", len); }
    else if (w == 1) { l.p.reset(new moNeighborVectorTabuList<N>(size, len)); l.o.f("kind", "nbr").f("size", size).f("lo", len).f("hi", len); }
    else if (w == 2) { size = r.in(1, 5); l.p.reset(new moIndexedVectorTabuList<N>(size, len)); l.o.f("kind", "index").f("size", size).f("lo", len).f("hi", len); }
    else if (w == 3) { size = r.in(1, 5); int hi = len + r.in(0, 2); l.p.reset(new moIndexedVectorTabuList<N>(size, len, hi)); l.o.f("kind", "index").f("size", size).f("lo", len).f("hi", hi); }
    else { size = r.in(1, 5); int rnd = r.in(1, 3); l.p.reset(new moRndIndexedVectorTabuList<N>(size, len, rnd)); l.o.f("kind", "index").f("size", size).f("lo", len).f("hi", len + rnd - 1); }
    l.o.f("w", w); return l; }
  std::vector<long> banned(moTabuList<N>& l, B& b) { std::vector<long> v; for (int i = 0; i < NB; ++i) { N n; n.index(i); B c = b; if (l.check(c, n)) v.push_back(i); } return v; }
  void lists() { NB = r.in(2, 5); List l = list(); Ev("list").f("d", l.o).f("n", NB); B b = mk<F>(r.below(1 << NB), NB); N n; n.index(0); l.p->init(b); Ev("linit").f("x", code(b)).f("ban", banned(*l.p, b));
    for (int t = 0; t < r.in(6, 25); ++t) { int o = r.below(10); n = N(); n.index(r.below(NB)); if (o < 4) { n.move(b); l.p->add(b, n); Ev("ladd").f("x", code(b)).f("m", (long)n.index()).f("ban", banned(*l.p, b)); } else if (o < 9) { l.p->update(b, n); Ev("lupd").f("ban", banned(*l.p, b)); } else { if (r.coin()) l.p->clearMemory(); else l.p->init(b); Ev("linit").f("x", code(b)).f("ban", banned(*l.p, b)); } } }
  struct Flipper : public eoMonOp<B> { Rng& r; bool log = true; Flipper(Rng& r) : r(r) {} bool operator()(B& b) { if (NB == 0 || r.coin(2, 3)) return false; int i = r.below(NB); b[i] = !b[i]; if (log) Ev("div").f("x", code(b)); return true; } };
  void tabu() { landscape(r, r.in(1, 4), r.in(2, 9)); int w = r.below(4); Hood<F> h = hood<F>(r, NB, r.below(3)); List l = list(); int form = r.below(4); moBestImprAspiration<N> asp; moDummyIntensification<N> di; moDummyDiversification<N> dd; Flipper fl(r); moMonOpDiversification<N> md(fl, full); int cap = r.in(1, 14);
    std::unique_ptr<moTS<N> > ls; bool dv = false; if (form == 0) { int size = r.in(1, 4); l.o = Obj(); l.o.f("kind", "nbr").f("size", size).f("lo", 0).f("hi", 0); ls.reset(new moTS<N>(*h.p, full, ne, 1u, (unsigned)size)); l.p.reset(); }
    else if (form == 1) ls.reset(new moTS<N>(*h.p, full, ne, 1u, *l.p)); else if (form == 2) ls.reset(new moTS<N>(*h.p, full, ne, tc, *l.p, asp)); else { dv = r.coin(); moDiversification<N>& v = dv ? (moDiversification<N>&)md : dd; ls.reset(new moTS<N>(*h.p, full, ne, cn, cs, tc, *l.p, di, v, asp)); }
    Obj o = base("ts", h.name, h.full, 0); o.f("d", l.o).f("div", dv); put(o); (void)w; moTSexplorer<N>* ex = &ls->getExplorer(); rec.more = [ex](Ev& e) { e.f("best", fitof(ex->getBest())); }; go(*ls, r.in(1, 2), cap, false); rec.more = nullptr; }
  void diversify() { landscape(r, r.in(1, 4), 6); Flipper fl(r); fl.log = false; full.lazy = r.coin(); moMonOpDiversification<N> md(fl, full); B b = mk<F>(r.below(1 << NB), NB); full(b); for (int t = 0; t < 4; ++t) { md(b); Ev("moved").f("f", fitof(b)).f("v", TAB[code(b)]); } }
};
template <class F> static void all(Rng& r, const std::string& m) { Run<F> u(r);
  if (m == "ts") { u.lists(); u.lists(); u.tabu(); u.tabu(); u.diversify(); }
  else if (m == "sa") { u.schedule(); u.anneal(); u.anneal(); u.ratio(); if (r.coin(1, 3)) u.rate(); }
  else { u.climb(); u.climb(); u.climb(); u.cover(); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); eo::rng.reseed(args().shard + 11); Silence q;
  for (long ep = 0; ep < 40 * args().scale; ++ep) { eo::rng.reseed(r.next() % 100000 + 1); if (ep % 2) all<double>(r, args().mode); else all<eoMinimizingFitness>(r, args().mode); }
  return done(); }
