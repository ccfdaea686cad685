// Iterated local search and variable neighbourhood search on table landscapes.
#include "mo_ls.hpp"
#include <comparator/moEqualSolComparator.h>
#include <neighborhood/moRndVectorVNSelection.h>
#include <neighborhood/moForwardVectorVNSelection.h>
#include <neighborhood/moBackwardVectorVNSelection.h>
#include <perturb/moNeighborhoodPerturb.h>
#include <perturb/moRestartPerturb.h>
#include <perturb/moMonOpPerturb.h>
#include <perturb/moLocalSearchInit.h>
#include <perturb/moSolInit.h>
#include <algo/moILS.h>
#include <algo/moVNS.h>
template <class F> struct It { typedef eoBit<F> B; typedef moBitNeighbor<F> N; typedef moDummyNeighbor<B> D; Rng& r; Full<F> full; NbEval<F> ne; It(Rng& r) : r(r) {}
  // the inner search, recorded
  struct LogLS : public moSimpleHC<N> { int id; LogLS(moNeighborhood<N>& h, eoEvalFunc<B>& f, moEval<N>& e, int id) : moSimpleHC<N>(h, f, e), id(id) {} bool operator()(B& b) { long x = code(b); bool k = moSimpleHC<N>::operator()(b); Ev("ls").f("id", id).f("b", x).f("a", code(b)).f("f", fitof(b)); return k; } };
  struct LogOp : public eoMonOp<B> { Rng& r; int id, flips; bool inval, quiet = false; LogOp(Rng& r, int id, int flips, bool inval) : r(r), id(id), flips(flips), inval(inval) {} bool operator()(B& b) { long x = code(b); for (int k = 0; k < flips; ++k) { int i = r.below(NB); b[i] = !b[i]; } if (inval) b.invalidate(); if (!quiet) Ev("shake").f("id", id).f("b", x).f("a", code(b)); return flips > 0; } };
  struct LogInit : public eoInit<B> { Rng& r; LogInit(Rng& r) : r(r) {} void operator()(B& b) { b = mk<F>(r.below(1 << NB), NB); Ev("init").f("x", code(b)); } };
  template <class M> struct LogCrit : public moAcceptanceCriterion<M> { moAcceptanceCriterion<M>& in; LogCrit(moAcceptanceCriterion<M>& in) : in(in) {} bool operator()(B& a, B& b) { bool k = in(a, b); Ev("crit").f("a", code(a)).f("fa", fitof(a)).f("b", code(b)).f("fb", fitof(b)).f("res", k); return k; } void init(B& b) { in.init(b); } void add(B& b, M& n) { in.add(b, n); } void update(B& b, M& n) { in.update(b, n); } void clearMemory() { in.clearMemory(); } };
  struct LogPert : public moPerturbation<N> { moPerturbation<N>& in; LogPert(moPerturbation<N>& in) : in(in) {} bool operator()(B& b) { Ev("pbeg").f("x", code(b)).f("f", fitof(b)); bool k = in(b); Ev("pend").f("x", code(b)).f("f", fitof(b)); return k; } void init(B& b) { in.init(b); } void add(B& b, N& n) { in.add(b, n); } void update(B& b, N& n) { in.update(b, n); } void clearMemory() { in.clearMemory(); } };
  template <class M> struct RecM : public moContinuator<M> { int left = 1; moContinuator<M>* inner = 0; void init(B& b) { if (inner) inner->init(b); Ev("begin").f("x", code(b)).f("f", fitof(b)); } bool operator()(B& b) { bool go = inner ? (*inner)(b) : true; if (--left <= 0) go = false; Ev("it").f("x", code(b)).f("f", fitof(b)).f("go", go); return go; } };
  template <class M> struct Crits { moAlwaysAcceptCrit<M> al; moBetterAcceptCrit<M> be; moEqualSolComparator<B> eq; moBetterAcceptCrit<M> nw; Crits() : nw(eq) {} moAcceptanceCriterion<M>& get(int k) { return k == 0 ? (moAcceptanceCriterion<M>&)al : k == 1 ? be : nw; } };
  Obj base(const char* kind, const char* crit) { Obj o; o.f("op", "new").f("kind", kind).f("n", NB).f("dir", Dir<F>::v).f("tab", TAB).f("crit", crit); return o; }
  void put(const Obj& o) { fputs(js(o).c_str(), file()); fputc('\n', file()); ++count(); }
  void ils() { landscape(r, r.in(1, 4), r.in(2, 8)); full.lazy = r.coin(); static const char* cn[] = {"always", "better", "noworse"}; int ck = r.below(3); moOrderNeighborhood<N> oh(NB); LogLS ls(oh, full, ne, 0); Crits<N> cr; LogCrit<N> crit(cr.get(ck)); int form = r.below(6);
    int lo = r.in(0, 3), hi = lo + r.in(1, 3), th = r.in(0, 4); LogOp op(r, 0, r.in(0, 2), r.coin()); LogInit init(r); moMonOpPerturb<N> mp(op, full, lo), mr(op, full, lo, hi); moRestartPerturb<N> rp(init, full, th); moRndWithReplNeighborhood<N> wh(NB); moOrderNeighborhood<N> oh2(NB); NbEval<F> ne2; moNeighborhoodPerturb<N, N> np(r.coin() ? (moNeighborhood<N>&)wh : oh2, ne2);
    moPerturbation<N>& pt = form == 1 ? (moPerturbation<N>&)mp : form == 2 ? (moPerturbation<N>&)mr : form == 3 ? (moPerturbation<N>&)rp : (moPerturbation<N>&)np; LogPert pert(pt); RecM<D> rec; std::unique_ptr<moILS<N> > a; int iters = r.in(1, 10); rec.left = 1 << 30;
    if (form == 0) { a.reset(new moILS<N>(ls, full, op, (unsigned)iters)); rec.inner = a->getContinuator(); ck = 0; } else if (form == 5) { a.reset(new moILS<N>(ls, full, op, (moContinuator<D>&)rec)); ck = 0; } else a.reset(new moILS<N>(ls, full, rec, pert, crit));
    a->setContinuator(rec); put(base("ils", cn[ck]).f("pert", form == 0 || form == 5 ? "one" : form == 1 ? "fixed" : form == 2 ? "range" : form == 3 ? "restart" : "nbh").f("lo", form == 0 || form == 5 ? 1 : lo).f("hi", form == 0 || form == 5 ? 1 : form == 2 ? hi : lo).f("th", th).f("iters", form == 0 ? iters : 0).f("logged", form != 0 && form != 5));
    for (int t = 0; t < r.in(1, 2); ++t) { B b = mk<F>(r.below(1 << NB), NB); rec.left = form == 0 ? 1 << 30 : r.in(1, 10); Ev("start").f("x", code(b)); if (!guarded("iterated local search", [&] { (*a)(b); })) return; Ev("end").f("x", code(b)).f("f", fitof(b)); } }
  void vns() { landscape(r, r.in(1, 4), r.in(2, 8)); full.lazy = r.coin(); static const char* cn[] = {"always", "better", "noworse"}; int ck = r.below(3), m = r.in(1, 4), w = r.below(3); bool cycle = r.coin(); moOrderNeighborhood<N> oh(NB); std::vector<std::unique_ptr<LogLS> > ls; std::vector<std::unique_ptr<LogOp> > sh; for (int i = 0; i < m; ++i) { ls.emplace_back(new LogLS(oh, full, ne, i)); sh.emplace_back(new LogOp(r, i, r.in(0, 2), true)); }
    std::unique_ptr<moVectorVNSelection<B> > sel; bool dflt = cycle && r.coin(); if (w == 0) sel.reset(dflt ? new moForwardVectorVNSelection<B>(*ls[0], *sh[0]) : new moForwardVectorVNSelection<B>(*ls[0], *sh[0], cycle)); else if (w == 1) sel.reset(dflt ? new moBackwardVectorVNSelection<B>(*ls[0], *sh[0]) : new moBackwardVectorVNSelection<B>(*ls[0], *sh[0], cycle)); else sel.reset(dflt ? new moRndVectorVNSelection<B>(*ls[0], *sh[0]) : new moRndVectorVNSelection<B>(*ls[0], *sh[0], cycle)); for (int i = 1; i < m; ++i) sel->add(*ls[i], *sh[i]);
    const char* sn = w == 0 ? "forward" : w == 1 ? "backward" : "random"; B b = mk<F>(r.below(1 << NB), NB); full(b);
    if (r.coin(1, 3)) { // the selection on its own
      auto id = [&] { for (int i = 0; i < m; ++i) if (&sel->getShake() == sh[i].get() && &sel->getLocalSearch() == ls[i].get()) return i; return -1; }; put(base("sel", "always").f("sel", sn).f("m", m).f("cycle", cycle));
      for (int t = 0; t < r.in(1, 3); ++t) { sel->init(b); Ev("sinit").f("id", id()); for (int k = 0; k < r.in(1, 9); ++k) { bool more = sel->cont(b); Ev("scont").f("res", more); if (!more) break; sel->next(b); Ev("snext").f("id", id()); } } return; }
    Crits<N> cr; LogCrit<N> crit(cr.get(ck)); RecM<N> rec; moVNS<N> a(*sel, crit, full, rec); put(base("vns", cn[ck]).f("sel", sn).f("m", m).f("cycle", cycle));
    for (int t = 0; t < r.in(1, 3); ++t) { B b = mk<F>(r.below(1 << NB), NB); if (r.coin()) full(b); rec.left = r.in(1, 14); Ev("start").f("x", code(b)); if (!guarded("variable neighbourhood search", [&] { a(b); })) return; Ev("end").f("x", code(b)).f("f", fitof(b)); } }
  void inits() { landscape(r, r.in(1, 4), 6); full.lazy = r.coin(); LogInit i0(r); moOrderNeighborhood<N> oh(NB); LogLS ls(oh, full, ne, 0); moLocalSearchInit<N> li(i0, ls); put(base("init", "always")); B b; li(b); Ev("inited").f("x", code(b)).f("f", fitof(b)); B src = mk<F>(r.below(1 << NB), NB); if (r.coin()) full(src); moSolInit<B> si(src); si(b); Ev("copied").f("x", code(b)).f("f", fitof(b)).f("y", code(src)).f("g", fitof(src)); }
};
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 60 * args().scale; ++ep) { eo::rng.reseed(r.next() % 100000 + 1); if (ep % 2) { It<double> u(r); u.ils(); u.vns(); u.inits(); } else { It<eoMinimizingFitness> u(r); u.ils(); u.vns(); u.inits(); } }
  return done(); }
