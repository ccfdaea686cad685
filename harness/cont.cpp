// Stopping criteria of the evolutionary algorithms, alone and combined.
#include "eo_pop.hpp"
#include <ctime>
#include <eoSecondsElapsedContinue.h>
#include <eoInvertedContinue.h>
#include <eoPeriodicContinue.h>
#include <eoTimeContinue.h>
#include <eoCtrlCContinue.h>
#include <eoSIGContinue.h>
#include <do/make_continue.h>
#include <sharedFitContinue.h>
static time_t gNow = 1000000;      // the clock the code under test sees
extern "C" time_t time(time_t* t) noexcept { if (t) *t = gNow; return gNow; }

template <class F> struct Suite {
  typedef Ind<F> E; typedef eoPop<E> P; enum { D = Dir<F>::v };
  Rng r; Suite(uint64_t s) : r(s) {}
  struct Ev1 : eoEvalFunc<E> { void operator()(E& x) { x.fitness(F(x[0])); } } ev;
  static IV fits(const P& p) { IV o; for (auto& x : p) o.push_back(exactint((double)x.fitness())); return o; }
  long base = 0; static int& nid() { static int n = 0; return n; }
  // population whose best fitness drifts
  P pop() { int n = r.in(1, 6); P p; base += r.coin(1, 3) ? (D ? -1 : 1) : r.coin(1, 6) ? r.in(-2, 2) : 0; for (int i = 0; i < n; ++i) p.push_back(ind<F>(i, r.coin() ? base : r.in(-3, 3))); return p; }
  // a criterion watched on its own
  struct Watched : eoContinue<E> {
    int id; std::string kind; std::unique_ptr<eoContinue<E> > c; eoEvalFuncCounter<E>* ctr; bool said = true; int calls = 0; std::vector<int>* log = nullptr; std::vector<bool>* got = nullptr; int idx = 0;
    bool operator()(const P& p) {
      IV f = fits(p); P before = p; bool a = (*c)(p); long n = -1; ++calls; said = a;
      if (auto* g = dynamic_cast<eoGenContinue<E>*>(c.get())) n = (long)g->value();
      Ev("cask").f("kind", kind).f("id", id).f("fits", f).f("evals", ctr ? (long)ctr->value() : 0L).f("now", (long)(gNow - 1000000)).f("n", n).f("ans", a);
      if (log) log->push_back(idx); if (got) got->push_back(a);
      return a; }
  };
  std::vector<std::unique_ptr<unsigned long> > gens;
  std::unique_ptr<Watched> mk(eoEvalFuncCounter<E>* ctr, int which, int hor) {
    std::unique_ptr<Watched> w(new Watched); w->id = ++nid(); w->ctr = ctr; long a = 0, b = 0, n0 = 0;
    switch (which) {
      case 0: w->kind = "gen"; a = r.in(0, hor); w->c.reset(new eoGenContinue<E>(a)); break;
      case 1: w->kind = "gen"; a = r.in(1, hor); n0 = r.coin() ? 0 : r.in(1, hor + 1); gens.emplace_back(new unsigned long(n0)); w->c.reset(new eoGenContinue<E>(a, *gens.back())); break;
      case 2: w->kind = "fit"; a = r.in(-4, 4); w->c.reset(new eoFitContinue<E>(F(a))); break;
      case 3: w->kind = "steady"; a = r.in(0, hor / 2); b = r.in(0, hor / 3); w->c.reset(new eoSteadyFitContinue<E>(a, b)); break;
      case 4: w->kind = "steady"; a = r.in(0, hor / 2); b = r.in(0, 4); n0 = r.coin() ? 0 : r.in(1, hor); gens.emplace_back(new unsigned long(n0)); w->c.reset(new eoSteadyFitContinue<E>(a, b, *gens.back())); break;
      case 5: w->kind = "evals"; a = r.in(0, 2 * hor); w->c.reset(new eoEvalContinue<E>(*ctr, a)); break;
      case 6: w->kind = "time"; a = r.in(0, 2 * hor); w->c.reset(new eoTimeContinue<E>(a)); break;
      case 7: w->kind = "secs"; a = r.in(0, 2 * hor); w->c.reset(new eoSecondsElapsedContinue<E>((int)a)); break;
      case 8: w->kind = "period"; a = r.in(1, 5); n0 = r.coin() ? 0 : r.in(1, 12); w->c.reset(n0 ? new eoPeriodicContinue<E>(a, n0) : new eoPeriodicContinue<E>(a)); break;
      default: w->kind = "always"; w->c.reset(new eoDummyContinue<E>);
    }
    Ev("cnew").f("kind", w->kind).f("id", w->id).f("a", a).f("b", b).f("n0", n0).f("dir", (int)D).f("now", (long)(gNow - 1000000));
    return w;
  }
  void alone() {
    eoEvalFuncCounter<E> ctr(ev); int hor = r.in(2, 14); auto w = mk(&ctr, r.below(10), hor); int T = r.in(1, hor + 6);
    for (int t = 0; t < T; ++t) {
      for (int k = r.in(0, 3); k > 0; --k) { E x(1, 0); ctr(x); }
      gNow += r.in(0, 3);
      P p = pop(); (*w)(p);
      if (r.coin(1, 8)) {
        if (auto* g = dynamic_cast<eoCountContinue<E>*>(w->c.get())) {
          if (r.coin()) { g->reset(); Ev("creset").f("id", w->id); }
          else { long a = r.in(0, hor), b = 0; IV got; if (auto* q = dynamic_cast<eoGenContinue<E>*>(g)) { q->totalGenerations(a); got = {(long)q->totalGenerations(), 0}; } else if (auto* q2 = dynamic_cast<eoSteadyFitContinue<E>*>(g)) { b = r.in(0, 4); q2->totalGenerations(a, b); got = {(long)q2->minGenerations(), (long)q2->steadyGenerations()}; } Ev("cset").f("id", w->id).f("a", a).f("b", b).f("got", got); }
        } }
      if (r.coin(1, 10)) { // save, restore into a fresh one, go on with that
        auto* g = dynamic_cast<eoGenContinue<E>*>(w->c.get());
        if (g) { std::ostringstream os; static_cast<const eoPersistent*>(static_cast<eoContinue<E>*>(g))->printOn(os); long a = (long)g->totalGenerations(); int from = w->id; std::unique_ptr<eoGenContinue<E> > h(new eoGenContinue<E>(a)); std::istringstream is(os.str()); static_cast<eoPersistent*>(static_cast<eoContinue<E>*>(h.get()))->readFrom(is); w->c = std::move(h); w->id = ++nid(); Ev("ccopy").f("from", from).f("id", w->id).f("a", a); }
        else if (dynamic_cast<eoSecondsElapsedContinue<E>*>(w->c.get())) { std::ostringstream os; w->c->printOn(os); std::unique_ptr<eoSecondsElapsedContinue<E> > h(new eoSecondsElapsedContinue<E>(7777)); std::istringstream is(os.str()); h->readFrom(is); std::ostringstream o2; h->printOn(o2); long st, a; std::istringstream i2(os.str()); i2 >> st >> a; int from = w->id; w->c = std::move(h); w->id = ++nid(); Ev("ccopy").f("from", from).f("id", w->id).f("a", a); }
      }
    }
    Ev("cend").f("kind", w->kind);
  }
  // several criteria together, every part watched; parts that are themselves combinations
  struct Node : eoContinue<E> {
    int n = 0; std::unique_ptr<eoCombinedContinue<E> > c; std::vector<int> calls; std::vector<bool> got; std::vector<std::unique_ptr<eoContinue<E> > > parts; std::vector<int>* ulog = nullptr; std::vector<bool>* ugot = nullptr; int idx = 0;
    bool operator()(const P& p) { calls.clear(); got.clear(); bool a = (*c)(p); std::string g = "["; for (size_t i = 0; i < got.size(); ++i) { if (i) g += ","; g += got[i] ? "true" : "false"; } g += "]"; Ev("comb").f("n", n).f("calls", calls).f("got", Raw{g}).f("out", a); if (ulog) ulog->push_back(idx); if (ugot) ugot->push_back(a); return a; }
  };
  std::unique_ptr<Node> node(eoEvalFuncCounter<E>* ctr, int depth, int hor) {
    std::unique_ptr<Node> z(new Node); z->n = r.in(1, 4); std::vector<eoContinue<E>*> v;
    for (int i = 0; i < z->n; ++i) {
      if (depth > 0 && r.coin(1, 4)) { auto s = node(ctr, depth - 1, hor); s->ulog = &z->calls; s->ugot = &z->got; s->idx = i + 1; v.push_back(s.get()); z->parts.push_back(std::move(s)); }
      else { auto w = mk(ctr, r.below(10), hor); w->log = &z->calls; w->got = &z->got; w->idx = i + 1; v.push_back(w.get()); z->parts.push_back(std::move(w)); }
    }
    if (r.coin()) z->c.reset(new eoCombinedContinue<E>(v)); else { z->c.reset(new eoCombinedContinue<E>(*v[0])); for (int i = 1; i < z->n; ++i) z->c->add(*v[i]); }
    return z;
  }
  void together() {
    eoEvalFuncCounter<E> ctr(ev); int hor = r.in(3, 16); auto z = node(&ctr, 2, hor); int T = r.in(2, hor + 3);
    for (int t = 0; t < T; ++t) { for (int k = r.in(0, 2); k > 0; --k) { E x(1, 0); ctr(x); } gNow += r.in(0, 2); P p = pop(); (*z)(p); }
    Ev("cend").f("kind", "comb");
  }
  void inverted() {
    struct S : eoContinue<E> { bool a = true; int k = 0; bool operator()(const P&) { ++k; return a; } } s; eoInvertedContinue<E> inv(s); eoContinue<E>& c = inv;
    for (int i = 0; i < 4; ++i) { s.a = r.coin(); s.k = 0; P p = pop(); bool o = c(p); Ev("inv").f("got", s.a).f("out", o).f("calls", s.k); }
  }
  // the criterion put together from command-line parameters
  void made() {
    std::vector<std::string> av{"prog"}; std::string ks = "["; int n = 0; int hor = r.in(3, 12);
    auto add = [&](const std::string& k, long a, long b) { if (n++) ks += ","; ks += js(Obj().f("kind", k).f("a", a).f("b", b).f("dir", (int)D)); };
    bool g = r.coin(); long mg = g ? r.in(1, hor) : r.coin() ? 0 : 100; if (mg != 100) av.push_back("--maxGen=" + std::to_string(mg)); if (mg) add("gen", mg, 0);
    if (r.coin()) { long s = r.in(0, 4), m = r.coin() ? r.in(0, 6) : 0; av.push_back("--steadyGen=" + std::to_string(s)); if (m) av.push_back("--minGen=" + std::to_string(m)); add("steady", m, s); }
    if (r.coin()) { long e = r.in(0, 2 * hor); av.push_back("--maxEval=" + std::to_string(e)); if (e) add("evals", e, 0); }
    if (r.coin()) { long f = r.in(-4, 4); av.push_back("--targetFitness=" + std::to_string(f)); add("fit", f, 0); }
    ks += "]"; std::vector<char*> argv; for (auto& s : av) argv.push_back(&s[0]); argv.push_back(nullptr);
    eoParser parser((int)av.size(), argv.data()); eoState state; eoEvalFuncCounter<E> ctr(ev); eoContinue<E>* c = nullptr; bool thrown = false;
    try { c = &do_make_continue(parser, state, ctr); } catch (std::exception&) { thrown = true; }
    if (n == 0) { Ev("refuse").f("kind", "nocrit").f("thrown", thrown); return; }
    if (!c) { Ev("exception").f("what", "make_continue"); return; }
    Ev("mknew").f("ks", Raw{ks});
    for (int t = 0; t < 20; ++t) { for (int k = r.in(0, 2); k > 0; --k) { E x(1, 0); ctr(x); } P p = pop(); IV f = fits(p); bool a = (*c)(p); Ev("mkask").f("fits", f).f("evals", (long)ctr.value()).f("now", 0).f("ans", a); if (!a) break; }
  }
};
static int gCalls = 0; static void onUser(int) { ++gCalls; }
static void sigs(Rng& r) {
  typedef Ind<double> E; eoPop<E> p; p.push_back(ind<double>(0, 1));
  { eoCtrlCContinue<E> c; bool b = c(p) && c(p); bool thrown = false; try { eoCtrlCContinue<E> d; } catch (std::exception&) { thrown = true; } Ev("refuse").f("kind", "ctrlc2").f("thrown", thrown); raise(r.coin() ? SIGINT : SIGQUIT); bool a = c(p); if (!a) a = c(p); Ev("sig").f("kind", "ctrlc").f("before", b).f("after", a).f("calls", 0).f("raised", 0); }
  { eoSIGContinue<E> c(SIGUSR1, onUser); bool b = c(p) && c(p) && gCalls == 0; int raised = r.in(1, 3); bool a = true; for (int i = 0; i < raised; ++i) { raise(SIGUSR1); b = b && gCalls == i; a = a && c(p) && c(p); } Ev("sig").f("kind", "sig").f("before", b).f("after", a).f("calls", gCalls).f("raised", raised); }
}
// one target shared by several populations (islands) asking in turn
template <class F> static void shared(Rng& r) {
  typedef Ind<F> E; int tgt = r.in(-2, 3); paradiseo::smp::SharedFitContinue<E> c((F(tgt))); IVV fs; std::vector<bool> ans;
  for (int k = r.in(1, 6); k > 0; --k) { eoPop<E> p; IV f; for (int i = r.in(1, 4); i > 0; --i) { int v = r.in(-4, 4); f.push_back(v); p.push_back(ind<F>(i, v)); } fs.push_back(f); ans.push_back(c(p)); }
  IV a; for (bool b : ans) a.push_back(b); Ev("shared").f("kind", "shared").f("dir", (int)Dir<F>::v).f("target", tgt).f("fits", fs).f("ans", a);
}
int main(int argc, char** argv) {
  init(argc, argv); Silence q; uint64_t s = shardseed(); int sc = args().scale;
  Suite<double> A(s); Suite<eoMinimizingFitness> B(s + 1);
  for (int i = 0; i < 90 * sc; ++i) {
    guarded("alone", [&] { A.alone(); B.alone(); });
    if (i % 2 == 0) guarded("together", [&] { A.together(); B.together(); });
    if (i % 4 == 0) guarded("made", [&] { A.made(); B.made(); });
    if (i % 10 == 0) guarded("inverted", [&] { A.inverted(); B.inverted(); });
  }
  Rng r(s + 9); for (int i = 0; i < 20 * sc; ++i) guarded("shared", [&] { shared<double>(r); shared<eoMinimizingFitness>(r); });
  guarded("signals", [&] { sigs(r); });
  return done();
}
