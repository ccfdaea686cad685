// Islands exchanging individuals: who sends what to whom, and what arrives.
#include <smp>
#include <eo>
#include <topology/customStochasticTopology.h>
#include <islandModelWrapper.h>
#include <mutex>
#include <thread>
#include <atomic>
#include <chrono>
#include <memory>
#include "vt.hpp"
using namespace vt; using namespace paradiseo::smp;

struct Ind : public EO<double> { int id = 0, msg = 0; };
struct Far : public EO<double> { int code = 0, msg = 0; };          // another representation of the same individuals
static int key(const Ind& x) { return x.id; } static int key(const Far& x) { return x.code - 5000; }
static void make(Ind& x, int id) { x.id = id; } static void make(Far& x, int id) { x.code = id + 5000; }
static Far toFar(Ind& b) { Far x; x.code = b.id + 5000; x.msg = b.msg; if (!b.invalid()) x.fitness(b.fitness()); return x; }
static Ind toBase(Far& f) { Ind x; x.id = f.code - 5000; x.msg = f.msg; if (!f.invalid()) x.fitness(f.fitness()); return x; }
static std::mutex gm;
template <class T> static IV keys(const eoPop<T>& p) { IV o; for (auto& x : p) o.push_back(key(x)); return o; }
typedef std::chrono::steady_clock Clock;

// what the islands of one run share: the phases they go through together
struct Shared {
  int n = 0, early = -1; bool gated = true; int phases = 1; std::atomic<int> phase{1}; std::atomic<long> emitted{0}, integrated{0}; std::vector<long> quota, expected; std::vector<Clock::time_point> limit; std::function<void()> change; IslandModel<Ind>* model = nullptr; std::atomic<int> msgs{0};
  bool over() { // gated runs: TRUE when all phases are through (or time is up)
    int p = phase; if (p > phases) return true;
    if (Clock::now() > limit.at(p - 1)) { phase = 99; return true; }
    if (emitted >= quota.at(p - 1) && integrated >= expected.at(p - 1)) { int q = p; if (p == phases) phase = 99; else { std::lock_guard<std::mutex> g(turn); if (phase == q) { if (change) change(); phase = q + 1; } } }
    return phase > phases;
  }
  std::mutex turn;
};
template <class T> struct Steps : public eoAlgo<T> { eoContinue<T>& c; Steps(eoContinue<T>& _c, eoEvalFunc<T>&) : c(_c) {} void operator()(eoPop<T>& p) { while (c(p)) ; } };
template <class T> struct Eval : public eoEvalFunc<T> { int i; void operator()(T& x) { if (x.invalid()) x.fitness(key(x) * 10 + i); } };
template <class T> struct Cont : public eoContinue<T> {
  int i; Shared* s; Rng r; int gens = 0; IV last; std::function<IVV()> tally; Cont(int _i, Shared* _s, uint64_t seed) : i(_i), s(_s), r(seed) {}
  bool operator()(const eoPop<T>& p) {
    bool stop = s->gated && i != s->early ? s->over() : --gens <= 0;
    IV now = keys(p);
    if (stop || now != last) { std::lock_guard<std::mutex> g(gm); IVV t = tally(); Ev(stop ? "stop" : "gen").f("i", i).f("pop", now).f("asked", t[0]).f("fired", t[1]).f("chosen", t[2]); last = now; }
    if (!stop) { switch (r.below(6)) { case 0: std::this_thread::yield(); break; case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(200))); break; default: if (s->gated) std::this_thread::sleep_for(std::chrono::microseconds(20)); } }
    return !stop;
  }
  std::string className() const { return "Cont"; }
};
// fires `left' times in each phase
template <class T> struct Crit : public eoContinue<T> { Shared* s; Rng r; int per, left, phase = 1; long asked = 0, fired = 0; Crit(Shared* _s, uint64_t seed, int k) : s(_s), r(seed), per(k), left(k) {} bool operator()(const eoPop<T>&) { ++asked; int p = s->phase; if (p > s->phases && s->gated) return true; if (p != phase && s->gated) { phase = p; left = per; } if (left > 0 && r.coin()) { --left; ++fired; return false; } return true; } std::string className() const { return "Crit"; } };
template <class T> struct Sel : public eoSelect<T> {
  int i; Shared* s; Rng r; long chosen = 0; Sel(int _i, Shared* _s, uint64_t seed) : i(_i), s(_s), r(seed) {}
  void operator()(const eoPop<T>& p, eoPop<T>& out) {
    int m = i * 1000 + ++s->msgs; IV ids; out.clear(); ++chosen;
    for (int k = r.in(1, 3); k > 0; --k) { T x = p[r.below(p.size())]; x.msg = m; out.push_back(x); ids.push_back(key(x)); }
    { std::lock_guard<std::mutex> g(gm); Ev("emit").f("i", i).f("m", m).f("ids", ids).f("pop", keys(p)).f("running", s->model && s->model->isRunning()); }
    if (i != s->early) ++s->emitted;
  }
};
template <class T> struct Integ : public eoReplacement<T> {
  int i; Shared* s; Integ(int _i, Shared* _s) : i(_i), s(_s) {}
  void operator()(eoPop<T>& p, eoPop<T>& off) {
    IV before = keys(p), ids = keys(off), msgs, fits; for (auto& x : off) { msgs.push_back(x.msg); fits.push_back(x.invalid() ? -1 : exactint(x.fitness())); }
    size_t n = p.size(); eoPop<T> q; for (auto& x : off) q.push_back(x); for (auto& x : p) q.push_back(x); q.resize(n); for (auto& x : q) x.msg = 0; p.swap(q);
    { std::lock_guard<std::mutex> g(gm); Ev("integ").f("i", i).f("before", before).f("ids", ids).f("msgs", msgs).f("fits", fits).f("after", keys(p)); }
    if (i != s->early && (msgs.empty() || msgs[0] / 1000 != s->early)) ++s->integrated;
  }
};
struct Node { virtual ~Node() {} AIsland<Ind>* isl = nullptr; virtual IV pop() = 0; virtual IV view() = 0; virtual void again() = 0; };
template <class T, class I> struct NodeOf : public Node {
  eoPop<T> p; Eval<T> ev; Cont<T> ct; std::vector<std::unique_ptr<Crit<T>>> cr; std::vector<std::unique_ptr<Sel<T>>> se; Integ<T> in; MigPolicy<T> mp; std::unique_ptr<I> island; IV ks;
  NodeOf(int i, Shared* s, Rng& r, const IV& ks0, int size) : ct(i, s, r.next()), in(i, s), ks(ks0) {
    for (int k = 0; k < size; ++k) { T x; make(x, 1 + i * 20 + k); p.push_back(x); } ev.i = i; for (auto& x : p) ev(x);
    for (long k : ks) { cr.emplace_back(new Crit<T>(s, r.next(), (int)k)); se.emplace_back(new Sel<T>(i, s, r.next())); mp.push_back(PolicyElement<T>(*se.back(), *cr.back())); }
    ct.tally = [this] { IVV t(3); for (auto& c : cr) { t[0].push_back(c->asked); t[1].push_back(c->fired); } for (auto& x : se) t[2].push_back(x->chosen); return t; };
    build(); isl = island.get(); ct.gens = 1 + r.below(60);
  }
  void build();
  IV pop() { return keys(p); } IV view() { return keys(island->getPop()); } void again() { for (size_t k = 0; k < ks.size(); ++k) { cr[k]->left = cr[k]->per; cr[k]->phase = 1; } ct.gens = 1 + ct.r.below(60); ct.last.clear(); }
};
template <> void NodeOf<Ind, Island<Steps, Ind>>::build() { island.reset(new Island<Steps, Ind>(p, in, mp, ct, ev)); }
template <> void NodeOf<Far, Island<Steps, Far, Ind>>::build() { island.reset(new Island<Steps, Far, Ind>(toFar, toBase, p, in, mp, ct, ev)); }

struct Topo { std::unique_ptr<AbstractTopology> t; std::string kind; int c = 0; IVV m; std::vector<IV> nb; };
static Topo topology(Rng& r, int n, int which) {
  Topo o; o.nb.resize(n); auto all = [&] { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) o.nb[i].push_back(j); };
  switch (which) {
  case 0: o.kind = "complete"; o.t.reset(new Topology<Complete>); all(); break;
  case 1: o.kind = "ring"; o.t.reset(new Topology<Ring>); if (n > 1) for (int i = 0; i < n; ++i) o.nb[i].push_back((i + 1) % n); break;
  case 2: { o.kind = "star"; o.c = r.below(n); auto* t = new Topology<Star>; t->getBuilder().setCenter(o.c); o.t.reset(t); for (int i = 0; i < n; ++i) if (i != o.c) o.nb[i].push_back(o.c); break; }
  case 3: { o.kind = "mesh"; o.t.reset(new Topology<Mesh>); int h = 1; for (int k = 1; k * k <= n; ++k) if (n % k == 0) h = k; int w = n / h; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (std::abs(i / w - j / w) + std::abs(i % w - j % w) == 1) o.nb[i].push_back(j); break; }
  case 4: { o.kind = "hyper"; o.t.reset(new Topology<Hypercubic>); for (int i = 0; i < n; ++i) for (int b = 1; b < n; b *= 2) o.nb[i].push_back(i ^ b); break; }
  default: { o.kind = "matrix"; std::string txt; for (int i = 0; i < n; ++i) { IV row; for (int j = 0; j < n; ++j) { bool e = i != j && r.coin(); row.push_back(e); if (e) o.nb[i].push_back(j); txt += e ? "1 " : "0 "; } o.m.push_back(row); txt += "\n"; } std::string f = args().tmp + "/m" + std::to_string(r.below(1000000)) + ".txt"; { std::ofstream s(f); s << txt; } if (which == 5) o.t.reset(new CustomBooleanTopology(f)); else o.t.reset(new CustomStochasticTopology(f)); }
  }
  return o;
}
static void tell(const char* op, const Topo& t, int n, bool gated, int early, const std::vector<std::unique_ptr<Node>>* nodes) {
  std::lock_guard<std::mutex> g(gm); Ev e(op); e.f("kind", t.kind).f("n", n).f("c", t.c).f("m", t.m).f("gated", gated).f("early", early); if (nodes) { IVV ps; for (auto& x : *nodes) ps.push_back(x->pop()); e.f("pops", ps); }
}
static void archipelago(Rng& r, bool gated) {
  mark(gated ? "gated" : "free"); int which = r.below(7), n = which == 4 ? 1 << r.below(3) : r.in(1, 5); Topo t1 = topology(r, n, which); Shared s; s.n = n; s.gated = gated; if (gated && n > 2 && r.coin(1, 3)) s.early = r.below(n); bool change = gated && s.early < 0 && r.coin(1, 2) && n > 1 && t1.kind != "star" && t1.kind != "matrix"; int w2 = n == 3 || n == 5 ? r.below(4) : r.below(6); Topo t2; if (change) t2 = topology(r, n, w2);
   s.phases = change ? 2 : 1;
  IslandModel<Ind> model(*t1.t); s.model = &model; std::vector<std::unique_ptr<Node>> nodes; std::vector<IV> ks; bool het = r.coin(1, 3);
  for (int i = 0; i < n; ++i) { IV k; for (int e = r.in(1, 2); e > 0; --e) k.push_back(r.in(0, 3)); ks.push_back(k); if (het && i % 2) nodes.emplace_back(new NodeOf<Far, Island<Steps, Far, Ind>>(i, &s, r, k, r.in(3, 6))); else nodes.emplace_back(new NodeOf<Ind, Island<Steps, Ind>>(i, &s, r, k, r.in(3, 6))); model.add(*nodes.back()->isl); }
  tell("new", t1, n, gated, s.early, &nodes);
  int runs = s.early < 0 && !change && t1.kind != "matrix" && r.coin(1, 3) ? 2 : 1;
  for (int run = 0; run < runs; ++run) {
    s.phase = 1; s.emitted = 0; s.integrated = 0; s.quota.clear(); s.expected.clear(); s.limit.clear(); long q = 0, x = 0;
    for (int p = 0; p < s.phases; ++p) { for (int i = 0; i < n; ++i) if (i != s.early) for (long k : ks[i]) { q += k; for (long j : (p ? t2 : t1).nb[i]) if (j != s.early) x += k; } s.quota.push_back(q); s.expected.push_back(x); s.limit.push_back(Clock::now() + std::chrono::seconds(6 * (p + 1))); }
    s.change = [&] { model.setTopology(*t2.t); tell("retopo", t2, n, true, s.early, nullptr); };
    if (run) for (auto& x : nodes) x->again();
    { std::lock_guard<std::mutex> g(gm); Ev("run").f("kind", s.early >= 0 ? "early" : het ? "het" : "hom"); }
    model();
    { std::lock_guard<std::mutex> g(gm); IVV ps, vs; for (auto& x : nodes) { ps.push_back(x->pop()); vs.push_back(x->view()); } Ev("end").f("kind", run ? "rerun" : "first").f("pops", ps).f("views", vs).f("running", model.isRunning()); }
  }
}
static void alone(Rng& r) {
  mark("alone"); Shared s; s.gated = false; s.n = 1; NodeOf<Ind, Island<Steps, Ind>>* x; std::vector<std::unique_ptr<Node>> v; v.emplace_back(x = new NodeOf<Ind, Island<Steps, Ind>>(0, &s, r, IV{2}, 4)); Topo t; t.kind = "alone"; tell("new", t, 1, false, -1, &v); Ev("run"); (*x->island)(); IVV p{x->pop()}; Ev("end").f("pops", p).f("views", p).f("running", !x->island->isStopped());
}
static void wrapper(Rng& r) {
  mark("wrapper"); int n = r.in(1, 4), size = r.in(2, 6); std::atomic<int> stops{0};
  struct Init : public eoInit<Ind> { int k = 0; void operator()(Ind& x) { x.id = ++k; x.fitness(k); } } init;
  struct C : public eoContinue<Ind> { std::atomic<int>* s; static int& left() { thread_local int k = 8; return k; } bool operator()(const eoPop<Ind>&) { if (--left() > 0) return true; left() = 8; ++*s; return false; } std::string className() const { return "C"; } } cont; cont.s = &stops;
  struct Every : public eoContinue<Ind> { bool operator()(const eoPop<Ind>&) { return false; } std::string className() const { return "E"; } } every; struct First : public eoSelect<Ind> { void operator()(const eoPop<Ind>& p, eoPop<Ind>& o) { o.resize(1); o[0] = p[0]; } } first;
  struct In : public eoReplacement<Ind> { void operator()(eoPop<Ind>& p, eoPop<Ind>& o) { if (!o.empty()) p.back() = o[0]; } } in; struct E1 : public eoEvalFunc<Ind> { void operator()(Ind& x) { x.fitness(x.id); } } ev;
  MigPolicy<Ind> mp; mp.push_back(PolicyElement<Ind>(first, every)); Topology<Complete> topo;
  std::vector<eoPop<Ind>> pops = IslandModelWrapper<Steps, Ind>(n, topo, size, init, in, mp, cont, ev); IV sz; for (auto& p : pops) sz.push_back(p.size()); Ev("wrap").f("kind", "wrap").f("n", n).f("size", size).f("sizes", sz).f("stops", (int)stops);
}
int main(int argc, char** argv) {
  init(argc, argv); Rng r(shardseed()); Silence q;
  for (int ep = 0; ep < 20 * args().scale; ++ep) guarded("episode", [&] { archipelago(r, true); archipelago(r, true); archipelago(r, false); if (ep % 4 == 0) { alone(r); wrapper(r); } });
  return done();
}
