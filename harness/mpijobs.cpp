// Distributed jobs: a master hands tasks to workers over messages. Ranks are
// processes run one at a time by the stand-in message layer, which draws
// schedules and response orders.
#include "vt.hpp"
#include "fakempi/fakempi.hpp"
#include <eo>
#include <eoPopEvalFunc.h>
#include <mpi/eoMpi.h>
#include <mpi/eoParallelApply.h>
#include <mpi/eoTerminateJob.h>
#include <mpi/eoMultiStart.h>
#include <memory>
#include <map>
using namespace vt; using namespace eo::mpi;
static void put(const Obj& o) { fake::log(js(o)); }

struct Item : public eoserial::Persistent {
  int id = 0, val = 0, mark = 0; std::string text;
  eoserial::Object* pack() const { eoserial::Object* o = new eoserial::Object; o->add("id", eoserial::make(id)); o->add("val", eoserial::make(val)); o->add("mark", eoserial::make(mark)); o->add("text", eoserial::make(text)); return o; }
  void unpack(const eoserial::Object* o) { eoserial::unpack(*o, "id", id); eoserial::unpack(*o, "val", val); eoserial::unpack(*o, "mark", mark); eoserial::unpack(*o, "text", text); }
};
struct Group : public eoserial::Persistent {
  std::vector<Item> v;
  eoserial::Object* pack() const { eoserial::Object* o = new eoserial::Object; o->add("v", eoserial::makeArray<std::vector<Item>, eoserial::SerializablePushAlgorithm>(v)); return o; }
  void unpack(const eoserial::Object* o) { v.clear(); eoserial::unpackArray<std::vector<Item>, eoserial::Array::UnpackObjectAlgorithm>(*o, "v", v); }
};
struct Ind : public EO<double>, public eoserial::Persistent {
  int id = 0, val = 0;
  std::string className() const { return "Ind"; } void printOn(std::ostream& o) const { o << id; } void readFrom(std::istream& i) { i >> id; }
  eoserial::Object* pack() const { eoserial::Object* o = new eoserial::Object; o->add("id", eoserial::make(id)); o->add("val", eoserial::make(val)); bool bad = invalid(); o->add("bad", eoserial::make(bad)); if (!bad) { double f = fitness(); o->add("fit", eoserial::make(f)); } return o; }
  void unpack(const eoserial::Object* o) { eoserial::unpack(*o, "id", id); eoserial::unpack(*o, "val", val); bool bad; eoserial::unpack(*o, "bad", bad); if (bad) invalidate(); else { double f; eoserial::unpack(*o, "fit", f); fitness(f); } }
};
struct Work : public eoUF<Item&, void> { void operator()(Item& x) { put(Obj().f("op", "in").f("i", x.id).f("t", fake::me())); fake::step(); x.val = 2 * x.val + 1; ++x.mark; x.text += "!"; put(Obj().f("op", "out").f("i", x.id).f("t", fake::me())); } };
struct Eval : public eoEvalFunc<Ind> { void operator()(Ind& x) { put(Obj().f("op", "in").f("i", x.id).f("t", fake::me())); fake::step(); x.fitness(2 * x.val + 1); put(Obj().f("op", "out").f("i", x.id).f("t", fake::me())); } };

struct Plan { std::string kind, how; int size, master, packet, rounds, mode; std::vector<int> ws, sizes; bool wrap; int runs, seed, pass; std::string resetk, seedk; uint64_t s; };
static int packets(int n, int p) { return (n + p - 1) / p; }
static AssignmentAlgorithm* algo(const Plan& p, int runs) {
  if (p.how == "dyn-vector") return new DynamicAssignmentAlgorithm(p.ws);
  if (p.how == "dyn-world") return new DynamicAssignmentAlgorithm;
  if (p.how == "dyn-range") return new DynamicAssignmentAlgorithm(p.ws.front(), p.ws.back());
  if (p.how == "dyn-rest") return new DynamicAssignmentAlgorithm(p.ws.front(), REST_OF_THE_WORLD);
  if (p.how == "dyn-unique") return new DynamicAssignmentAlgorithm(p.ws.front());
  if (p.how == "stat-vector") return new StaticAssignmentAlgorithm(p.ws, runs);
  if (p.how == "stat-world") return new StaticAssignmentAlgorithm(runs);
  if (p.how == "stat-range") return new StaticAssignmentAlgorithm(p.ws.front(), p.ws.back(), runs);
  if (p.how == "stat-rest") return new StaticAssignmentAlgorithm(p.ws.front(), REST_OF_THE_WORLD, runs);
  return new StaticAssignmentAlgorithm(p.ws.front(), runs);
}
static bool in(const Plan& p, int r) { return r == p.master || std::find(p.ws.begin(), p.ws.end(), r) != p.ws.end(); }
static std::vector<Item> table(int n, int salt) { std::vector<Item> v(n); for (int i = 0; i < n; ++i) { v[i].id = i + 1; v[i].val = (i * 37 + salt * 11) % 1000; v[i].text = "t" + std::to_string(i); } return v; }
static void ended(const std::vector<Item>& v, const std::vector<Item>& was) { IV ids, marks, vals, w; bool text = true; for (auto& x : v) { ids.push_back(x.id); marks.push_back(x.mark); vals.push_back(x.val); } for (size_t k = 0; k < was.size(); ++k) { w.push_back(was[k].val); if (k < v.size() && v[k].text != was[k].text + "!") text = false; }
  put(Obj().f("op", "end").f("ids", ids).f("marks", marks).f("vals", vals).f("was", w).f("text", text)); }
static void gone(int r) { put(Obj().f("op", "exit").f("t", r)); }

// wrappers that only pass the call on
struct WSend : public SendTaskParallelApply<Item> { void operator()(int w) { (*this->_wrapped)(w); } };
struct WHandle : public HandleResponseParallelApply<Item> { void operator()(int w) { (*this->_wrapped)(w); } };
struct WProc : public ProcessTaskParallelApply<Item> { void operator()() { (*this->_wrapped)(); } };
struct WFin : public IsFinishedParallelApply<Item> { int at = -1; bool operator()() { if (at-- == 0) throw std::runtime_error("asked"); return (*this->_wrapped)(); } };

static void applyjob(const Plan& p, int r) {
  if (!in(p, r)) return;
  bool shot = p.kind != "apply"; Work work;
  std::unique_ptr<AssignmentAlgorithm> a(algo(p, packets(p.sizes[0], p.packet) + p.pass));
  ParallelApplyStore<Item> store(work, p.master, p.packet);
  WSend ws; WHandle wh; WProc wp; WFin wf;
  std::vector<Item> v = table(r == p.master ? p.sizes[0] : 1, p.seed); store.data(v);
  if (p.wrap || p.kind == "throw") { store.wrapSendTask(&ws); store.wrapHandleResponse(&wh); store.wrapProcessTask(&wp); store.wrapIsFinished(&wf); if (p.kind == "throw") wf.at = p.runs; }
  if (r != p.master) { if (shot) { OneShotJob<ParallelApplyData<Item>> j(*a, p.master, store); j.run(); } else { ParallelApply<Item> j(*a, p.master, store); j.run(); } gone(r); return; }
  for (int k = 0; k < p.rounds; ++k) {
    v = table(p.sizes[k], p.seed + k); auto was = v; store.data(v); if (k) a->reinit(packets(p.sizes[k], p.packet));
    put(Obj().f("op", "apply").f("n", p.sizes[k]).f("w", (int)p.ws.size()));
    if (shot) { OneShotJob<ParallelApplyData<Item>> j(*a, p.master, store);
      if (p.kind == "throw") { try { j.run(); ended(v, was); } catch (std::runtime_error&) { IV ids, marks; for (auto& x : v) { ids.push_back(x.id); marks.push_back(x.mark); } put(Obj().f("op", "abort").f("ids", ids).f("marks", marks).f("free", a->availableWorkers())); } }
      else { j.run(); ended(v, was); } }
    else { ParallelApply<Item> j(*a, p.master, store); j.run(); ended(v, was); }
  }
  put(Obj().f("op", "stop"));
  if (!shot) { EmptyJob stop(*a, p.master); if (p.runs % 2) stop.run(); }
}
static void popjob(const Plan& p, int r) {
  if (!in(p, r)) return;
  std::vector<std::string> arg; arg.push_back("p"); bool stat = p.how.substr(0, 4) == "stat"; arg.push_back(stat ? "--parallelize-dynamic=0" : "--parallelize-dynamic=1");
  std::vector<char*> av; for (auto& s : arg) av.push_back(&s[0]);
  eoParser parser(av.size(), av.data()); make_parallel(parser);
  std::unique_ptr<AssignmentAlgorithm> a(algo(p, p.ws.size())); Eval ev;
  std::unique_ptr<ParallelApplyStore<Ind>> own; if (p.wrap) own.reset(new ParallelApplyStore<Ind>(ev, p.master, p.packet));
  std::unique_ptr<eoParallelPopLoopEval<Ind>> pe(p.wrap ? new eoParallelPopLoopEval<Ind>(*a, p.master, own.get()) : new eoParallelPopLoopEval<Ind>(*a, p.master, ev, p.packet));
  if (r != p.master) { eoPop<Ind> dummy; (*pe)(dummy, dummy); pe.reset(); gone(r); return; }
  for (int k = 0; k < p.rounds; ++k) {
    eoPop<Ind> par, off; int n = p.sizes[k]; for (int i = 0; i < n; ++i) { Ind x; x.id = i + 1; x.val = (i * 37 + k * 11) % 1000; x.invalidate(); off.push_back(x); }
    IV was; for (auto& x : off) was.push_back(x.val);
    put(Obj().f("op", "apply").f("n", n).f("w", (int)p.ws.size()));
    (*pe)(par, off);
    IV ids, marks, vals; for (auto& x : off) { ids.push_back(x.id); marks.push_back(x.invalid() ? 0 : 1); vals.push_back(x.invalid() ? -1 : (long)x.fitness()); }
    put(Obj().f("op", "end").f("ids", ids).f("marks", marks).f("vals", vals).f("was", was).f("text", par.empty()));
  }
  put(Obj().f("op", "stop")); pe.reset();
}
// two levels: rank 0 deals groups to ranks 1 and 2, each of which deals the
// items of its group to its own workers
static void sub(std::vector<Item>& v, int boss, int packet) { std::vector<int> w; w.push_back(boss + 2); w.push_back(boss + 4); DynamicAssignmentAlgorithm a(w); Work work; ParallelApplyStore<Item> st(work, boss, packet); st.data(v);
  ParallelApply<Item> j(a, boss, st); j.run(); if (j.isMaster()) EmptyJob stop(a, boss); }
struct Deal : public eoUF<Group&, void> { int packet; explicit Deal(int p) : packet(p) {} void operator()(Group& g) { sub(g.v, Node::comm().rank(), packet); } };
static void rolesjob(const Plan& p, int r) {
  int n = p.sizes[0], k = p.runs; std::vector<Item> all = table(n, p.seed), none(1);
  if (r >= 3) { int boss = (r == 3 || r == 5) ? 1 : 2; // one inner job per group dealt to the boss
    for (;;) { sub(none, boss, p.packet); int more; Node::comm().recv(boss, 7, more); if (!more) break; } gone(r); return; }
  if (r == 0) { std::vector<Group> g(k); for (int i = 0; i < n; ++i) g[i * k / n].v.push_back(all[i]); DynamicAssignmentAlgorithm a(1, 2); Deal d(p.packet); ParallelApplyStore<Group> st(d, 0, 1); st.data(g);
    put(Obj().f("op", "apply").f("n", n).f("w", (int)p.ws.size())); ParallelApply<Group> j(a, 0, st); j.run(); std::vector<Item> v; for (auto& x : g) for (auto& y : x.v) v.push_back(y); ended(v, all); put(Obj().f("op", "stop")); EmptyJob stop(a, 0); return; }
  struct Boss : public eoUF<Group&, void> { int packet, r; bool first = true; void operator()(Group& g) { if (!first) { Node::comm().send(r + 2, 7, 1); Node::comm().send(r + 4, 7, 1); } first = false; sub(g.v, r, packet); } } d; d.packet = p.packet; d.r = r;
  DynamicAssignmentAlgorithm a(1, 2); ParallelApplyStore<Group> st(d, 0, 1); std::vector<Group> dummy; st.data(dummy); ParallelApply<Group> j(a, 0, st); j.run();
  if (d.first) { std::vector<Item> e; sub(e, r, p.packet); }
  Node::comm().send(r + 2, 7, 0); Node::comm().send(r + 4, 7, 0);
}
// independent restarts
struct Seeds : public MultiStartStore<Ind>::GetSeeds { std::vector<int> v; std::vector<int> operator()(int) { return v; } };
struct Climb : public eoAlgo<Ind> { eoContinue<Ind>& c; int k = 0; explicit Climb(eoContinue<Ind>& c) : c(c) {}
  void operator()(eoPop<Ind>& pop) { IV from, to; bool ok = true; for (auto& x : pop) { from.push_back(x.val); if (x.invalid() || x.fitness() != x.val) ok = false; } int g = 0; ++k; int tag = fake::me() * 1000 + k;
    do { ++g; for (auto& x : pop) { x.val += 1 + x.val % 3; x.fitness(x.val); x.id = tag; } fake::step(); } while (c(pop));
    int best = 0; for (auto& x : pop) { to.push_back(x.val); if (x.val > best) best = x.val; }
    put(Obj().f("op", "run").f("t", fake::me()).f("tag", tag).f("from", from).f("to", to).f("gens", g).f("best", best).f("evald", ok)); } };
struct PopEval : public eoPopEvalFunc<Ind> { void operator()(eoPop<Ind>&, eoPop<Ind>& o) { for (auto& x : o) x.fitness(x.val); } };
struct OneEval : public eoEvalFunc<Ind> { void operator()(Ind& x) { x.fitness(x.val); } };
static void multijob(const Plan& p, int r) {
  if (!in(p, r)) return;
  eo::rng.reseed(1000 + r); Silence q;
  eoPop<Ind> pop; for (int i = 0; i < p.sizes[0]; ++i) { Ind x; x.id = 0; x.val = (i * 13 + p.seed) % 50 + 1; x.invalidate(); pop.push_back(x); }
  eoGenContinue<Ind> cont(p.pass); PopEval pe; OneEval oe; Climb climb(cont);
  std::unique_ptr<MultiStartStore<Ind>::ResetAlgo> reset; if (p.resetk == "orig") reset.reset(new ReuseOriginalPopEA<Ind>(cont, pop, pe)); else if (p.wrap) reset.reset(new ReuseSamePopEA<Ind>(cont, pop, oe)); else reset.reset(new ReuseSamePopEA<Ind>(cont, pop, pe));
  std::vector<int> known; std::unique_ptr<MultiStartStore<Ind>::GetSeeds> gs;
  if (p.seedk == "list") { Seeds* s = new Seeds; for (size_t i = 0; i < p.ws.size(); ++i) s->v.push_back(p.seed * 31 + i * 17 + 5); known = s->v; gs.reset(s); }
  else if (p.seedk == "short") { Seeds* s = new Seeds; s->v.push_back(p.seed * 31 + 5); known = s->v; gs.reset(s); }
  else if (p.seedk == "mult") { gs.reset(new MultiplesOfNumber<Ind>(p.seed + 3)); for (size_t i = 0; i < p.ws.size(); ++i) known.push_back((i + 1) * (p.seed + 3)); }
  else if (p.seedk == "random") { gs.reset(new GetRandomSeeds<Ind>(p.seed)); GetRandomSeeds<Ind> other(p.seed); known = other(p.ws.size()); eo::rng.reseed(p.seed); }
  else gs.reset(new DummyGetSeeds<Ind>);
  std::unique_ptr<AssignmentAlgorithm> a(algo(p, p.runs));
  MultiStartStore<Ind> store(climb, p.master, *reset, *gs);
  std::vector<int> order = a->idles();
  MultiStart<Ind> job(*a, p.master, store, p.runs);
  if (r != p.master) { int at = std::find(order.begin(), order.end(), r) - order.begin(); long want = -1; if (at < (int)known.size()) { eoRng g(known[at]); want = g.rand() % 1000000; } long got = eo::rng.rand() % 1000000; put(Obj().f("op", "seed").f("t", r).f("got", got).f("want", want)); }
  job.run();
  if (r == p.master) { IV tags, vals; for (auto& x : job.best_individuals()) { tags.push_back(x.id); vals.push_back(x.invalid() ? -1 : (long)x.fitness()); } put(Obj().f("op", "bests").f("tags", tags).f("vals", vals).f("how", p.how.substr(0, 4))); put(Obj().f("op", "stop")); }
  else gone(r);
}
static void episode(Rng& r, int ep) {
  Plan p; const char* kinds[] = {"apply", "apply", "popeval", "oneshot", "multi", "roles", "throw", "apply", "popeval", "multi"};
  p.kind = kinds[ep % 10]; p.size = r.in(2, 6); p.s = r.next(); p.mode = r.below(3); p.wrap = r.coin(1, 3); p.seed = r.in(1, 500); p.packet = r.in(1, 4); p.runs = r.in(0, 12); p.pass = 0; p.master = 0;
  p.rounds = p.kind == "apply" || p.kind == "popeval" ? r.in(1, 3) : 1;
  for (int k = 0; k < p.rounds; ++k) p.sizes.push_back(r.coin(1, 6) ? r.below(3) : r.in(1, 17));
  const char* hows[] = {"dyn-world", "dyn-vector", "dyn-range", "dyn-rest", "dyn-unique", "stat-world", "stat-vector", "stat-range", "stat-rest", "stat-unique"};
  p.how = hows[r.below(10)]; std::string shape = p.how.substr(p.how.find('-') + 1);
  for (int k = 1; k < p.size; ++k) p.ws.push_back(k);
  if (shape == "vector") { p.master = r.below(p.size); p.ws.clear(); for (int k = 0; k < p.size; ++k) if (k != p.master) p.ws.push_back(k); for (int k = (int)p.ws.size() - 1; k > 0; --k) std::swap(p.ws[k], p.ws[r.below(k + 1)]); if (p.ws.size() > 1 && r.coin()) p.ws.pop_back(); }
  else if (shape == "range") { int a = r.in(1, p.size - 1), b = r.in(a, p.size - 1); p.ws.clear(); for (int k = a; k <= b; ++k) p.ws.push_back(k); }
  else if (shape == "rest") { int a = r.in(1, p.size - 1); p.ws.clear(); for (int k = a; k < p.size; ++k) p.ws.push_back(k); }
  else if (shape == "unique") { p.ws.clear(); p.ws.push_back(r.in(1, p.size - 1)); }
  if (p.kind == "roles") { p.size = 7; p.master = 0; p.ws = {3, 4, 5, 6}; p.sizes[0] = r.in(1, 14); p.runs = r.in(1, std::min(5, p.sizes[0])); p.how = "dyn-range"; }
  if (p.kind == "apply" || p.kind == "oneshot" || p.kind == "throw") p.pass = r.coin() ? 0 : r.below(5);
  if (p.kind == "throw") p.runs = r.below(packets(p.sizes[0], p.packet) + 1);
  if (p.kind == "multi") { p.pass = r.in(1, 4); p.sizes[0] = r.in(1, 5); p.resetk = r.coin() ? "orig" : "same"; const char* sk[] = {"list", "short", "mult", "random", "none"}; p.seedk = sk[r.below(5)]; }
  mark("job " + p.kind + " " + p.how);
  IV orig; if (p.kind == "multi") for (int i = 0; i < p.sizes[0]; ++i) orig.push_back((i * 13 + p.seed) % 50 + 1);
  Ev("new").f("kind", p.kind).f("how", p.how).f("ws", p.ws).f("runs", p.runs).f("reset", p.resetk).f("seeds", p.seedk).f("orig", orig).f("packet", p.packet);
  fake::Outcome o = fake::run(p.size, p.mode, p.s, [&](int me) {
    if (p.kind == "popeval") popjob(p, me); else if (p.kind == "multi") multijob(p, me); else if (p.kind == "roles") rolesjob(p, me); else applyjob(p, me); });
  fputs(o.log.c_str(), file()); count() += std::count(o.log.begin(), o.log.end(), '\n');
  Ev("over").f("left", o.left).f("stuck", o.stuck).f("died", o.died).f("mode", p.mode);
}
// the assignment strategies alone
static void strategy(Rng& r) {
  Plan p; int n = r.in(1, 6); p.how = r.coin() ? "dyn-vector" : "stat-vector"; for (int k = 0; k < n; ++k) p.ws.push_back(k * 3 + r.below(3)); int runs = r.in(0, 15);
  for (int k = n - 1; k > 0; --k) std::swap(p.ws[k], p.ws[r.below(k + 1)]);
  mark("strategy " + p.how);
  Ev("new").f("kind", "assign").f("how", p.how.substr(0, 4)).f("ws", p.ws).f("runs", runs).f("reset", "").f("seeds", "").f("orig", IV()).f("packet", 1);
  std::unique_ptr<AssignmentAlgorithm> a(algo(p, runs)); std::vector<int> busy; int left = runs;
  for (int k = 0; k < 40; ++k) {
    int c = r.below(10);
    if (c < 5) { int w = a->get(); Ev("get").f("w", w); if (w >= 0) busy.push_back(w); }
    else if (c < 8) { if (busy.empty()) continue; int i = r.below(busy.size()); int w = busy[i]; busy.erase(busy.begin() + i); a->confirm(w); Ev("confirm").f("w", w); }
    else if (c == 8) { Ev("idles").f("ws", a->idles()).f("n", a->availableWorkers()); }
    else if (busy.empty() && r.coin()) { int m = r.in(1, 12); a->reinit(m); Ev("reinit").f("runs", m); }
  }
}
int main(int argc, char** argv) {
  init(argc, argv); Rng r(shardseed()); { eo::log << eo::setlevel(eo::quiet); }
  for (int ep = 0; ep < 120 * args().scale; ++ep) guarded("job", [&] { episode(r, ep); });
  for (int ep = 0; ep < 60 * args().scale; ++ep) guarded("strategy", [&] { strategy(r); });
  return done();
}
