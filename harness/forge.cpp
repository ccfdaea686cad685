// Forges and algorithm foundries: what is built for a selection.
#include "eo_pop.hpp"
#include <es/eoReal.h>
#include <eoForge.h>
#include <eoAlgoFoundry.h>
#include <eoAlgoFoundryEA.h>
#include <eoAlgoFoundryFastGA.h>
#include <eoEvalFoundryEA.h>
#include <map>
#include <set>
typedef Ind<double> E; static long Serial = 0; typedef std::map<std::string, std::set<IV> > Used; static Used used; static IV sizes; static int gens; static double lastBest; static bool ran;
static long objective(const E& x) { long s = 0; for (size_t i = 0; i < x.size(); ++i) s += (long)(i + 1) * x[i]; return s % 97; }
struct Eval : eoEvalFunc<E> { long n; Eval() : n(0) {} void operator()(E& x) { if (x.invalid()) { ++n; x.fitness(objective(x)); } } };
struct Tag { std::string role; IV r; long serial; Tag(const std::string& ro, long t, long p) : role(ro), r{t, p}, serial(++Serial) {} Tag(const Tag& o) : role(o.role), r(o.r), serial(++Serial) {} void hit() const { used[role].insert(r); } std::string nm(const char* b) const { return std::string(b) + std::to_string(r[0]) + "." + std::to_string(r[1]); } };
struct Sel : eoSelectOne<E>, Tag { Sel(std::string ro, int t, int p) : Tag(ro, t, p) {} const E& operator()(const eoPop<E>& p) { hit(); return p[eo::rng.random(p.size())]; } std::string className() const { return nm("Sel"); } };
struct Quad : eoQuadOp<E>, Tag { Quad(std::string ro, int t, int p) : Tag(ro, t, p) {} bool operator()(E& a, E& b) { hit(); a[0] = (a[0] + 1) % 50; b[0] = (b[0] + 2) % 50; return true; } std::string className() const { return nm("Quad"); } };
struct Mon : eoMonOp<E>, Tag { Mon(std::string ro, int t, int p) : Tag(ro, t, p) {} bool operator()(E& a) { hit(); a[0] = (a[0] + 3) % 50; return true; } std::string className() const { return nm("Mon"); } };
struct Rep : eoReplacement<E>, Tag { eoPlusReplacement<E>* pl; Rep(std::string ro, int t, int p) : Tag(ro, t, p), pl(new eoPlusReplacement<E>) {} Rep(const Rep& o) : eoReplacement<E>(), Tag(o), pl(new eoPlusReplacement<E>) {} ~Rep() { delete pl; } void operator()(eoPop<E>& p, eoPop<E>& o) { hit(); sizes.push_back(o.size()); (*pl)(p, o); lastBest = p.best_element().fitness(); ran = true; } std::string className() const { return nm("Rep"); } };
struct Con : eoContinue<E>, Tag { int left; Con(std::string ro, int t, int p) : Tag(ro, t, p), left(p) {} bool operator()(const eoPop<E>&) { hit(); ++gens; return --left > 0; } std::string className() const { return nm("Con"); } };
static void clear(std::initializer_list<const char*> roles) { used.clear(); for (auto r : roles) used[r]; sizes.clear(); gens = 0; ran = false; lastBest = -1; }
static Raw usedjs() { Obj o; for (auto& kv : used) o.f(kv.first.c_str(), IVV(kv.second.begin(), kv.second.end())); return o; }
// plain forges
struct P0 : eoMonOp<E>, Tag { P0() : Tag("x", 0, 0) {} bool operator()(E&) { return false; } }; struct P1 : eoMonOp<E>, Tag { P1(int a) : Tag("x", 1, a) {} bool operator()(E&) { return false; } }; struct P2 : eoMonOp<E>, Tag { P2(int a, double b) : Tag("x", 2 + a, (long)b) {} bool operator()(E&) { return false; } };
template <class F> void addto(F& f, Rng& r, long k) { int a = r.below(5), b = r.below(9); switch (r.below(3)) { case 0: f.template add<P0>(); Ev("put").f("kind", "add0").f("k", k).f("r", IV{0, 0}); break; case 1: f.template add<P1>(a); Ev("put").f("kind", "add1").f("k", k).f("r", IV{1, a}); break; default: f.template add<P2>(a, double(b)); Ev("put").f("kind", "add2").f("k", k).f("r", IV{2 + a, b}); } }
static void vec(Rng& r) { bool cache = r.coin(); eoForgeVector<eoMonOp<E> > f(!cache); mark("eoForgeVector"); Serial = 0; Ev("new").f("kind", cache ? "cached" : "anew").f("cache", cache); auto t = [](eoMonOp<E>& o) -> Tag& { return dynamic_cast<Tag&>(o); };
  for (int s = 0; s < 14; ++s) { int n = f.size(), k = n ? r.below(n) : 0; int w = n ? r.below(10) : 0; if (w < 2) addto(f, r, n); else if (w < 4) { int a = r.below(5), b = r.below(9); int z = r.below(3); if (z == 0) { f.setup<P0>(k); Ev("put").f("kind", "setup0").f("k", k).f("r", IV{0, 0}); } else if (z == 1) { f.setup<P1>(k, a); Ev("put").f("kind", "setup1").f("k", k).f("r", IV{1, a}); } else { f.setup<P2>(k, a, double(b)); Ev("put").f("kind", "setup2").f("k", k).f("r", IV{2 + a, b}); } }
    else if (w < 7) { Tag& g = t(w == 4 ? f.instantiate_from(k) : f.instantiate(k)); Ev("make").f("kind", "make").f("k", k).f("r", g.r).f("serial", g.serial); } else if (w < 9) { auto pt = w == 7 ? f.instantiate_ptr_from(k) : f.instantiate_ptr(k); Ev e("makeptr"); e.f("kind", "makeptr").f("k", k).f("null", !pt); if (pt) { Tag& g = t(*pt); e.f("r", g.r).f("serial", g.serial); } else e.f("r", IV{-1, -1}).f("serial", 0); } else { bool threw = false; try { f.instantiate(n + r.below(3)); } catch (std::exception&) { threw = true; } Ev("refuse").f("kind", "norank").f("k", n).f("threw", threw); } } }
static void map(Rng& r) { bool cache = r.coin(); eoForgeMap<eoMonOp<E> > f(!cache); mark("eoForgeMap"); Serial = 0; Ev("new").f("kind", "map").f("cache", cache); std::vector<std::string> names; auto t = [](eoMonOp<E>& o) -> Tag& { return dynamic_cast<Tag&>(o); };
  for (int s = 0; s < 12; ++s) { int n = names.size(), w = n ? r.below(8) : 0, a = r.below(5), b = r.below(9); if (w < 2) { std::string nm = "op" + std::to_string(n * 7); names.push_back(nm); int z = r.below(3); if (z == 0) f.add<P0>(nm); else if (z == 1) f.add<P1>(nm, a); else f.add<P2>(nm, a, double(b)); Ev("put").f("kind", "named").f("k", nm).f("r", z == 0 ? IV{0, 0} : z == 1 ? IV{1, a} : IV{2 + a, b}); }
    else { std::string nm = names[r.below(n)]; if (w < 4) { int z = r.below(3); if (z == 0) f.setup<P0>(nm); else if (z == 1) f.setup<P1>(nm, a); else f.setup<P2>(nm, a, double(b)); Ev("put").f("kind", "namedsetup").f("k", nm).f("r", z == 0 ? IV{0, 0} : z == 1 ? IV{1, a} : IV{2 + a, b}); } else if (w < 7) { Tag& g = t(f.instantiate(nm)); Ev("make").f("kind", "namedmake").f("k", nm).f("r", g.r).f("serial", g.serial); } else { bool threw = false; try { f.instantiate("nobody"); } catch (std::exception&) { threw = true; } Ev("refuse").f("k", "nobody").f("threw", threw); } } } }
static void scalar(Rng& r) { int lo = r.in(-5, 5), hi = lo + r.below(6); { eoForgeScalar<double> f(lo, hi); int v = r.in(lo * 4, hi * 4); Ev("scalar").f("kind", "scalar").f("v", v).f("got", exactint(f.instantiate(v / 4.0) * 4)); Ev("scalar").f("v", IV{lo, hi}).f("got", IV{exactint(f.min()), exactint(f.max())}); f.setup(lo - 1, hi + 2); Ev("scalar").f("v", IV{lo - 1, hi + 2}).f("got", IV{exactint(f.min()), exactint(f.max())}); f.min(lo); f.max(hi); Ev("scalar").f("v", IV{lo, hi}).f("got", IV{exactint(f.min()), exactint(f.max())}); Ev("scalar").f("v", hi).f("got", exactint(f.instantiate(hi))); Ev("scalar").f("v", lo).f("got", exactint(f.instantiate(lo))); } { eoParameterFoundry<int> f(r.below(9), lo, hi); int v = r.in(lo, hi); Ev("scalar").f("v", v).f("got", f.instantiate(v)); } }
static eoPop<E> pop(Rng& r, int n, eoEvalFunc<E>& ev) { eoPop<E> p; for (int i = 0; i < n; ++i) { E x(2, r.below(40)); ev(x); p.push_back(x); } return p; }
static bool truthful(const eoPop<E>& p, size_t n) { if (p.size() != n) return false; for (auto& x : p) if (x.invalid() || (long)(double)x.fitness() != objective(x)) return false; return true; }
struct Init : eoInit<E> { Rng& r; Init(Rng& r) : r(r) {} void operator()(E& x) { x = E(2, r.below(40)); x.invalidate(); } };
struct Slot { const char* role; std::vector<IV> rec; };
template <class Op, class F> static void fill(Rng& r, F& f, Slot& s, int& tag) { int n = r.in(1, 3); for (int i = 0; i < n; ++i) { int t = ++tag, p = r.in(1, 4); f.template add<Op>(std::string(s.role), t, p); s.rec.push_back(IV{t, p}); } if (r.coin(1, 4)) { int k = r.below(n), t = ++tag, p = r.in(1, 4); f.template setup<Op>(k, std::string(s.role), t, p); s.rec[k] = IV{t, p}; } }
static std::string enc2(const eoAlgoFoundry<E>::Encodings& e) { std::string o; for (auto& x : e) o += x.index() == 0 ? "n" + std::to_string(std::get<size_t>(x)) + " " : "r" + std::to_string(std::get<double>(x)) + " "; return o; }
static void fast(Rng& r) { Eval ev; Init in(r); size_t maxe = r.coin() ? 10000 : r.in(3, 40); eoAlgoFoundryFastGA<E> f(in, ev, maxe); int tag = 0; Slot cs{"crosel", {}}, x{"cross", {}}, ac{"after", {}}, ms{"mutsel", {}}, m{"mut", {}}, rp{"repl", {}}, ct{"cont", {}}; fill<Sel>(r, f.crossover_selectors, cs, tag); fill<Quad>(r, f.crossovers, x, tag); fill<Sel>(r, f.aftercross_selectors, ac, tag); fill<Sel>(r, f.mutation_selectors, ms, tag); fill<Mon>(r, f.mutations, m, tag); fill<Rep>(r, f.replacements, rp, tag); fill<Con>(r, f.continuators, ct, tag); mark("eoAlgoFoundryFastGA");
  for (int q = 0; q < 4; ++q) { double cr = r.below(3) / 2.0, mr = r.below(3) / 2.0; size_t offs = r.below(6), n = r.in(1, 5); auto pick = [&](Slot& s) { return (size_t)r.below(s.rec.size()); }; size_t a = pick(cs), b = pick(x), c = pick(ac), d = pick(ms), e = pick(m), g = pick(rp), h = pick(ct); typename eoAlgoFoundry<E>::Encodings en{cr, a, b, c, mr, d, e, g, h, offs}; f.select(en); Ev("enc").f("kind", "fastenc").f("want", enc2(en)).f("got", enc2(f.encodings()));
    std::ostringstream want; auto nm = [&](const char* l, const char* b2, Slot& s, size_t k) { want << l << ": " << b2 << s.rec[k][0] << "." << s.rec[k][1] << " [" << k << "] + "; }; want << "crossover_rate: " << cr << " + "; nm("crossover_selector", "Sel", cs, a); nm("aftercross_selector", "Sel", ac, c); nm("crossover", "Quad", x, b); want << "mutation_rate: " << mr << " + "; nm("mutation_selector", "Sel", ms, d); nm("mutation", "Mon", m, e); nm("replacement", "Rep", rp, g); nm("continuator", "Con", ct, h); want << "offspring_size: " << offs; if (r.coin()) { Ev("name").f("kind", "fastname").f("want", want.str()).f("got", f.name()); }
    int runs = r.in(1, 2); for (int z = 0; z < runs; ++z) { Eval pre; eoPop<E> p = pop(r, n, pre); clear({"crosel", "cross", "after", "mutsel", "mut", "repl", "cont"}); ev.n = 0; f(p); auto rt = [](double v) { return v == 0 ? 0 : v == 1 ? 1 : 2; }; bool cut = (size_t)ev.n >= maxe; if (sizes.empty() && cut) { used["repl"].insert(rp.rec[g]); used["cont"].insert(ct.rec[h]); } if (cut) { if (cr == 1 && used["crosel"].size()) { used["cross"].insert(x.rec[b]); used["after"].insert(ac.rec[c]); if (mr == 1) used["mut"].insert(m.rec[e]); } }
      Ev("fast").f("kind", cut ? "fastcut" : "fastrun").f("used", usedjs()).f("sel", Obj().f("crosel", cs.rec[a]).f("cross", x.rec[b]).f("after", ac.rec[c]).f("mutsel", ms.rec[d]).f("mut", m.rec[e]).f("repl", rp.rec[g]).f("cont", ct.rec[h])).f("crate", rt(cr)).f("mrate", rt(mr)).f("offs", offs).f("n", n).f("sizes", sizes).f("gens", sizes.size()).f("evals", ev.n).f("max", maxe).f("truthful", truthful(p, n)); } } }
static void ea(Rng& r) { Eval ev; eoPopLoopEval<E> pe(ev); Init in(r); size_t maxg = r.in(1, 5); eoAlgoFoundryEA<E> f(pe, maxg); int tag = 0; Slot x{"cross", {}}, s{"sel", {}}, m{"mut", {}}, rp{"repl", {}}, ct{"cont", {}}; fill<Quad>(r, f.crossovers, x, tag); fill<Sel>(r, f.selectors, s, tag); fill<Mon>(r, f.mutations, m, tag); fill<Rep>(r, f.replacements, rp, tag); fill<Con>(r, f.continuators, ct, tag); mark("eoAlgoFoundryEA"); auto pick = [&](Slot& q) { return (size_t)r.below(q.rec.size()); };
  for (int q = 0; q < 3; ++q) { size_t a = pick(ct), b = pick(x), c = pick(m), d = pick(s), e = pick(rp), n = r.in(1, 5); typename eoAlgoFoundry<E>::Encodings en{a, b, c, d, e}; f.select(en); Ev("enc").f("kind", "eaenc").f("want", enc2(en)).f("got", enc2(f.encodings())); std::ostringstream want; auto nm = [&](const char* b2, Slot& q, size_t k, const char* sep) { want << b2 << q.rec[k][0] << "." << q.rec[k][1] << " [" << k << "]" << sep; }; nm("Con", ct, a, " + "); nm("Quad", x, b, " + "); nm("Mon", m, c, " + "); nm("Sel", s, d, " + "); nm("Rep", rp, e, ""); if (r.coin()) Ev("name").f("kind", "eaname").f("want", want.str()).f("got", f.name());
    int runs = r.in(1, 2); for (int z = 0; z < runs; ++z) { Eval pre; eoPop<E> p = pop(r, n, pre); clear({"cross", "sel", "mut", "repl", "cont"}); f(p); Ev("ea").f("kind", "earun").f("used", usedjs()).f("sel", Obj().f("cross", x.rec[b]).f("sel", s.rec[d]).f("mut", m.rec[c]).f("repl", rp.rec[e]).f("cont", ct.rec[a])).f("maxgen", maxg).f("gens", sizes.size()).f("truthful", truthful(p, n)); } }
  // algorithms as solutions
  typedef eoReal<double> A; eoEvalFoundryEA<A, E> fe(f, in, r.in(1, 5), pe, -5.0); for (int q = 0; q < 6; ++q) { A sol(5, 0.0); IV xs; for (int i = 0; i < 5; ++i) { long v = r.in(-3, 11); xs.push_back(v); sol[i] = v / 4.0; } IV sz{(long)ct.rec.size(), (long)x.rec.size(), (long)m.rec.size(), (long)s.rec.size(), (long)rp.rec.size()}; clear({"cross", "sel", "mut", "repl", "cont"}); fe(sol); IV en; for (auto& y : f.encodings()) en.push_back(std::get<size_t>(y)); Ev("decode").f("kind", ran ? "decoded" : "penalised").f("xs", xs).f("one", 4).f("sizes", sz).f("ran", ran).f("enc", en).f("fit", exactint(sol.fitness())).f("best", exactint(lastBest)).f("penalty", -5); double was = sol.fitness(); clear({}); fe(sol); Ev("kept").f("ran", ran).f("fit", exactint(sol.fitness())).f("before", exactint(was)); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; eo::log << eo::quiet; for (int ep = 0; ep < 50 * args().scale; ++ep) { eo::rng.reseed(r.below(1 << 30)); guarded("episode", [&] { vec(r); map(r); scalar(r); fast(r); ea(r); }); } return done(); }
