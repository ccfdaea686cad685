// What is written as text is what is read back: individuals, populations, state files.
#include <eo>
#include <es.h>
#include <ga.h>
#include <gp/eoParseTree.h>
#include <eoInt.h>
#include <eoDualFitness.h>
#include <eoScalarFitnessAssembled.h>
#include <other/eoString.h>
#include <other/eoExternalEO.h>
#include <utils/eoState.h>
#include <utils/eoHowMany.h>
#include <utils/eoRealVectorBounds.h>
#include <moeo>
#include <mo>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/partition/moBinaryPartition.h>
#include <memory>
#include <map>
#include <fstream>
#include "vt.hpp"
using namespace vt;
static std::map<uint64_t, long> ids;
static long id(double x) { if (x == 0) x = 0; uint64_t b; std::memcpy(&b, &x, 8); auto it = ids.find(b); if (it == ids.end()) it = ids.insert({b, (long)ids.size() + 1}).first; return it->second; }
static double anyreal(Rng& r) { switch (r.below(8)) { case 0: return r.in(-5, 5); case 1: return r.unit(); case 2: return (r.unit() - 0.5) * 1e-7; case 3: return (r.unit() - 0.5) * 1e12; case 4: return 1.0 / (1 + r.below(30)); case 5: return -0.1 * r.below(20); case 6: return (r.coin() ? 1 : -1) * std::ldexp(1 + r.unit(), r.in(-300, 300)); default: return 0; } }
// ---- kinds of fitness
static void fitany(double& f, Rng& r) { f = anyreal(r); }
template <class C> void fitany(eoScalarFitness<double, C>& f, Rng& r) { f = anyreal(r); }
template <class C> void fitany(eoDualFitness<double, C>& f, Rng& r) { f = eoDualFitness<double, C>(anyreal(r), r.coin()); }
template <class C, class T> void fitany(eoScalarFitnessAssembled<double, C, T>& f, Rng& r) { f = eoScalarFitnessAssembled<double, C, T>(3, 0.0); for (int i = 0; i < 3; ++i) f[i] = anyreal(r); f.feasible = r.coin(); f.failed = r.coin(); }
static void fitval(const double& f, IV& o) { o.push_back(id(f)); }
template <class C> void fitval(const eoScalarFitness<double, C>& f, IV& o) { o.push_back(id((double)f)); }
template <class C> void fitval(const eoDualFitness<double, C>& f, IV& o) { o.push_back(id(f.value())); o.push_back(f.is_feasible()); }
template <class C, class T> void fitval(const eoScalarFitnessAssembled<double, C, T>& f, IV& o) { o.push_back(f.size()); for (size_t i = 0; i < f.size(); ++i) o.push_back(id(f[i])); o.push_back(f.feasible); o.push_back(f.failed); }
template <class E> void fitof(E& e, Rng& r) { typedef typename E::Fitness F; if (r.coin(1, 4)) { F f; fitany(f, r); if (r.coin()) e.fitness(f); e.invalidate(); } else { F f; fitany(f, r); e.fitness(f); } }
template <class E> void fitout(const E& e, IV& o) { o.push_back(e.invalid()); if (!e.invalid()) fitval(e.fitness(), o); }
// ---- genotypes
struct Node { int op; Node(int op = 0) : op(op) {} int arity() const { return op < 0 ? 0 : op % 3; } void randomize() {} bool operator==(const Node& n) const { return op == n.op; } bool operator!=(const Node& n) const { return op != n.op; } };
static std::ostream& operator<<(std::ostream& o, const Node& n) { return o << n.op; }
static std::istream& operator>>(std::istream& i, Node& n) { return i >> n.op; }
struct Ext { int a; double b; };
static std::ostream& operator<<(std::ostream& o, const Ext& x) { return o << ' ' << x.a << ' ' << x.b; }
static std::istream& operator>>(std::istream& i, Ext& x) { return i >> x.a >> x.b; }
typedef eoExternalEO<double, Ext> ExtEO;
template <class F> void gene(eoBit<F>& e, Rng& r) { e.resize(r.coin(1, 5) ? 0 : r.in(1, 9)); for (size_t i = 0; i < e.size(); ++i) e[i] = r.coin(); fitof(e, r); }
template <class F> void gene(eoReal<F>& e, Rng& r) { e.resize(r.in(0, 5)); for (auto& x : e) x = anyreal(r); fitof(e, r); }
template <class F> void gene(eoInt<F>& e, Rng& r) { e.resize(r.in(0, 5)); for (auto& x : e) x = r.in(-100000, 100000); fitof(e, r); }
template <class F> void gene(eoEsSimple<F>& e, Rng& r) { e.resize(r.in(0, 4)); for (auto& x : e) x = anyreal(r); e.stdev = anyreal(r); fitof(e, r); }
template <class F> void gene(eoEsStdev<F>& e, Rng& r) { e.resize(r.in(0, 4)); for (auto& x : e) x = anyreal(r); e.stdevs.resize(e.size()); for (auto& x : e.stdevs) x = anyreal(r); fitof(e, r); }
template <class F> void gene(eoEsFull<F>& e, Rng& r) { e.resize(r.in(1, 4)); for (auto& x : e) x = anyreal(r); e.stdevs.resize(e.size()); for (auto& x : e.stdevs) x = anyreal(r); e.correlations.resize(e.size() * (e.size() - 1) / 2); for (auto& x : e.correlations) x = anyreal(r); fitof(e, r); }
template <class F> void gene(eoString<F>& e, Rng& r) { static const char A[] = "ab  cX9_INVALID"; std::string s; int n = r.in(0, 9); for (int i = 0; i < n; ++i) s += A[r.below(15)]; e.assign(s); fitof(e, r); }
static void gene(ExtEO& e, Rng& r) { e.a = r.in(-9, 9); e.b = anyreal(r); fitof(e, r); }
template <class F> void gene(eoParseTree<F, Node>& e, Rng& r) { std::vector<Node> v; std::function<void(int)> grow = [&](int d) { int k = d == 0 ? 0 : r.below(3); v.push_back(Node(k + 3 * r.below(4))); for (int i = 0; i < k; ++i) grow(d - 1); }; grow(r.in(0, 4));
  // trees are stored in reverse prefix order
  std::vector<Node> post; std::function<void(size_t&)> walk = [&](size_t& p) { Node n = v[p++]; for (int i = 0; i < n.arity(); ++i) walk(p); post.push_back(n); }; size_t p = 0; walk(p); gp_parse_tree::parse_tree<Node> t(post.begin(), post.end()); static_cast<gp_parse_tree::parse_tree<Node>&>(e).swap(t); fitof(e, r); }
template <class F> void gene(moBinaryPartition<F>& e, Rng& r) { e.selected.clear(); e.rejected.clear(); int n = r.in(0, 8); for (int i = 0; i < n; ++i) (r.coin() ? e.selected : e.rejected).insert(i); fitof(e, r); }
template <class F> void gene(moBitNeighbor<F>& e, Rng& r) { e.index(r.below(1000)); F f; fitany(f, r); e.fitness(f); }
struct T3 : moeoObjectiveVectorTraits {}; typedef moeoRealObjectiveVector<T3> OV3;
struct MoReal : moeoRealVector<OV3> {}; struct MoBit : moeoBitVector<OV3> {}; struct MoInt : moeoIntVector<OV3> {};
template <class E> void objs(E& e, Rng& r) { if (r.coin(1, 4)) { e.invalidateObjectiveVector(); return; } OV3 o; for (int i = 0; i < 3; ++i) o[i] = anyreal(r); e.objectiveVector(o); }
static void gene(MoReal& e, Rng& r) { e.resize(r.in(0, 4)); for (auto& x : e) x = anyreal(r); objs(e, r); }
static void gene(MoInt& e, Rng& r) { e.resize(r.in(0, 4)); for (auto& x : e) x = r.in(-99, 99); objs(e, r); }
static void gene(MoBit& e, Rng& r) { e.resize(r.coin(1, 5) ? 0 : r.in(1, 7)); for (size_t i = 0; i < e.size(); ++i) e[i] = r.coin(); objs(e, r); }
template <class E> void vec(const E& e, IV& o) { o.push_back(e.size()); for (auto x : e) o.push_back(id(x)); }
template <class F> void val(const eoBit<F>& e, IV& o) { fitout(e, o); vec(e, o); }
template <class F> void val(const eoReal<F>& e, IV& o) { fitout(e, o); vec(e, o); }
template <class F> void val(const eoInt<F>& e, IV& o) { fitout(e, o); vec(e, o); }
template <class F> void val(const eoEsSimple<F>& e, IV& o) { fitout(e, o); vec(e, o); o.push_back(id(e.stdev)); }
template <class F> void val(const eoEsStdev<F>& e, IV& o) { fitout(e, o); vec(e, o); vec(e.stdevs, o); }
template <class F> void val(const eoEsFull<F>& e, IV& o) { fitout(e, o); vec(e, o); vec(e.stdevs, o); vec(e.correlations, o); }
template <class F> void val(const eoString<F>& e, IV& o) { fitout(e, o); vec(static_cast<const std::string&>(e), o); }
static void val(const ExtEO& e, IV& o) { fitout(e, o); o.push_back(e.a); o.push_back(id(e.b)); }
template <class F> void val(const eoParseTree<F, Node>& e, IV& o) { fitout(e, o); o.push_back(e.size()); o.push_back(e.depth()); for (auto it = e.ebegin(); it != e.eend(); ++it) o.push_back(it->op); }
template <class F> void val(const moBinaryPartition<F>& e, IV& o) { fitout(e, o); vec(e.selected, o); vec(e.rejected, o); }
template <class F> void val(const moBitNeighbor<F>& e, IV& o) { fitout(e, o); o.push_back(e.index()); }
template <class E> void moval(const E& e, IV& o) { o.push_back(e.invalidObjectiveVector()); if (!e.invalidObjectiveVector()) for (int i = 0; i < 3; ++i) o.push_back(id(e.objectiveVector()[i])); vec(e, o); }
static void val(const MoReal& e, IV& o) { moval(e, o); } static void val(const MoInt& e, IV& o) { moval(e, o); } static void val(const MoBit& e, IV& o) { moval(e, o); }
template <class E> void gene(eoPop<E>& p, Rng& r) { p.resize(r.coin(1, 6) ? 0 : r.in(1, 5)); for (auto& e : p) gene(e, r); }
template <class E> void val(const eoPop<E>& p, IV& o) { o.push_back(p.size()); for (auto& e : p) val(e, o); }
// ---- other persistent things
static void gene(eoRng& e, Rng& r) { e.reseed(r.below(1000)); e.clearCache(); int n = r.below(50); for (int i = 0; i < n; ++i) r.coin() ? (void)e.rand() : (void)e.normal(); }
static void val(const eoRng& e, IV& o) { eoRng c(1); std::stringstream s; s.precision(17); e.printOn(s); c.readFrom(s); for (int i = 0; i < 6; ++i) o.push_back(id(i % 2 ? c.normal() : c.rand())); }
template <class E> struct Gen : eoGenContinue<E> { Gen() : eoGenContinue<E>(1000) {} std::string className() const { return "eoGenContinue"; } };
typedef Gen<eoBit<double> > GenC;
static void gene(GenC& e, Rng& r) { e.totalGenerations(1000); eoPop<eoBit<double> > p; p.push_back(eoBit<double>(1, true)); int n = r.below(20); for (int i = 0; i < n; ++i) e(p); }
static void val(const GenC& e, IV& o) { o.push_back(e.thisGeneration); }
struct HM : eoHowMany { HM() : eoHowMany(0.5) {} };
static void gene(HM& h, Rng& r) { if (r.coin()) h = (static_cast<eoHowMany&>(h) = eoHowMany(r.below(9) / 8.0), h); else static_cast<eoHowMany&>(h) = eoHowMany(r.in(1, 30), false); }
static void val(const HM& h, IV& o) { HM& m = const_cast<HM&>(h); for (unsigned n : {8u, 64u, 256u}) o.push_back(m(n)); }
struct RB : eoRealVectorBounds { RB() : eoRealVectorBounds(1, 0, 1) {} };
static void gene(RB& b, Rng& r) { std::ostringstream s; s.precision(17); int n = r.in(1, 3); for (int i = 0; i < n; ++i) { if (i) s << ";"; int c = r.in(1, 3); if (c > 1) s << c; double lo = anyreal(r), w = 1 + r.unit(); if (std::fabs(lo) > 1e6 || std::fabs(lo) < 1e-300) lo = r.in(-9, 9); double hi = lo + w; switch (r.below(4)) { case 0: s << "[-inf,+inf]"; break; case 1: s << "[" << lo << ",+inf]"; break; case 2: s << "[-inf," << hi << "]"; break; default: s << "[" << lo << "," << hi << "]"; } } b.resize(0); b.readFrom(s.str()); }
static void val(const RB& cb, IV& o) { RB& b = const_cast<RB&>(cb); o.push_back(b.size()); for (unsigned i = 0; i < b.size(); ++i) { o.push_back(b.isMinBounded(i)); if (b.isMinBounded(i)) o.push_back(id(b.minimum(i))); o.push_back(b.isMaxBounded(i)); if (b.isMaxBounded(i)) o.push_back(id(b.maximum(i))); } }
// a vector of bounds only ever grows when it is read, so it is emptied first
static void prep(RB& b) { b.resize(0); } template <class T> void prep(T&) {}
struct Thing { int kind; std::string cls; virtual ~Thing() {} virtual void fill(Rng&) = 0; virtual IV value() = 0; virtual eoPersistent& obj() = 0; virtual void clean() = 0; };
template <class T> struct Of : Thing { T t; Of(int k, const std::string& c) { kind = k; cls = c; } void fill(Rng& r) { gene(t, r); } IV value() { IV o; o.push_back(kind); val(t, o); return o; } eoPersistent& obj() { return t; } void clean() { prep(t); } };
struct OfRng : Thing { eoRng t; OfRng(int k) : t(1) { kind = k; cls = "Mersenne-Twister"; } void fill(Rng& r) { gene(t, r); } IV value() { IV o; o.push_back(kind); val(t, o); return o; } eoPersistent& obj() { return t; } void clean() {} };
static const int KINDS = 31;
template <class T> Thing* mk(int k, const char* c = 0) { Of<T>* t = new Of<T>(k, ""); eoObject* o = dynamic_cast<eoObject*>(&t->obj()); t->cls = c ? c : o ? o->className() : "#"; return t; }
static Thing* make(int k) { switch (k) {
  case 0: return mk<eoBit<double> >(k); case 1: return mk<eoReal<double> >(k); case 2: return mk<eoReal<eoMinimizingFitness> >(k); case 3: return mk<eoInt<double> >(k); case 4: return mk<eoBit<eoMinimizingDualFitness> >(k);
  case 5: return mk<eoReal<eoMaximizingDualFitness> >(k); case 6: return mk<eoReal<eoAssembledMinimizingFitness> >(k); case 7: return mk<eoEsSimple<eoMinimizingFitness> >(k); case 8: return mk<eoEsStdev<double> >(k); case 9: return mk<eoEsFull<double> >(k);
  case 10: return mk<eoString<double> >(k); case 11: return mk<ExtEO>(k); case 12: return mk<eoParseTree<eoMinimizingFitness, Node> >(k); case 13: return mk<moBinaryPartition<double> >(k); case 14: return mk<moBitNeighbor<eoMinimizingFitness> >(k);
  case 15: return mk<MoReal>(k); case 16: return mk<MoBit>(k); case 17: return mk<MoInt>(k); case 18: return mk<eoPop<eoBit<double> > >(k); case 19: return mk<eoPop<eoReal<eoMinimizingFitness> > >(k);
  case 20: return mk<eoPop<eoBit<eoMinimizingDualFitness> > >(k); case 21: return mk<eoPop<eoEsFull<double> > >(k); case 22: return mk<eoPop<MoBit> >(k); case 23: return mk<eoPop<eoParseTree<eoMinimizingFitness, Node> > >(k); case 24: return new OfRng(k);
  case 25: return mk<GenC>(k); case 26: return mk<HM>(k); case 27: return mk<RB>(k); case 28: return mk<eoPop<eoString<double> > >(k); case 29: return mk<eoPop<eoReal<eoAssembledMinimizingFitness> > >(k); default: return mk<eoPop<MoReal> >(k); } }
typedef std::vector<std::unique_ptr<Thing> > Things;
static void setv(Things& t, int o, Rng& r) { mark("fill kind " + std::to_string(t[o]->kind)); t[o]->fill(r); Ev("set").f("kind", "k" + std::to_string(t[o]->kind)).f("o", o + 1).f("v", t[o]->value()); }
static IVV all(Things& t) { IVV a; for (auto& x : t) a.push_back(x->value()); return a; }
// several objects written one after the other on a stream and read in order into other objects
static void streams(Rng& r) { Ev("forget"); Things t; int n = r.in(1, 6); for (int i = 0; i < n; ++i) { int k = r.below(KINDS); t.emplace_back(make(k)); t.emplace_back(make(k)); }
  for (size_t i = 0; i < t.size(); ++i) setv(t, i, r);
  std::stringstream s; s.precision(17); std::vector<int> q; for (int step = 0; step < 3 * n; ++step) { if (q.empty() || (q.size() < 4 && r.coin())) { int o = r.below(t.size()); if (r.coin(1, 4)) setv(t, o, r); mark("write " + std::to_string(t[o]->kind)); if (r.coin()) t[o]->obj().printOn(s); else s << dynamic_cast<eoPrintable&>(t[o]->obj()); s << (r.coin() ? "\n" : " "); Ev("write").f("kind", "w" + std::to_string(t[o]->kind)).f("o", o + 1).f("v", t[o]->value()); q.push_back(o); }
    else { int from = q[0]; q.erase(q.begin()); int o = r.coin() ? from : (from ^ 1); mark("read " + std::to_string(t[o]->kind)); t[o]->clean(); if (r.coin()) t[o]->obj().readFrom(s); else s >> t[o]->obj(); Ev("read").f("kind", "r" + std::to_string(t[o]->kind)).f("o", o + 1).f("v", t[o]->value()); if (!s) Ev("exception").f("what", "stream failed").f("msg", "kind " + std::to_string(t[o]->kind)); } } }
static std::vector<std::string> sections(const std::string& s) { std::vector<std::string> v; std::istringstream is(s); std::string l; while (std::getline(is, l)) { if (l.compare(0, 9, "\\section{") == 0) v.push_back(""); if (!v.empty()) v.back() += l + "\n"; } return v; }
static void states(Rng& r) { Ev("forget"); Things t; int n = r.in(1, 4); std::vector<std::string> cls; IV ob[2]; std::vector<int> ks; for (int i = 0; i < n; ++i) { int k; do k = r.below(KINDS); while (k == 26 || k == 27); if (i && r.coin(1, 3)) k = ks[r.below(i)]; ks.push_back(k); }
  for (int p = 0; p < 2; ++p) for (int i = 0; i < n; ++i) { t.emplace_back(make(ks[i])); ob[p].push_back(t.size()); if (p == 0) cls.push_back(t.back()->cls); }
  for (size_t i = 0; i < t.size(); ++i) setv(t, i, r);
  // the first program registers everything, the second one possibly less
  eoState st[2] = {eoState(), eoState()}; int m = r.in(1, n); std::vector<std::string> cls2(cls.begin(), cls.begin() + m); IV ob2(ob[1].begin(), ob[1].begin() + m);
  mark("register"); for (int i = 0; i < n; ++i) st[0].registerObject(t[i]->obj()); for (int i = 0; i < m; ++i) st[1].registerObject(t[n + i]->obj());
  std::string dir = args().tmp.empty() ? std::string("/tmp") : args().tmp; std::string f = dir + "/state" + std::to_string(args().shard) + ".sav"; std::string text; { mark("save"); std::ostringstream o; if (r.coin()) { st[0].save(o); text = o.str(); std::ofstream(f.c_str()) << text; } else { st[0].save(f); std::ifstream i(f.c_str()); std::stringstream b; b << i.rdbuf(); text = b.str(); } Ev e("save"); IVV v; for (int i = 0; i < n; ++i) v.push_back(t[i]->value()); e.f("f", 1).f("cls", cls).f("objs", ob[0]).f("v", v); }
  for (size_t i = 0; i < t.size(); ++i) if (r.coin()) setv(t, i, r);
  auto load = [&](int p, const std::string& file, int fn) { mark("load"); std::ifstream in(file.c_str()); if (r.coin()) st[p].load(file); else st[p].load(in); Ev("load").f("kind", p ? "other" : "own").f("f", fn).f("cls", p ? cls2 : cls).f("objs", p ? ob2 : ob[0]).f("all", all(t)); };
  load(0, f, 1); load(1, f, 1); if (r.coin(1, 3)) { setv(t, 0, r); load(0, f, 1); }
  // a file put together by hand: other order, repeated, unknown sections, comments
  { auto sec = sections(text); if ((int)sec.size() == n) { IV order; std::string e; int k = r.in(1, n + 2); for (int i = 0; i < k; ++i) { int j = r.in(0, n); order.push_back(j); if (r.coin(1, 3)) e += "# a remark\n"; e += j == 0 ? std::string("\\section{nobody}\nnothing 12 \n") : sec[j - 1]; if (r.coin(1, 3)) e += "# another remark\n"; } std::ofstream(f.c_str()) << e; Ev("edit").f("f", 2).f("from", 1).f("order", order); for (size_t i = 0; i < t.size(); ++i) if (r.coin(3, 4)) setv(t, i, r); load(r.below(2), f, 2); } }
  std::remove(f.c_str()); }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; eoScalarFitnessAssembledTraits::resize(3, "term"); std::vector<bool> b3(3, true); OV3::setup(3, b3);
  for (int ep = 0; ep < 40 * args().scale; ++ep) { guarded("streams", [&] { streams(r); }); guarded("states", [&] { states(r); }); }
  return done(); }
