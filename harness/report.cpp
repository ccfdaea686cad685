// What variation operators report about the changes they make, applied directly and through every wrapper.
#include <gp/eoParseTree.h>
#include <eo>
#include <ga.h>
#include <es.h>
#include <ga/eoStandardBitMutation.h>
#include <es/eoRealInitBounded.h>
#include <es/eoRealOp.h>
#include <es/eoNormalMutation.h>
#include <es/eoRealAtomXover.h>
#include <es/eoEsStandardXover.h>
#include <es/eoEsGlobalXover.h>
#include <es/eoEsChromInit.h>
#include <es/eoEsMutate.h>
#include <eoInt.h>
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <eoTwoOptMutation.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include <eoVariableLengthCrossover.h>
#include <eoVariableLengthMutation.h>
#include <eoFlOrMonOp.h>
#include <eoRealToIntMonOp.h>
#include <eoRealToIntQuadOp.h>
#include <eoInvalidateOps.h>
#include <eoCloneOps.h>
#include <memory>
#include <map>
#include "vt.hpp"
#include "eo_extreme.hpp"
using namespace vt;
static std::map<uint64_t, long> ids;
static long id(double x) { uint64_t b; if (x == 0) x = 0; std::memcpy(&b, &x, 8); auto it = ids.find(b); if (it == ids.end()) it = ids.insert({b, (long)ids.size() + 1}).first; return it->second; }
struct Node { int a, t; Node(int a = 0, int t = 0) : a(a), t(t) {} int arity() const { return a; } void randomize() {} bool operator==(const Node& o) const { return a == o.a && t == o.t; } };
static std::ostream& operator<<(std::ostream& o, const Node& n) { return o << n.a << ' ' << n.t; }
static std::istream& operator>>(std::istream& i, Node& n) { return i >> n.a >> n.t; }
typedef eoParseTree<double, Node> Tree;
template <class X> IV enc(const X& x) { IV v; for (size_t i = 0; i < x.size(); ++i) v.push_back(id((double)x[i])); return v; }
static IV enc(const eoEsSimple<double>& x) { IV v; for (double d : x) v.push_back(id(d)); v.push_back(id(x.stdev)); return v; }
static IV enc(const eoEsStdev<double>& x) { IV v; for (double d : x) v.push_back(id(d)); for (double d : x.stdevs) v.push_back(id(d)); return v; }
static IV enc(const eoEsFull<double>& x) { IV v; for (double d : x) v.push_back(id(d)); for (double d : x.stdevs) v.push_back(id(d)); for (double d : x.correlations) v.push_back(id(d)); return v; }
static IV enc(const Tree& x) { IV v; for (auto i = x.ebegin(); i != x.eend(); ++i) v.push_back((*i).a * 100 + (*i).t); return v; }
static void arm(Rng& r) { eo::rng.reseed(r.next() % 1000000 + 1); eo::rng.clearCache(); if (r.coin(1, 3)) { std::vector<uint32_t> d; int k = r.in(1, 5); for (int i = 0; i < k; ++i) d.push_back(r.coin() ? 0u : 0xffffffffu); nextdraws(eo::rng, d, r.next() % 100000 + 1); } }
template <class X> struct Rep { Rng& r; Rep(Rng& r) : r(r) {}
  static Raw rec(const X& x) { Obj o; o.f("g", enc(x)).f("v", !x.invalid()).f("f", x.invalid() ? 0L : exactint((double)x.fitness())); return o; }
  static Raw recs(std::initializer_list<const X*> p) { std::string s = "["; for (auto* x : p) { if (s.size() > 1) s += ","; s += rec(*x).s; } return Raw{s + "]"}; }
  struct RMon : eoMonOp<X> { eoMonOp<X>& o; bool got = false; RMon(eoMonOp<X>& o) : o(o) {} bool operator()(X& x) { return got = o(x); } };
  struct RBin : eoBinOp<X> { eoBinOp<X>& o; bool got = false; RBin(eoBinOp<X>& o) : o(o) {} bool operator()(X& x, const X& y) { return got = o(x, y); } };
  struct RQuad : eoQuadOp<X> { eoQuadOp<X>& o; bool got = false; RQuad(eoQuadOp<X>& o) : o(o) {} bool operator()(X& x, X& y) { return got = o(x, y); } };
  struct InTurn : eoSelectOne<X> { size_t k = 0; const X& operator()(const eoPop<X>& p) { return p[k++ % p.size()]; } };
  void fit(X& x) { if (r.coin(4, 5)) x.fitness(r.in(1, 9)); else x.invalidate(); }
  // a wrapper that applies operator "got" to the first individuals of src
  template <class G> void through(const std::string& kind, const char* how, eoOp<X>& op, G& got, eoPop<X> src, bool two) { eoPop<X> dest; InTurn it; eoSelectivePopulator<X> plop(src, dest, it); eoFunctorStore fs; eoPop<X> src0 = src; int w = r.below(3); std::unique_ptr<eoSequentialOp<X> > sq; std::unique_ptr<eoProportionalOp<X> > pr; eoOp<X>* o = &op; if (w == 1) { sq.reset(new eoSequentialOp<X>); sq->add(op, 1.0); o = sq.get(); } if (w == 2) { pr.reset(new eoProportionalOp<X>); pr->add(op, 1.0); o = pr.get(); }
    eoGenOp<X>& g = wrap_op<X>(*o, fs); arm(r); mark("applied through " + kind); g(plop); bool quad = std::string(how) == "quad"; Ev("wrap").f("kind", kind).f("via", w == 0 ? "genop" : w == 1 ? "sequence" : "proportional").f("how", how).f("a", two ? recs({&src0[0], &src0[1]}) : recs({&src0[0]})).f("b", two ? recs({&dest[0], quad ? &dest[1] : &src[1]}) : recs({&dest[0]})).f("ret", got.got).f("known", true).f("inner", got.got); }
  void mon(const std::string& kind, eoMonOp<X>& op, X x, bool self = false) { fit(x); X a = x; arm(r); mark("mutation " + kind); bool ret = op(a); Ev("rep").f("kind", kind).f("how", "mon").f("a", recs({&x})).f("b", recs({&a})).f("ret", ret);
    { RMon m(op); eoInvalidateMonOp<X> w(m); a = x; arm(r); ret = w(a); Ev("wrap").f("kind", kind).f("via", "invalidate").f("how", "mon").f("a", recs({&x})).f("b", recs({&a})).f("ret", ret).f("known", true).f("inner", m.got); }
    { RMon m(op); eoPop<X> p; p.push_back(x); through(kind, "mon", m, m, p, false); }
    { eoMonCloneOp<X> c; RMon m1(op), m2(op); eoPropCombinedMonOp<X> w(m1, 0.5); w.add(m2, 1.0); w.add(c, 0.5); a = x; arm(r); ret = w(a); Ev("adapt").f("kind", "combined-mon").f("how", "mon").f("a", recs({&x})).f("b", recs({&a})).f("ret", ret).f("any", m1.got || m2.got); }
    { X y = x; fit(y); X b = y; a = x; RMon m1(op), m2(op); bool one = r.coin(); eoMon2QuadOp1<X> q1(m1); eoMon2QuadOp2<X> q2(m2); arm(r); ret = one ? q1(a, b) : q2(a, b); Ev("adapt").f("kind", one ? "mon2quad1" : "mon2quad2").f("how", "quad").f("a", recs({&x, &y})).f("b", recs({&a, &b})).f("ret", ret).f("any", m1.got || m2.got); } }
  void bin(const std::string& kind, eoBinOp<X>& op, X x, X y) { fit(x); fit(y); X a = x, b = y; arm(r); mark("crossover " + kind); bool ret = op(a, b); Ev("rep").f("kind", kind).f("how", "bin").f("a", recs({&x, &y})).f("b", recs({&a, &b})).f("ret", ret);
    { RBin m(op); eoInvalidateBinOp<X> w(m); a = x; arm(r); ret = w(a, b); Ev("wrap").f("kind", kind).f("via", "invalidate").f("how", "bin").f("a", recs({&x, &y})).f("b", recs({&a, &b})).f("ret", ret).f("known", true).f("inner", m.got); }
    { RBin m(op); eoPop<X> p; p.push_back(x); p.push_back(y); through(kind, "bin", m, m, p, true); }
    { eoBinCloneOp<X> c; RBin m1(op), m2(op); eoPropCombinedBinOp<X> w(m1, 0.5); w.add(m2, 1.0); w.add(c, 0.5); a = x; arm(r); ret = w(a, b); Ev("adapt").f("kind", "combined-bin").f("how", "bin").f("a", recs({&x, &y})).f("b", recs({&a, &b})).f("ret", ret).f("any", m1.got || m2.got); } }
  void quad(const std::string& kind, eoQuadOp<X>& op, X x, X y) { fit(x); fit(y); X a = x, b = y; arm(r); mark("crossover " + kind); bool ret = op(a, b); Ev("rep").f("kind", kind).f("how", "quad").f("a", recs({&x, &y})).f("b", recs({&a, &b})).f("ret", ret);
    { RQuad m(op); eoInvalidateQuadOp<X> w(m); a = x; b = y; arm(r); ret = w(a, b); Ev("wrap").f("kind", kind).f("via", "invalidate").f("how", "quad").f("a", recs({&x, &y})).f("b", recs({&a, &b})).f("ret", ret).f("known", true).f("inner", m.got); }
    { RQuad m(op); eoPop<X> p; p.push_back(x); p.push_back(y); through(kind, "quad", m, m, p, true); }
    { eoQuadCloneOp<X> c; RQuad m1(op), m2(op); eoPropCombinedQuadOp<X> w(m1, 0.5); w.add(m2, 1.0); w.add(c, 0.5); a = x; b = y; arm(r); ret = w(a, b); Ev("adapt").f("kind", "combined-quad").f("how", "quad").f("a", recs({&x, &y})).f("b", recs({&a, &b})).f("ret", ret).f("any", m1.got || m2.got); }
    { RQuad m(op); eoQuad2BinOp<X> w(m); a = x; b = y; arm(r); ret = w(a, b); Ev("adapt").f("kind", "quad2bin").f("how", "bin").f("a", recs({&x, &y})).f("b", recs({&a, &b})).f("ret", ret).f("any", false); } }
};
static const double RATE[] = {0, 0.1, 0.5, 1};
template <class X> void bits(Rng& r) { Rep<X> R(r); int n = r.in(1, 7); auto mk = [&](int w) { X x; for (int i = 0; i < n; ++i) x.push_back(w == 0 ? r.coin() : w == 1); return x; }; X x = mk(r.coin(2, 3) ? 0 : r.in(1, 2)), y = r.coin(1, 3) ? x : mk(r.coin(2, 3) ? 0 : r.in(1, 2)); double p = RATE[r.below(4)]; int k = r.in(0, n);
  { eoOneBitFlip<X> o; R.mon("onebit", o, x); } { eoDetBitFlip<X> o(k); R.mon("detbit", o, x); } { eoDetSingleBitFlip<X> o(k); R.mon("detsingle", o, x); } { eoBitMutation<X> o(p, r.coin(1, 4)); R.mon("bitmut", o, x); } { eoBitInversion<X> o; R.mon("inversion", o, x); } { eoBitNext<X> o; R.mon("next", o, x); } { eoBitPrev<X> o; R.mon("prev", o, x); }
  { eoStandardBitMutation<X> o(p); R.mon("standard", o, x); } { eoConditionalBitMutation<X> o(p > 0 ? p : 0.5); R.mon("conditional", o, x); } { eoShiftedBitMutation<X> o(p); R.mon("shifted", o, x); } { eoUniformBitMutation<X> o; R.mon("uniform", o, x); } { eoNormalBitMutation<X> o; R.mon("normal", o, x); } { eoFastBitMutation<X> o; R.mon("fast", o, x); } { eoBucketBitMutation<X> o({{0, n}, {0, 0}}, {1.0, 1.0}); R.mon("bucket", o, x); }
  { eo1PtBitXover<X> o; R.quad("1pt", o, x, y); } { eoUBitXover<X> o(p > 0 && p < 1 ? p : 0.5f); R.quad("uxover", o, x, y); } { eoNPtsBitXover<X> o(r.in(1, 4)); R.quad("npts", o, x, y); } { eoBitGxOver<X> o(r.in(1, 3), r.in(1, 3)); R.quad("gxover", o, x, y); }
  { eoBooleanGenerator<typename X::AtomType> g; eoInitFixedLength<X> in(n, g); eoInitAdaptor<X> o(in); R.mon("initadaptor", o, x); } { eoMonCloneOp<X> o; R.mon("monclone", o, x); eoBinCloneOp<X> b; R.bin("binclone", b, x, y); eoQuadCloneOp<X> q; R.quad("quadclone", q, x, y); } }
template <class X> void perms(Rng& r) { Rep<X> R(r); int n = r.in(1, 6); auto mk = [&] { X x; for (int i = 0; i < n; ++i) x.push_back(i); for (int i = n - 1; i > 0; --i) std::swap(x[i], x[r.below(i + 1)]); return x; }; X x = mk(), y = r.coin(1, 3) ? x : mk();
  { eoSwapMutation<X> o(r.in(1, 3)); R.mon("swap", o, x); } if (n > 1) { eoShiftMutation<X> o; R.mon("shift", o, x); eoTwoOptMutation<X> t; R.mon("twoopt", t, x); eoOrderXover<X> q; R.quad("order", q, x, y); eoPartiallyMappedXover<X> m; R.quad("pmx", m, x, y); } { eoInitPermutation<X> in(n); eoInitAdaptor<X> o(in); R.mon("initadaptor", o, x); } }
struct PlusMaybe : eoMonOp<int> { bool operator()(int& a) { if (eo::rng.flip(0.5)) return false; ++a; return true; } };
struct SwapAtoms : eoQuadOp<int> { bool operator()(int& a, int& b) { bool d = a != b; std::swap(a, b); return d; } };
struct Seven : eoInit<int> { void operator()(int& x) { x = 7; } };
static void lengths(Rng& r) { typedef eoVector<double, int> X; Rep<X> R(r); auto mk = [&] { X x; int n = r.in(0, 4); for (int i = 0; i < n; ++i) x.push_back(r.in(1, 3)); return x; }; X x = mk(), y = r.coin(1, 4) ? x : mk(); int lo = r.in(0, 3), hi = r.in(lo, 8); double p = RATE[r.below(4)];
  { eoUniformAtomExchange<int> ex(p); eoVlAtomExchangeQuadOp<X> o(lo, hi, ex); R.quad("vlatom", o, x, y); } { eoVlUniformQuadOp<X> o(lo, hi, p); R.quad("vluni", o, x, y); } { eoVlUniformBinOp<X> o(lo, hi, p); R.bin("vlbin", o, x, y); } { SwapAtoms s; eoInnerExchangeQuadOp<X> o(s, p); R.quad("inner", o, x, y); } { Seven s; eoVlAddMutation<X> o(hi, s); R.mon("vladd", o, x); } { eoVlDelMutation<X> o(lo); R.mon("vldel", o, x); } { PlusMaybe m; eoFlOrAllMutation<X> o(m, p); R.mon("florall", o, x); if (x.size()) { eoFlOrKMutation<X> k(m, r.in(0, 3)); R.mon("flork", k, x); } } }
static void reals(Rng& r) { typedef eoReal<double> X; Rep<X> R(r); int n = r.in(1, 4); auto mk = [&] { X x; for (int i = 0; i < n; ++i) x.push_back(r.coin(1, 3) ? 0.0 : r.coin(1, 3) ? 1.0 : r.unit()); return x; }; X x = mk(), y = r.coin(1, 3) ? x : mk(); eoRealVectorBounds B(n, 0.0, 1.0); double p = RATE[r.below(4)]; double eps = r.coin(1, 4) ? 0.0 : 0.25;
  { eoUniformMutation<X> o(eps, p); R.mon("unif", o, x); eoUniformMutation<X> b(B, eps, p); R.mon("unifb", b, x); std::vector<double> e(n, eps), q(n, p); eoUniformMutation<X> v(B, e, q); R.mon("unifv", v, x); } { unsigned k = r.in(0, 3); eoDetUniformMutation<X> o(eps, k); R.mon("det", o, x); eoDetUniformMutation<X> b(B, eps, k); R.mon("detb", b, x); }
  { eoNormalVecMutation<X> o(eps, p); R.mon("normvec", o, x); eoNormalVecMutation<X> b(B, eps, p); R.mon("normvecb", b, x); double s = eps; eoNormalMutation<X> m(s, p); R.mon("norm", m, x); eoNormalMutation<X> mb(B, s, p); R.mon("normb", mb, x); }
  double al = r.coin() ? 0 : 0.5; { eoSegmentCrossover<X> o(al); R.quad("segment", o, x, y); eoSegmentCrossover<X> b(B, al); R.quad("segmentb", b, x, y); } { eoHypercubeCrossover<X> o(al); R.quad("cube", o, x, y); eoHypercubeCrossover<X> b(B, al); R.quad("cubeb", b, x, y); } { eoRealUXover<X> o(p > 0 && p < 1 ? p : 0.5f); R.quad("rux", o, x, y); } { eoSBXCrossover<X> o(2.0); R.quad("sbx", o, x, y); eoSBXCrossover<X> b(B, 2.0); R.quad("sbxb", b, x, y); }
  { struct E : eoEvalFunc<X> { void operator()(X& e) { double f = 0; for (size_t i = 0; i < e.size(); ++i) f += (i + 1) * id(e[i]); e.fitness(f); } } ev; double s = eps; eoOneFifthMutation<X> o(ev, s, r.in(1, 3)); for (int k = 0; k < 3; ++k) { X a = x; if (r.coin(3, 4)) ev(a); else a.invalidate(); X b = a; arm(r); mark("one fifth mutation"); eoMonOp<X>& oo = o; bool ret = oo(b); X t = b; ev(t); Ev("self").f("kind", "fifth").f("a", Rep<X>::recs({&a})).f("b", Rep<X>::recs({&b})).f("ret", ret).f("truth", exactint(t.fitness())); o.update(); } } }
template <class Y> void es(Rng& r, const std::string& nm) { Rep<Y> R(r); int n = r.in(1, 3); eoRealVectorBounds B(n, 0.0, 1.0); eoEsChromInit<Y> in(B, 0.25); Y x, y; arm(r); in(x); in(y); if (r.coin(1, 3)) y = x; char a0[] = "driver"; char* av[] = {a0, 0}; eoParser pr(1, av); eoEsMutationInit mi(pr); eoEsMutate<Y> mu(mi, B); R.mon(nm + "mut", mu, x);
  eoDoubleExchange ex; eoDoubleIntermediate im; eoBinOp<double>& o1 = r.coin() ? (eoBinOp<double>&)ex : im; eoBinOp<double>& o2 = r.coin() ? (eoBinOp<double>&)ex : im; eoEsStandardXover<Y> xo(o1, o2); R.bin(nm + "x", xo, x, y); { Y a = x; R.fit(a); R.fit(y); eoPop<Y> src, dest; src.push_back(a); src.push_back(y); typename Rep<Y>::InTurn it; eoSelectivePopulator<Y> plop(src, dest, it); eoEsGlobalXover<Y> g(o1, o2); arm(r); g(plop); Ev("wrap").f("kind", nm + "global").f("via", "genop").f("how", "mon").f("a", Rep<Y>::recs({&a})).f("b", Rep<Y>::recs({&dest[0]})).f("ret", true).f("known", false).f("inner", true); } }
static void ints(Rng& r) { typedef eoInt<double> X; typedef eoReal<double> Q; Rep<X> R(r); int n = r.in(1, 4); auto mk = [&] { X x; for (int i = 0; i < n; ++i) x.push_back(r.in(0, 5)); return x; }; X x = mk(), y = r.coin(1, 4) ? x : mk(); eoIntInterval B(0, 5); double p = RATE[r.below(4)], s = r.coin() ? 0.2 : 3; typedef eoRealToIntMonOp<X, Q> M; typedef eoRealToIntQuadOp<X, Q> K; eoNormalMutation<Q> nm(s, p); M m(nm), mb(nm, B, r.coin() ? M::Repair::folds : M::Repair::truncate); R.mon("intmon", m, x); R.mon("intmonb", mb, x); eoRealUXover<Q> ux; K q(ux), qb(ux, B, r.coin() ? K::Repair::folds : K::Repair::truncate); R.quad("intquad", q, x, y); R.quad("intquadb", qb, x, y); eoSegmentCrossover<Q> sg(0.5); K qs(sg, B); R.quad("intquads", qs, x, y); }
static void trees(Rng& r) { Rep<Tree> R(r); std::vector<Node> set = {Node(0, 1), Node(0, 2), Node(1, 3), Node(2, 4), Node(2, 5)}; eoParseTreeDepthInit<double, Node> in(r.in(2, 4), set, r.coin()), in2(3, set, true); Tree x, y; arm(r); in(x); in(y); if (r.coin(1, 4)) y = x; unsigned mx = r.in(1, 20);
  { eoSubtreeXOver<double, Node> o(mx); R.quad("subtree", o, x, y); } { eoBranchMutation<double, Node> o(in2, mx); R.mon("branch", o, x); } { eoPointMutation<double, Node> o(set); R.mon("point", o, x); } { eoExpansionMutation<double, Node> o(in2, mx); R.mon("expansion", o, x); } { eoCollapseSubtreeMutation<double, Node> o(in2, mx); R.mon("collapse", o, x); } { eoHoistMutation<double, Node> o; R.mon("hoist", o, x); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 30 * args().scale; ++ep) { bits<eoBit<double> >(r); if (ep % 2) bits<eoBit<eoMinimizingFitness> >(r); perms<eoInt<double> >(r); perms<eoVector<double, unsigned> >(r); lengths(r); reals(r); es<eoEsSimple<double> >(r, "essimple"); es<eoEsStdev<double> >(r, "esstdev"); es<eoEsFull<double> >(r, "esfull"); ints(r); trees(r); }
  return done(); }
