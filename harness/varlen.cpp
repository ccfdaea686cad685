// Variable-length genotypes: crossovers that redistribute atoms, mutations that add, delete or alter them.
#include <eo>
#include <eoVariableLengthCrossover.h>
#include <eoVariableLengthMutation.h>
#include <eoFlOrMonOp.h>
#include "vt.hpp"
#include "eo_extreme.hpp"
using namespace vt;
typedef eoVector<double, int> X;
static IV iv(const X& x) { return IV(x.begin(), x.end()); }
static void arm(Rng& r) { eo::rng.reseed(r.next() % 1000000 + 1); if (r.coin(1, 4)) { std::vector<uint32_t> d; int k = r.in(1, 5); for (int i = 0; i < k; ++i) d.push_back(r.coin() ? 0u : 0xffffffffu); nextdraws(eo::rng, d, r.next() % 100000 + 1); } }
struct Alt : eoAtomExchange<int> { std::vector<bool> m; void randomize(unsigned a, unsigned b) { m.clear(); for (unsigned i = 0; i < a + b; ++i) m.push_back(eo::rng.flip(0.5)); } bool operator()(unsigned i, int&) { return m[i]; } std::string className() const { return "Alt"; } };
struct Atom : eoInit<int> { int v; void operator()(int& x) { x = v; } };
struct At : eoGeneDelChooser<X> { unsigned p; unsigned operator()(X&) { return p; } std::string className() const { return "At"; } };
struct Swap : eoQuadOp<int> { bool operator()(int& a, int& b) { bool d = a != b; std::swap(a, b); return d; } };
struct Plus : eoMonOp<int> { bool still = false; bool operator()(int& a) { if (still) return false; a += 1000; return true; } };
static X make(int n, int base) { X x; for (int i = 0; i < n; ++i) x.push_back(base + i); x.fitness(3); return x; }
static void all(Rng& r) { int n = r.in(0, 5), m = r.in(0, 5), lo = r.in(0, 3), hi = r.in(std::max(1, lo), 8), e = r.coin() ? 4 : r.in(0, 8); double rate = e / 8.0;
  auto share = [&](const char* kind, eoQuadOp<X>& op, int ee) { X p = make(n, 1), q = make(m, 11), a = p, b = q; arm(r); mark(std::string("variable-length crossover ") + kind); bool ret = op(a, b); Ev("share").f("kind", kind).f("p", iv(p)).f("q", iv(q)).f("r", iv(a)).f("s", iv(b)).f("lo", lo).f("hi", hi).f("e", ee).f("ret", ret); };
  { eoUniformAtomExchange<int> ex(rate); eoVlAtomExchangeQuadOp<X> op(lo, hi, ex); share("vlatom", op, e); eoUniformAtomExchange<int> e5; eoVlAtomExchangeQuadOp<X> o5(lo, hi, e5); share("vlatom", o5, 4); Alt al; eoVlAtomExchangeQuadOp<X> oa(lo, hi, al); share("vlalt", oa, 4); }
  { eoVlUniformQuadOp<X> op(lo, hi, rate); share("vluni", op, e); eoVlUniformQuadOp<X> o5(lo, hi); share("vluni", o5, 4); }
  for (int w = 0; w < 2; ++w) { int ee = w ? 4 : e; eoVlUniformBinOp<X> o1(lo, hi, rate), o2(lo, hi); eoBinOp<X>& op = w ? o2 : o1; X p = make(n, 1), q = make(m, 11), a = p, b = q; arm(r); mark("variable-length binary crossover"); bool ret = op(a, b); Ev("take").f("p", iv(p)).f("q", iv(q)).f("r", iv(a)).f("lo", lo).f("hi", hi).f("e", ee).f("ret", ret).f("same", iv(b) == iv(q)); }
  { Atom at; at.v = 99; eoVlAddMutation<X> op(hi, at); X p = make(r.in(0, 9), 1), a = p; arm(r); mark("add mutation"); bool ret = op(a); Ev("add").f("p", iv(p)).f("r", iv(a)).f("hi", hi).f("x", 99).f("ret", ret); }
  { X p = make(r.in(0, 6), 1), a = p; eoVlDelMutation<X> op(lo); arm(r); mark("delete mutation"); bool ret = op(a); Ev("del").f("p", iv(p)).f("r", iv(a)).f("lo", lo).f("pos", 0).f("ret", ret); if (p.size()) { At c; c.p = r.below(p.size()); eoVlDelMutation<X> oc(lo, c); a = p; ret = oc(a); Ev("del").f("p", iv(p)).f("r", iv(a)).f("lo", lo).f("pos", (long)c.p + 1).f("ret", ret); } }
  for (int w = 0; w < 2; ++w) { Swap sw; int ee = w ? 4 : e; eoInnerExchangeQuadOp<X> op(sw, ee / 8.0f), od(sw); X p = make(n, 1), q = make(m, r.coin() ? 11 : 1), a = p, b = q; arm(r); mark("inner exchange"); bool ret = w ? od(a, b) : op(a, b); Ev("inner").f("p", iv(p)).f("q", iv(q)).f("r", iv(a)).f("s", iv(b)).f("e", ee).f("ret", ret); }
  { Plus pl; pl.still = r.coin(1, 4); eoFlOrAllMutation<X> op(pl, rate), od(pl); X p = make(n, 1), a = p; arm(r); bool d = r.coin(); bool ret = d ? od(a) : op(a); Ev("flor").f("kind", "florall").f("p", iv(p)).f("r", iv(a)).f("e", d ? 8 : e).f("nb", 0).f("still", pl.still).f("ret", ret); if (n) { int nb = r.in(0, 4); eoFlOrKMutation<X> ok(pl, nb), o1(pl); a = p; arm(r); bool w = r.coin(); ret = w ? o1(a) : ok(a); Ev("flor").f("kind", "flork").f("p", iv(p)).f("r", iv(a)).f("e", 0).f("nb", w ? 1 : nb).f("still", pl.still).f("ret", ret); } } }
struct Numbered : eoInit<int> { int k = 0; void operator()(int& x) { x = ++k; } };
static void vinit(Rng& r) { int lo = r.in(0, 4), hi = lo + r.in(1, 4); Numbered at; eoInitVariableLength<X> in(lo, hi, at); X a = make(r.in(0, 9), 500); arm(r); mark("variable-length initialiser"); in(a); Ev("init").f("lo", lo).f("hi", hi).f("r", iv(a)).f("calls", at.k).f("inv", a.invalid()); }
static void stats(Rng& r) { const int N = 2000; eo::rng.reseed(r.next() % 100000 + 1); { IV c(6, 0); Atom at; at.v = 99; eoVlAddMutation<X> op(9, at); for (int i = 0; i < N; ++i) { X a = make(5, 1); op(a); for (int j = 0; j < 6; ++j) if (a[j] == 99) ++c[j]; } Ev("reach").f("kind", "addpos").f("n", N).f("c", c); }
  { IV c(5, 0); eoVlDelMutation<X> op(0); for (int i = 0; i < N; ++i) { X a = make(5, 1); op(a); std::vector<bool> in(6); for (int v : a) in[v] = true; for (int j = 1; j <= 5; ++j) if (!in[j]) ++c[j - 1]; } Ev("reach").f("kind", "delpos").f("n", N).f("c", c); }
  { IV c(5, 0); Plus pl; eoFlOrKMutation<X> op(pl); for (int i = 0; i < N; ++i) { X a = make(5, 1); op(a); for (int j = 0; j < 5; ++j) c[j] += a[j] > 999; } Ev("reach").f("kind", "florpos").f("n", N).f("c", c); }
  int e = r.in(1, 7); { eoUniformAtomExchange<int> ex(e / 8.0); eoVlAtomExchangeQuadOp<X> op(0, 20, ex); long c = 0; for (int i = 0; i < N; ++i) { X a = make(3, 1), b = make(3, 11); op(a, b); for (int v : a) c += v < 10; } Ev("rate").f("kind", "atomrate").f("c", c).f("n", 3 * N).f("e", e); }
  { eoVlUniformQuadOp<X> op(0, 20, e / 8.0); long c = 0; for (int i = 0; i < N; ++i) { X a = make(3, 1), b = make(3, 11); op(a, b); c += a.size(); } Ev("rate").f("kind", "quadrate").f("c", c).f("n", 6 * N).f("e", e); }
  { eoVlUniformBinOp<X> op(0, 20, e / 8.0); long c = 0; for (int i = 0; i < N; ++i) { X a = make(3, 1), b = make(3, 11); op(a, b); for (int v : a) c += v < 10; } Ev("rate").f("kind", "binrate").f("c", c).f("n", 3 * N).f("e", e); }
  { Swap sw; eoInnerExchangeQuadOp<X> op(sw, e / 8.0f); long c = 0; for (int i = 0; i < N; ++i) { X a = make(3, 1), b = make(3, 11); op(a, b); for (int v : a) c += v > 10; } Ev("rate").f("kind", "innerrate").f("c", c).f("n", 3 * N).f("e", e); }
  { Plus pl; eoFlOrAllMutation<X> op(pl, e / 8.0); long c = 0; for (int i = 0; i < N; ++i) { X a = make(3, 1); op(a); for (int v : a) c += v > 999; } Ev("rate").f("kind", "florrate").f("c", c).f("n", 3 * N).f("e", e); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 120 * args().scale; ++ep) { all(r); vinit(r); if (ep % 40 == 0) stats(r); }
  return done(); }
