// Breeding: populators, operator containers and wrappers, breeders, transforms.
#include <eo>
#include <eoOneToOneBreeder.h>
#include <eoPropGAGenOp.h>
#include <eoSGAGenOp.h>
#include <memory>
#include "vt.hpp"
using namespace vt;
typedef eoVector<double, int> X;
typedef eoPop<X> P;
static std::vector<long> called;
static Raw rec(const X& x) { IV g(x.begin(), x.end()); Obj o; o.f("g", g).f("v", !x.invalid()); return o; }
static Raw recs(const P& p) { std::string s = "["; for (size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + rec(p[i]).s; return Raw{s + "]"}; }
static Raw flags(const P& p) { std::string s = "["; for (size_t i = 0; i < p.size(); ++i) s += std::string(i ? "," : "") + (p[i].invalid() ? "false" : "true"); return Raw{s + "]"}; }
static bool eq(const P& a, const P& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (std::vector<int>(a[i]) != std::vector<int>(b[i]) || a[i].invalid() != b[i].invalid() || (!a[i].invalid() && a[i].fitness() != b[i].fitness())) return false; return true; }
static P source(Rng& r, int n) { P p; for (int i = 1; i <= n; ++i) { X x(1, i); if (r.coin(3, 4)) x.fitness(i); p.push_back(x); } return p; }
struct Mon : eoMonOp<X> { int t, m; Mon(int t, int m) : t(t), m(m) {} bool operator()(X& x) { called.push_back(t); if (m == 0) x.push_back(100 * t); return m != 1; } std::string className() const { return "Mon"; } };
struct Bin : eoBinOp<X> { int t, m; Bin(int t, int m) : t(t), m(m) {} bool operator()(X& x, const X& y) { called.push_back(t); if (m == 0) x.push_back(100 * t + y[0]); return m != 1; } std::string className() const { return "Bin"; } };
struct Quad : eoQuadOp<X> { int t, m; Quad(int t, int m) : t(t), m(m) {} bool operator()(X& x, X& y) { called.push_back(t); if (m == 0) { int a = x[0], b = y[0]; x.push_back(100 * t + b); y.push_back(100 * t + a); } return m != 1; } std::string className() const { return "Quad"; } };
struct Gen3 : eoGenOp<X> { int t, m; Gen3(int t, int m) : t(t), m(m) {} unsigned max_production() { return 3; } std::string className() const { return "Gen3"; } void apply(eoPopulator<X>& p) { called.push_back(t); X& a = *p; X& b = *++p; X& c = *++p; for (X* x : {&a, &b, &c}) { if (m == 0) x->push_back(100 * t); if (m != 1) x->invalidate(); } } };
struct Sel : eoSelectOne<X> { Rng& r; int setups = 0; Sel(Rng& r) : r(r) {} void setup(const P&) { ++setups; } const X& operator()(const P& p) { return p[r.below(p.size())]; } };
struct Tree { std::string k; int t = 0, m = 0; std::vector<Tree> ops; std::vector<int> rates; Raw js() const { std::string a = "[", b = "["; for (size_t i = 0; i < ops.size(); ++i) { a += (i ? "," : "") + ops[i].js().s; b += (i ? "," : "") + std::to_string(rates[i]); } Obj o; o.f("k", k).f("t", t).f("m", m).f("ops", Raw{a + "]"}).f("rates", Raw{b + "]"}); return o; }
  bool grows() const { if (ops.empty()) return true; bool any = false, all = true; for (size_t i = 0; i < ops.size(); ++i) if (rates[i]) { any |= ops[i].grows(); all &= ops[i].grows(); } return k == "seq" ? any : any && all; } };
struct Store { std::vector<std::unique_ptr<eoOp<X> > > v; template <class T> T& add(T* x) { v.emplace_back(x); return *x; } };
static Tree leaf(const char* k, int t, int m) { Tree x; x.k = k; x.t = t; x.m = m; return x; }
static Tree box(const char* k, std::vector<Tree> o, std::vector<int> r) { Tree x; x.k = k; x.ops = o; x.rates = r; return x; }
static Tree rtree(Rng& r, int depth, int& tag) { if (depth == 0 || r.coin(1, 5)) { static const char* K[] = {"mon", "bin", "quad", "quad", "gen3"}; int m = r.below(6); return leaf(K[r.below(5)], ++tag, m < 4 ? 0 : m - 3); } Tree x; x.k = r.coin(3, 5) ? "seq" : "prop"; int n = r.in(1, 3); int tot = 0; for (int i = 0; i < n; ++i) { x.ops.push_back(rtree(r, depth - 1, tag)); int q = r.below(6); int rt = x.k == "seq" ? (q < 3 ? 4 : q == 3 ? 0 : r.in(1, 3)) : r.below(4); x.rates.push_back(rt); tot += rt; } if (x.k == "prop" && !tot) x.rates[r.below(n)] = 1; return x; }
static eoOp<X>& make(const Tree& x, Store& s, Rng& r, Sel& sel) { if (x.k == "mon") { auto& o = s.add(new Mon(x.t, x.m)); if (r.coin(1, 4)) return s.add(new eoMonGenOp<X>(o)); if (r.coin(1, 4)) return s.add(new eoInvalidateMonOp<X>(o)); return o; }
  if (x.k == "bin") { auto& o = s.add(new Bin(x.t, x.m)); if (r.coin(1, 4)) return s.add(new eoSelBinGenOp<X>(o, sel)); if (r.coin(1, 4)) return s.add(new eoBinGenOp<X>(o)); if (r.coin(1, 4)) return s.add(new eoInvalidateBinOp<X>(o)); return o; }
  if (x.k == "quad") { auto& o = s.add(new Quad(x.t, x.m)); if (r.coin(1, 4)) return s.add(new eoQuadGenOp<X>(o)); if (r.coin(1, 4)) return s.add(new eoInvalidateQuadOp<X>(o)); return o; }
  if (x.k == "gen3") return s.add(new Gen3(x.t, x.m));
  eoOpContainer<X>* c; if (x.k == "seq") c = &s.add(new eoSequentialOp<X>); else c = &s.add(new eoProportionalOp<X>); for (size_t i = 0; i < x.ops.size(); ++i) c->add(make(x.ops[i], s, r, sel), x.rates[i] / 4.0); return *c; }
static eoGenOp<X>& gen(eoOp<X>& o, eoFunctorStore& fs) { return wrap_op<X>(o, fs); }
static void populators(Rng& r) { P src = source(r, r.in(1, 4)), dest; if (r.coin()) dest = source(r, r.in(0, 2)); P src0 = src; Sel sel(r); bool seq = r.coin(); std::unique_ptr<eoPopulator<X> > it; Raw d0 = recs(dest); if (seq) it.reset(new eoSeqPopulator<X>(src, dest)); else it.reset(new eoSelectivePopulator<X>(src, dest, sel));
  Ev("pnew").f("kind", seq ? "seqpop" : "selpop").f("src", flags(src)).f("d", d0); auto fin = [&](Ev& e) { e.f("d", recs(dest)).f("pos", (long)it->tellp()).f("exh", it->exhausted()); };
  for (int k = 0; k < 14; ++k) { int w = r.below(9); mark("populator"); if (w <= 2) { Ev e("pderef"); X x; bool t = false; try { x = **it; } catch (eoPopulator<X>::OutOfIndividuals&) { t = true; } IV g(x.begin(), x.end()); e.f("threw", t).f("x", g).f("xv", !t && !x.invalid()); fin(e); } else if (w <= 4) { Ev e("pnext"); ++*it; fin(e); } else if (w == 5) { if (it->exhausted()) continue; Ev e("pmark"); X& x = **it; x.push_back(7); x.invalidate(); e.f("t", 7); fin(e); } else if (w == 6) { Ev e("pinsert"); X x(1, 50 + k); if (r.coin()) x.fitness(1); it->reserve(1); it->insert(x); IV g(x.begin(), x.end()); e.f("x", g).f("xv", !x.invalid()); fin(e); } else if (w == 7) { if (r.coin()) { Ev e("pseek"); long to = r.below((int)it->offspring().size() + 1); it->seekp(to); e.f("to", to); fin(e); } else { Ev e("preserve"); it->reserve(r.below(40)); fin(e); } } else { Ev e("pselect"); X x; bool t = false; try { x = it->select(); } catch (eoPopulator<X>::OutOfIndividuals&) { t = true; } IV g(x.begin(), x.end()); e.f("threw", t).f("x", g).f("xv", !t && !x.invalid()); fin(e); } } }
static void apply(Rng& r) { int tag = 0; Tree t = rtree(r, r.in(0, 3), tag); Store st; eoFunctorStore fs; Sel sel(r); eoOp<X>& op = make(t, st, r, sel); eoGenOp<X>& g = gen(op, fs); P src = source(r, r.in(1, 4)), src0 = src, dest; eoSelectivePopulator<X> it(src, dest, sel); mark("apply " + t.js().s.substr(0, 3000));
  for (int k = 0; k < 3 && dest.size() < 12; ++k) { called.clear(); Raw d0 = recs(dest); g(it); ++it; Ev("apply").f("tree", t.js()).f("src", flags(src0)).f("d0", d0).f("d", recs(dest)).f("pos", (long)it.tellp()).f("same", eq(src, src0)).f("called", called); } }
struct Hm { long rate8 = 0, count = 0; };
template <class F> void withhm(Rng& r, int n, F f) { Hm h; int w = r.below(4); if (w == 0) { h.rate8 = r.in(0, 16); f(h, h.rate8 / 8.0, true, nullptr); } else if (w == 1) { h.count = r.in(1, 9); f(h, (double)h.count, false, nullptr); } else { if (w == 2) h.count = r.in(1, 9); else if (n > 1) h.count = -r.in(1, n - 1); else h.count = 2; eoHowMany hm((int)h.count); f(h, 0.0, true, &hm); } }
static void breed(const char* kind, Rng& r, const Tree& t, eoGenOp<X>& g) { P src = source(r, r.in(1, 5)), src0 = src, dest; Sel sel(r); if (r.coin()) dest = source(r, 3); withhm(r, src.size(), [&](Hm h, double rate, bool asrate, eoHowMany* hm) { std::unique_ptr<eoGeneralBreeder<X> > b(hm ? new eoGeneralBreeder<X>(sel, g, *hm) : rate == 1 && asrate && r.coin() ? new eoGeneralBreeder<X>(sel, g) : new eoGeneralBreeder<X>(sel, g, rate, asrate)); mark(std::string("breed ") + t.js().s.substr(0, 3000)); for (int k = 0; k < 2; ++k) { called.clear(); eoBreed<X>& bb = *b; bb(src, dest); Ev("breed").f("kind", kind).f("tree", t.js()).f("src", flags(src0)).f("d", recs(dest)).f("rate8", h.rate8).f("count", h.count).f("same", eq(src, src0)).f("called", called); } }); }
static void breeders(Rng& r) { Tree t; int tag; do { tag = 0; t = rtree(r, r.in(0, 3), tag); } while (!t.grows()); Store st; eoFunctorStore fs; Sel sel(r); eoOp<X>& op = make(t, st, r, sel); breed("tree", r, t, gen(op, fs));
  { int pc = r.below(5), pm = r.below(5); Quad q(1, r.below(3)); Mon m(2, r.below(3)); eoSGAGenOp<X> g(q, pc / 4.0, m, pm / 4.0); breed("sgagen", r, box("seq", {box("prop", {leaf("quad", 1, q.m), leaf("quad", 3, 1)}, {pc, 4 - pc}), leaf("mon", 2, m.m)}, {4, pm}), g); }
  { int a = r.below(4), b = r.below(4), c = r.below(4); if (a + b + c == 0) a = 1; Quad q(1, r.below(3)); Mon m(2, r.below(3)); eoPropGAGenOp<X> g(c / 4.0, q, a / 4.0, m, b / 4.0); breed("propgen", r, box("prop", {leaf("quad", 1, q.m), leaf("mon", 2, m.m), leaf("mon", 3, 1)}, {a, b, c}), g); }
  // the transform of a whole population
  { int pc = r.below(5), pm = r.below(5); Quad q(1, r.below(3)); Mon m(2, r.below(3)); P p = source(r, r.in(0, 7)), p0 = p; std::unique_ptr<eoTransform<X> > tr; double dc = pc / 4.0, dm = pm / 4.0; int w = r.below(4); if (w == 0) tr.reset(new eoSGATransform<X>(q, pc / 4.0, m, pm / 4.0)); else if (w == 1) tr.reset(new eoDynSGATransform<X>(q, pc / 4.0, m, pm / 4.0)); else if (w == 2) { dc = 1 - dc; dm = 1 - dm; tr.reset(new eoDynSGATransform<X>(q, &dc, m, &dm)); dc = pc / 4.0; dm = pm / 4.0; } else { auto* d = new eoDynSGATransform<X>(q, 0.5, m, 0.5); tr.reset(d); d->PCrossHandle() = pc / 4.0; d->PMutHandle() = pm / 4.0; }
    mark("transform"); (*tr)(p); Ev("sga").f("kind", w ? "dynsga" : "sgatr").f("quad", leaf("quad", 1, q.m).js()).f("mon", leaf("mon", 2, m.m).js()).f("pc", pc).f("pm", pm).f("p", recs(p0)).f("r", recs(p));
    P src = source(r, r.in(1, 6)), src0 = src, off; int n = r.in(0, 8); eoSelectNumber<X> sn(sel, n); eoSelectTransform<X> stt(sn, *tr); eoBreed<X>& bb = stt; mark("select and transform"); if (r.coin()) off = source(r, 2); bb(src, off); Ev("seltr").f("src", flags(src0)).f("n", n).f("quad", leaf("quad", 1, q.m).js()).f("mon", leaf("mon", 2, m.m).js()).f("pc", pc).f("pm", pm).f("r", recs(off)).f("same", eq(src, src0)); }
}
template <class F> void onetoone(Rng& r, int dir) { typedef eoVector<F, int> Y; int n = r.in(1, 6); std::vector<long> par{0}, kid{0}; eoPop<Y> src; for (int i = 1; i <= n; ++i) { par.push_back(r.below(4)); kid.push_back(r.below(4)); Y y(1, i); y.fitness(par[i]); src.push_back(y); } eoPop<Y> off; struct M : eoMonOp<Y> { bool operator()(Y& y) { y[0] += 100; return true; } } m; struct Ee : eoEvalFunc<Y> { std::vector<long>* k; void operator()(Y& y) { if (y.invalid()) y.fitness((*k)[y[0] % 100]); } } ev; ev.k = &kid; eoMonGenOp<Y> mg(m); eoProportionalOp<Y> pr; pr.add(m, 1.0); bool useprop = r.coin(1, 3); eoGenOp<Y>& g = useprop ? (eoGenOp<Y>&)pr : mg; int p8 = r.coin() ? 8 : r.coin() ? 0 : r.in(1, 7); int cnt = r.coin(1, 3) ? r.in(1, 2 * n) : 0; eoOneToOneBreeder<Y> b(g, ev, p8 / 8.0, cnt ? eoHowMany(cnt) : eoHowMany(1.0)); eoBreed<Y>& bb = b; eoPop<Y> src0 = src; mark("one to one breeder"); bb(src, off); IVV out; for (auto& y : off) out.push_back(IV{y.size() == 1 ? (long)y[0] : -1, y.invalid() ? -99 : exactint((double)y.fitness())}); bool same = src.size() == src0.size(); for (size_t i = 0; same && i < src.size(); ++i) same = src[i][0] == src0[i][0] && src[i].fitness() == src0[i].fitness();
  Ev("onetoone").f("dir", dir).f("n", cnt ? cnt : n).f("par", std::vector<long>(par.begin() + 1, par.end())).f("kid", std::vector<long>(kid.begin() + 1, kid.end())).f("p8", p8).f("out", out).f("same", same); }
static void numbers(Rng& r) { int n = r.in(1, 12); long rate8 = 0, count = 0; eoHowMany h; int w = r.below(5); if (w == 0) { rate8 = r.in(0, 8); h = eoHowMany(rate8 / 8.0); } else if (w == 1) { int k = r.in(1, 8); rate8 = 8 - k; h = eoHowMany(-k / 8.0); } else if (w == 2) { count = r.in(1, 9); h = r.coin() ? eoHowMany((int)count) : r.coin() ? eoHowMany((unsigned)count) : eoHowMany((double)count, false); } else if (w == 3) { rate8 = r.in(1, 8); std::ostringstream o; o << rate8 * 12.5 << "%"; if (r.coin()) h.readFrom(o.str()); else { std::istringstream in(o.str()); h.readFrom(in); } } else { count = r.in(1, 9); h.readFrom(std::to_string(count)); }
  long got = h(n); std::ostringstream o; h.printOn(o); eoHowMany h2; std::istringstream in(o.str()); h2.readFrom(in); long again = h2(n); if (count > 0 && count > n) n = count + 1, got = h(n), again = h2(n); eoHowMany m = -h; long neg = m(n), after = h(n); Ev("hm").f("rate8", rate8).f("count", count).f("n", n).f("got", got).f("again", again).f("neg", neg).f("after", after); }
static void rates(Rng& r) { eo::rng.reseed(r.next() % 100000 + 1); const int N = 3000; int k = r.in(1, 4); std::vector<int> w; int tot = 0; for (int i = 0; i < k; ++i) { w.push_back(r.below(5)); tot += w.back(); } if (!tot) { w[0] = 1; } double unit = r.coin() ? 0.25 : r.coin() ? 1.0 : 1000.0; std::vector<std::unique_ptr<Mon> > ms; std::vector<std::unique_ptr<Bin> > bs; std::vector<std::unique_ptr<Quad> > qs; for (int i = 0; i < k; ++i) { ms.emplace_back(new Mon(i, 1)); bs.emplace_back(new Bin(i, 1)); qs.emplace_back(new Quad(i, 1)); }
  auto tally = [&](const char* kind, std::function<void()> f) { called.clear(); mark(kind); for (int i = 0; i < N; ++i) f(); std::vector<long> c(k, 0); for (long t : called) if (t >= 0 && t < k) ++c[t]; Ev("freq").f("kind", kind).f("w", w).f("n", N).f("c", c); };
  X a(1, 1), b(1, 2); eoPropCombinedMonOp<X> pm(*ms[0], w[0] * unit); eoPropCombinedQuadOp<X> pq(*qs[0], w[0] * unit); eoPropCombinedBinOp<X> pb(*bs[0], w[0] * unit); for (int i = 1; i < k; ++i) { pm.add(*ms[i], w[i] * unit, r.coin()); pq.add(*qs[i], w[i] * unit); pb.add(*bs[i], w[i] * unit, r.coin()); } eoMonOp<X>& rm = pm; eoQuadOp<X>& rq = pq; eoBinOp<X>& rb = pb; tally("propmon", [&] { rm(a); }); tally("propquad", [&] { rq(a, b); }); tally("propbin", [&] { rb(a, b); });
  eoProportionalOp<X> po; for (int i = 0; i < k; ++i) { if (i % 3 == 0) po.add(*ms[i], w[i] * unit); else if (i % 3 == 1) po.add(*qs[i], w[i] * unit); else po.add(*bs[i], w[i] * unit); } Sel sel(r); P src = source(r, 2); tally("propop", [&] { P d; eoSelectivePopulator<X> it(src, d, sel); po(it); });
  int q = r.below(5); eoSequentialOp<X> so; Mon m0(0, 1); so.add(m0, 1.0); Mon m1(1, 1); so.add(m1, q / 4.0); called.clear(); for (int i = 0; i < N; ++i) { P d; eoSelectivePopulator<X> it(src, d, sel); so(it); } Ev("rate").f("kind", "seqrate").f("q", q).f("n", N).f("c", (long)std::count(called.begin(), called.end(), 1)); Ev("rate").f("kind", "seqone").f("q", 4).f("n", N).f("c", (long)std::count(called.begin(), called.end(), 0));
  int pc = r.below(5), pmu = r.below(5); Quad qq(1, 1); Mon mm(2, 1); eoSGATransform<X> tr(qq, pc / 4.0, mm, pmu / 4.0); called.clear(); P p = source(r, 2 * N); tr(p); Ev("rate").f("kind", "sgacross").f("q", pc).f("n", N).f("c", (long)std::count(called.begin(), called.end(), 1)); Ev("rate").f("kind", "sgamut").f("q", pmu).f("n", 2 * N).f("c", (long)std::count(called.begin(), called.end(), 2)); 
  eoSGAGenOp<X> sg(qq, pc / 4.0, mm, pmu / 4.0); called.clear(); for (int i = 0; i < N; ++i) { P d; eoSelectivePopulator<X> it(src, d, sel); sg(it); } Ev("rate").f("kind", "gencross").f("q", pc).f("n", N).f("c", (long)std::count(called.begin(), called.end(), 1)); Ev("rate").f("kind", "genmut").f("q", pmu).f("n", 2 * N).f("c", (long)std::count(called.begin(), called.end(), 2)); }
// wrappers on their own
static void wraps(Rng& r) { for (int m = 0; m < 3; ++m) { auto ind = [&](int i) { X x(1, i); if (r.coin(3, 4)) x.fitness(5); return x; }; auto go = [&](const char* kind, const char* what, std::function<bool(X&, X&)> f) { X a = ind(1), b = ind(2); bool va = !a.invalid(), vb = !b.invalid(); mark(what); bool ret = f(a, b); Ev("wrap").f("kind", kind).f("what", what).f("m", m).f("ret", ret).f("va0", va).f("vb0", vb).f("va", !a.invalid()).f("vb", !b.invalid()).f("touched", a.size() > 1); };
    Mon mo(1, m); Bin bo(2, m); Quad qo(3, m); eoInvalidateMonOp<X> im(mo); eoInvalidateBinOp<X> ib(bo); eoInvalidateQuadOp<X> iq(qo); go("mon", "invmon", [&](X& a, X&) { return im(a); }); go("bin", "invbin", [&](X& a, X& b) { return ib(a, b); }); go("quad", "invquad", [&](X& a, X& b) { return iq(a, b); });
    eoQuad2BinOp<X> q2(qo); eoInvalidateBinOp<X> iq2(q2); go("bin", "quad2bin", [&](X& a, X& b) { return iq2(a, b); }); eoMon2QuadOp1<X> m1(mo); eoMon2QuadOp2<X> m2(mo); eoInvalidateQuadOp<X> im1(m1), im2(m2); go("quad", "mon2quad1", [&](X& a, X& b) { return im1(a, b); }); go("quad", "mon2quad2", [&](X& a, X& b) { return im2(b, a); });
    eoPropCombinedMonOp<X> pm(mo, 1); eoPropCombinedQuadOp<X> pq(qo, 1); eoPropCombinedBinOp<X> pb(bo, 1); eoInvalidateMonOp<X> ipm(pm); eoInvalidateQuadOp<X> ipq(pq); eoInvalidateBinOp<X> ipb(pb); go("mon", "propmon", [&](X& a, X&) { return ipm(a); }); go("quad", "propquad", [&](X& a, X& b) { return ipq(a, b); }); go("bin", "propbin", [&](X& a, X& b) { return ipb(a, b); });
    if (m == 1) { eoMonCloneOp<X> mc; eoBinCloneOp<X> bc; eoQuadCloneOp<X> qc; eoInvalidateMonOp<X> imc(mc); eoInvalidateBinOp<X> ibc(bc); eoInvalidateQuadOp<X> iqc(qc); go("mon", "monclone", [&](X& a, X&) { return imc(a); }); go("bin", "binclone", [&](X& a, X& b) { return ibc(a, b); }); go("quad", "quadclone", [&](X& a, X& b) { return iqc(a, b); }); } } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; eo::rng.reseed(shardseed() % 1000000 + 1);
  for (long ep = 0; ep < 40 * args().scale; ++ep) { populators(r); for (int i = 0; i < 4; ++i) apply(r); breeders(r); onetoone<double>(r, 0); onetoone<eoMinimizingFitness>(r, 1); numbers(r); numbers(r); wraps(r); if (ep % 10 == 0) rates(r); }
  return done(); }
