// Replacement, merge, reduction and splitting of populations.
#include "eo_pop.hpp"
#include <eoMGGReplacement.h>
#include <eoG3Replacement.h>
#include <eoReduceMergeReduce.h>
#include <eoReduceSplit.h>
#include <eoSurviveAndDie.h>
template <class F> struct Rp { typedef Ind<F> X; typedef eoPop<X> P; Rng& r; Rp(Rng& r) : r(r) {}
  // run and record; a refusal (exception) is part of the behaviour
  template <class Fn> bool thrown(Fn f) { try { f(); return false; } catch (std::exception&) { return true; } }
  void rep(const char* kind, eoReplacement<X>& R, P par, P off, IV a = IV()) { IVV p0 = recs(par), o0 = recs(off); mark(std::string("replacement ") + kind); bool t = thrown([&] { R(par, off); }); Ev("rep").f("kind", kind).f("dir", Dir<F>::v).f("par", p0).f("off", o0).f("a", a).f("threw", t).f("res", t ? IVV() : recs(par)); }
  void red(const char* kind, eoReduce<X>& R, P p, int n, IV a = IV()) { IVV p0 = recs(p); mark(std::string("reduce ") + kind); bool t = thrown([&] { R(p, n); }); Ev("red").f("kind", kind).f("dir", Dir<F>::v).f("pop", p0).f("n", n).f("a", a).f("threw", t).f("res", t ? IVV() : recs(p)); }
  void mrg(const char* kind, eoMerge<X>& M, P p, P off, IV a = IV()) { IVV p0 = recs(p), o0 = recs(off); mark(std::string("merge ") + kind); bool t = thrown([&] { M(p, off); }); Ev("mrg").f("kind", kind).f("dir", Dir<F>::v).f("pop", p0).f("off", o0).f("a", a).f("threw", t).f("same", p0 == recs(p)).f("res", t ? IVV() : recs(off)); }
  void spl(const char* kind, eoReduceSplit<X>& S, P p, int k, bool ret, P elim) { IVV p0 = recs(p), e0 = recs(elim); mark(std::string("split ") + kind); bool t = thrown([&] { S(p, elim); }); Ev("spl").f("kind", kind).f("dir", Dir<F>::v).f("pop", p0).f("k", k).f("ret", ret).f("had", e0).f("threw", t).f("res", recs(p)).f("elim", recs(elim)); }
  // every parent overwritten where it stands
  struct InPlace : eoReplacement<X> { void operator()(P& p, P& o) { for (size_t i = 0; i < p.size(); ++i) p[i] = o[i]; } };
  P pop(int lo, int hi, int first) { return mkpop<F>(r, r.in(lo, hi), first); }
  // a number of individuals as count or rate (in eighths)
  struct Hm { eoHowMany h; long rate8, count; long of(long n) const { return count ? (count < 0 ? n + count : count) : (rate8 * n + 7) / 8; } };
  Hm hm(int maxcount) { Hm x; if (r.coin() && maxcount > 0) { x.count = r.in(1, maxcount); x.rate8 = 0; x.h = r.coin() ? eoHowMany((int)x.count) : eoHowMany((double)x.count, false); } else { x.count = 0; x.rate8 = r.in(0, 8); x.h = eoHowMany(x.rate8 / 8.0); } return x; }
  void all() {
    P par = pop(1, 7, 1), off = pop(0, 9, 101); int n = par.size(), m = off.size();
    { eoPlusReplacement<X> R; rep("plus", R, par, off); } { eoCommaReplacement<X> R; rep("comma", R, par, off); } { eoGenerationalReplacement<X> R; rep("gen", R, par, off); }
    { int t = r.in(1, 6); eoEPReplacement<X> R(t); rep("ep", R, par, off); }
    { eoSSGAWorseReplacement<X> R; rep("ssworse", R, par, off); } { int t = r.in(1, 4); eoSSGADetTournamentReplacement<X> R(t); rep("ssdet", R, par, off, IV{t}); } { eoSSGAStochTournamentReplacement<X> R(r.in(4, 8) / 8.0); rep("ssstoch", R, par, off); }
    if (m > 0) { eoGenerationalReplacement<X> g; eoWeakElitistReplacement<X> R(g); rep("weakgen", R, par, off); eoCommaReplacement<X> c; eoWeakElitistReplacement<X> R2(c); if (m >= n) rep("weakcomma", R2, par, off); InPlace ip; eoWeakElitistReplacement<X> R3(ip); if (m >= n) rep("weakin", R3, par, off); eoSSGAWorseReplacement<X> sw; eoWeakElitistReplacement<X> R4(sw); if (m <= n) rep("weakss", R4, par, off); }
    { int e = r.in(1, n); eoMGGReplacement<X> R(eoHowMany(e), r.in(1, 4)); if (m > 0) rep("mgg", R, par, off, IV{e}); eoMGGReplacement<X> Rd; if (m > 0 && n >= 2) rep("mgg", Rd, par, off, IV{2}); }
    { int e = r.in(1, n); eoG3Replacement<X> R((eoHowMany(e))); rep("g3", R, par, off, IV{e}); eoG3Replacement<X> Rd; if (n >= 2) rep("g3", Rd, par, off, IV{2}); }
    eoTruncate<X> tr; eoRandomReduce<X> rr; eoLinearTruncate<X> lt; int t1 = r.in(1, 5); eoDetTournamentTruncate<X> dt(t1); double t2 = r.in(4, 8) / 8.0; eoStochTournamentTruncate<X> st(t2); eoEPReduce<X> ep(r.in(1, 6));
    { Hm el = hm(n); long e = el.of(n), rest = n - e; Hm sp = hm((int)rest), so = hm(m); long rp = sp.of(rest), ro = so.of(m); bool strong = r.coin(); bool trunc = r.coin(); int w = r.below(2); eoReduce<X>& any = w ? (eoReduce<X>&)rr : lt; eoReduceMergeReduce<X> R(el.h, strong, sp.h, trunc ? (eoReduce<X>&)tr : any, so.h, trunc ? (eoReduce<X>&)tr : any, trunc ? (eoReduce<X>&)tr : any); rep(strong ? "rmrstrong" : "rmrweak", R, par, off, IV{e, rp, ro, trunc || w == 0}); }
    { long sp = r.in(0, n), dp = r.in(0, n), so = r.in(0, m), dd = r.in(0, m); bool own = r.coin(); if (r.coin()) { std::unique_ptr<eoDeterministicSaDReplacement<X> > R; if (own) R.reset(new eoDeterministicSaDReplacement<X>(tr, sp / 8.0, dp / 8.0, so / 8.0, dd / 8.0)); else R.reset(new eoDeterministicSaDReplacement<X>(sp / 8.0, dp / 8.0, so / 8.0, dd / 8.0)); auto q = [](long k, long z) { return (k * z + 7) / 8; }; if (sp <= 8 && dp <= 8 && so <= 8 && dd <= 8) rep("sad", *R, par, off, IV{q(sp, n), q(dp, n), q(so, m), q(dd, m)}); }
      else { sp = std::max(1l, sp); dp = std::max(1l, dp); so = std::max(1l, so); dd = std::max(1l, dd); eoDeterministicSaDReplacement<X> R(sp, dp, so, dd, false); if (so <= m && dd <= m) rep("sad", R, par, off, IV{sp, dp, so, dd}); } }
    { P p = pop(1, 9, 1); int k = r.in(0, (int)p.size() + 1); red("trunc", tr, p, k); red("random", rr, p, k); red("linear", lt, p, k); red("det", dt, p, k, IV{t1}); red("stoch", st, p, k); red("ep", ep, p, k); }
    { int e8 = r.in(0, 8); eoElitism<X> e(e8 / 8.0); mrg("elite", e, par, off, IV{(e8 * n) / 8}); int c = r.in(0, n + 1); eoElitism<X> e2(c, false); mrg("elite", e2, par, off, IV{c}); eoNoElitism<X> ne; mrg("elite", ne, par, off, IV{0}); eoPlus<X> pl; mrg("plus", pl, par, off); }
    { P p = pop(1, 9, 1), el = r.coin() ? P() : pop(1, 3, 201); Hm h = hm((int)p.size()); bool ret = r.coin(); long k = h.of(p.size()); eoTruncateSplit<X> s1(h.h, ret); spl("trunc", s1, p, k, ret, el); eoLinearTruncateSplit<X> s2(h.h, ret); spl("trunc", s2, p, k, ret, el); eoRandomSplit<X> s3(h.h, ret); spl("random", s3, p, k, ret, el); eoDetTournamentTruncateSplit<X> s4(r.in(1, 4), h.h, ret); spl("det", s4, p, k, ret, el); if (!ret) { eoTruncateSplit<X> s5(h.h); spl("trunc", s5, p, k, false, el); } }
    { P p = pop(1, 9, 1), lucky; Hm s = hm((int)p.size()); long a = s.of(p.size()); long b = r.in(0, (int)p.size()); int n0 = p.size(); eoDeterministicSurviveAndDie<X> d(s.count ? (double)s.count : s.rate8 / 8.0, s.count ? (double)b : b / 16.0, !s.count); if (s.count && b == 0) return; long kill = std::min(s.count ? b : (b * n0 + 15) / 16, n0 - a); IVV p0 = recs(p); d(p, lucky); Ev("sadpart").f("dir", Dir<F>::v).f("pop", p0).f("s", a).f("k", kill).f("lucky", recs(lucky)).f("res", recs(p)); } }
  // survival frequencies of the stochastic strategies
  void rates() { P p; for (int i = 0; i < 6; ++i) p.push_back(ind<F>(i, Dir<F>::v ? -i : i)); /* 5 is best */ int K = 2000; auto run = [&](const char* kind, int t, int keep, std::function<void(P&)> f) { IV c(6, 0); for (int k = 0; k < K; ++k) { P q = p; q.shuffle(); f(q); for (auto& x : q) c[x[0]]++; } Ev("rate").f("kind", kind).f("t", t).f("K", K).f("keep", keep).f("c", c); };
    eoEPReduce<X> ep(4); run("eprate", 4, 3, [&](P& q) { ep(q, 3); }); eoStochTournamentTruncate<X> s1(1.0), s2(0.75); run("stochrate", 8, 3, [&](P& q) { s1(q, 3); }); run("stochrate", 6, 3, [&](P& q) { s2(q, 3); }); eoDetTournamentTruncate<X> d(3); run("detrate", 3, 3, [&](P& q) { d(q, 3); }); eoRandomReduce<X> rr; eoReduce<X>& rq = rr; run("rndrate", 0, 3, [&](P& q) { rq(q, 3); }); }
};
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 60 * args().scale; ++ep) { eo::rng.reseed(r.next() % 100000 + 1); if (ep % 2) Rp<double>(r).all(); else Rp<eoMinimizingFitness>(r).all(); if (ep < 2) { if (ep % 2) Rp<double>(r).rates(); else Rp<eoMinimizingFitness>(r).rates(); } }
  return done(); }
