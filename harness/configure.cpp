// Algorithms assembled from command-line options: what a run does with them.
#include "eo_pop.hpp"
#include <set>
#ifdef EASEA
#include <es/eoReal.h>
#include <es/make_genotype_real.h>
#include <do/make_algo_easea.h>
#include <es/make_op_real.h>
#else
#include <ga/eoBit.h>
#include <ga/make_genotype_ga.h>
#include <do/make_algo_scalar.h>
#include <ga/make_op.h>
#endif
#include <do/make_continue.h>
#include <do/make_pop.h>
#include <do/make_run.h>
typedef std::vector<std::string> SV;
struct Opt { std::vector<std::string> s; std::vector<char*> v; std::unique_ptr<eoParser> p; Opt(const SV& o) : s(o) { s.insert(s.begin(), "prog"); for (auto& x : s) v.push_back(&x[0]); p.reset(new eoParser((unsigned)v.size(), v.data(), "driver")); } eoParser& operator*() { return *p; } };
template <class F> struct Op : eoGenOp<Ind<F> > { std::vector<long> picks; long next = 100; unsigned max_production() { return 1; } std::string className() const { return "Op"; } void apply(eoPopulator<Ind<F> >& p) { Ind<F>& x = *p; picks.push_back(x[0]); x[0] = (int)next++; x.invalidate(); } };
template <class F> struct Fit : eoEvalFunc<Ind<F> > { std::vector<long> f; IVV seen; bool mono = false; void operator()(Ind<F>& x) { if (!x.invalid()) return; long v = x[0] < 100 ? x[0] : f[(x[0] - 100) % f.size()]; x.fitness(F(v)); seen.push_back(IV{x[0], v}); } };
template <class F> struct Dist1 : eoDistance<Ind<F> > { double operator()(const Ind<F>& a, const Ind<F>& b) { return std::abs(a[0] - b[0]); } };
template <class F> struct Gens : eoContinue<Ind<F> > { int left; Gens(int n) : left(n) {} bool operator()(const eoPop<Ind<F> >&) { return --left > 0; } std::string className() const { return "Gens"; } };
static std::string num8(int e) { char b[32]; snprintf(b, 32, "%g", e / 8.0); return b; }
template <class F> static eoAlgo<Ind<F> >& algo(Opt& o, eoState& st, Fit<F>& f, eoContinue<Ind<F> >& c, Op<F>& op, eoDistance<Ind<F> >* d = nullptr) {
#ifdef EASEA
  (void)d; return do_make_algo_scalar(*o, st, static_cast<eoEvalFunc<Ind<F> >&>(f), c, op);
#else
  return do_make_algo_scalar(*o, st, static_cast<eoEvalFunc<Ind<F> >&>(f), c, op, d);
#endif
}
// distinct fitness values for parents, ids 1..n
static std::vector<long> distinct(Rng& r, int n, int lo, int hi) { std::set<long> s; while ((int)s.size() < n) s.insert(r.in(lo, hi)); std::vector<long> v(s.begin(), s.end()); for (int i = n - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); return v; }
template <class F> static void picks(Rng& r) { const int dir = Dir<F>::v; int n = r.in(2, 6), K = 1600; eoPop<Ind<F> > p; auto fs = distinct(r, n, 1, 30); std::string kind, text; IV a; Dist1<F> dist; bool usedist = false;
#ifdef EASEA
  int w = r.below(12); if (w == 8) w = 11;
#else
  int w = r.below(11); if (w == 8 && dir) w = 2;
#endif
  if (w == 7 && dir) w = 3; SV o;
  switch (w) { case 0: { int t = r.in(2, 4); kind = "dettour"; a = {t}; text = "DetTour(" + std::to_string(t) + ")"; break; }
    case 1: kind = "dettour"; a = {2}; if (r.coin()) text = "DetTour"; break;
    case 2: { int t = r.in(4, 8); kind = "stochtour"; a = {t}; text = "StochTour(" + num8(t) + ")"; break; }
    case 3: { int q = r.in(9, 16), e = r.in(1, 2); kind = "ranking"; a = {q, e}; text = "Ranking(" + num8(q) + "," + std::to_string(e) + ")"; break; }
    case 4: kind = "ranking"; if (r.coin()) { a = {16, 1}; text = "Ranking"; } else { int q = r.in(9, 16); a = {q, 1}; text = "Ranking(" + num8(q) + ")"; } break;
    case 5: kind = "ordered"; text = r.coin() ? "Sequential" : "Sequential(ordered)"; break;
    case 6: kind = "unordered"; text = "Sequential(unordered)"; break;
    case 7: kind = "roulette"; text = "Roulette"; if (r.coin()) fs[0] = 0; break;
    case 8: { n = 3; fs = distinct(r, n, 1, 9); int s = r.in(1, 6); kind = "sharing"; a = {s}; text = "Sharing(" + std::to_string(s) + ")"; usedist = true; break; }
    case 9: kind = "random"; text = "Random"; break;
    case 10: kind = "stochtour"; a = {8}; text = "StochTour"; break;
    default: kind = "elite"; text = "EliteSequential"; }
  for (int i = 0; i < n; ++i) p.push_back(ind<F>(i + 1, fs[i])); IVV was = recs(p); if (!text.empty()) o.push_back("--selection=" + text); o.push_back("--nbOffspring=" + std::to_string(K));
  mark("selection " + text); Opt opt(o); eoState st; Fit<F> f; f.f = {0}; Gens<F> c(1); Op<F> op; algo<F>(opt, st, f, c, op, usedist ? &dist : nullptr)(p); IV cnt(n, 0), first; long bad = 0; for (long x : op.picks) { if (x >= 1 && x <= n) ++cnt[x - 1]; else ++bad; } for (int i = 0; i < 3 * n && i < (int)op.picks.size(); ++i) first.push_back(op.picks[i]);
  Ev("pick").f("kind", kind).f("a", a).f("pop", was).f("dir", dir).f("K", K).f("n", (long)op.picks.size()).f("bad", bad).f("c", cnt).f("out", first); }
template <class F> static void repl(Rng& r) { const int dir = Dir<F>::v; int n = r.in(3, 8), m, h8 = 0, hc = 0; SV o; auto fs = distinct(r, 24, -40, 40); std::string kind, text; IV a; bool weak = false; bool rate = r.coin(); bool threwok = false; (void)threwok;
#ifdef EASEA
  int w = r.below(10); bool few = w == 4 || w == 8; bool many = w == 1 || w == 2 || w == 3;
#else
  int w = r.below(6); bool few = w >= 3; bool many = w == 0;
#endif
  if (rate) { h8 = few ? r.in(1, 8) : many ? r.in(8, 14) : r.in(1, 14); m = (h8 * n + 7) / 8; o.push_back("--nbOffspring=" + std::string(h8 % 8 ? std::to_string(h8 * 125 / 10) + "." + std::to_string(h8 * 125 % 10) + "%" : std::to_string(h8 / 8 * 100) + "%")); } else { m = few ? r.in(1, n) : many ? r.in(n, n + 6) : r.in(1, n + 6); hc = m; o.push_back("--nbOffspring=" + std::to_string(m)); }
#ifdef EASEA
  auto how = [&](const char* nm, int size, int lo, int hi) { int c = r.in(std::max(lo, 1), hi); (void)size; o.push_back(std::string("--") + nm + "=" + std::to_string(c)); return c; };
  switch (w) { case 0: case 5: { kind = "general"; int e = 0, rp = 0, ro = m; bool strong = false, exact = true; if (r.coin()) { e = how("elite", n, 1, std::max(1, n / 2)); strong = r.coin(); o.push_back(std::string("--eliteType=") + (strong ? "1" : "0")); } if (r.coin(2, 3) && e < n) rp = how("surviveParents", n, 1, n - e); if (r.coin()) ro = how("surviveOffspring", m, 1, m); if (rp + ro < (strong ? n - e : n)) { e = 0; strong = false; rp = n; for (size_t i = 0; i < o.size(); ++i) if (o[i].find("surviveParents") != std::string::npos || o[i].find("elite") != std::string::npos) o.erase(o.begin() + i--); o.push_back(r.coin() ? std::string("--surviveParents=100%") : "--surviveParents=" + std::to_string(n)); }
      const char* red[] = {"reduceParents", "reduceOffspring", "reduceFinal"}; for (int q = 0; q < 3; ++q) switch (r.below(6)) { case 0: o.push_back(std::string("--") + red[q] + "=Deterministic"); break; case 1: o.push_back(std::string("--") + red[q] + "=DetTour(500)"); break; case 2: o.push_back(std::string("--") + red[q] + "=EP(6000)"); break; case 3: if (r.coin(1, 3)) { exact = false; o.push_back(std::string("--") + red[q] + (r.coin() ? "=Uniform" : r.coin() ? "=StochTour(0.75)" : "=Random")); } break; case 4: if (r.coin(1, 3)) o.push_back(std::string("--") + red[q] + "=Sequential"); break; default:; }
      a = {e, rp, ro, exact, strong}; if (r.coin()) text = "General"; break; }
    case 1: kind = "comma"; text = "ESComma"; break; case 2: kind = "comma"; text = "Generational"; break; case 3: case 6: kind = "plus"; text = r.coin() ? "ESPlus" : "EP(6000)"; break; case 4: kind = "ssga"; text = r.coin() ? "SSGA(500)" : "SSGA"; a = {text == "SSGA(500)"}; break;
    case 7: { kind = "g3"; text = "G3"; int k = 2; if (r.coin()) { k = r.in(1, n - 1); o.push_back("--surviveParents=" + std::to_string(k)); a = {n - k}; } else a = {2}; break; }
    default: { kind = "mgg"; text = "MGG(500)"; if (r.coin()) { int k = r.in(1, n - 2); o.push_back("--surviveParents=" + std::to_string(k)); a = {n - k}; } else a = {2}; } }
#else
  switch (w) { case 0: kind = "comma"; if (r.coin()) text = "Comma"; break; case 1: kind = "plus"; text = "Plus"; break; case 2: kind = "plus"; text = "EPTour(6000)"; break; case 3: kind = "ssworse"; text = "SSGAWorst"; break; case 4: kind = "ssworse"; text = "SSGADet(500)"; break; default: kind = "ssany"; text = r.coin() ? "SSGADet" : r.coin() ? "SSGAStoch(0.75)" : "SSGAStoch"; }
  if (r.coin(1, 3)) { weak = true; o.push_back(r.coin() ? "--weakElitism=1" : "-w"); } else if (r.coin(1, 4)) o.push_back("--weakElitism=0");
#endif
  if (!text.empty()) o.push_back("--replacement=" + text); mark("replacement " + text); std::string all; for (auto& x : o) all += x + " "; eoPop<Ind<F> > p; for (int i = 0; i < n; ++i) p.push_back(ind<F>(i + 1, fs[i])); IVV was = recs(p); Opt opt(o); eoState st; Fit<F> f; f.f.assign(fs.begin() + n, fs.end()); Gens<F> c(1); Op<F> op; algo<F>(opt, st, f, c, op)(p);
  Ev("repl").f("kind", kind).f("a", a).f("weak", weak).f("par", was).f("off", f.seen).f("h8", h8).f("hc", hc).f("res", recs(p)).f("dir", dir).f("txt", all); }
// which parent one offspring pushes out, over many runs
template <class F> static void pushout(Rng& r) { const int dir = Dir<F>::v; int n = r.in(2, 6), K = 700, t8 = r.in(4, 8); bool stoch = r.coin(); std::string text = stoch ? (t8 == 8 && r.coin() ? "Stoch" : "Stoch(" + num8(t8) + ")") : (r.coin() ? "Det(2)" : "Det"); auto fs = distinct(r, n + 1, -40, 40);
#ifdef EASEA
  if (t8 <= 4) t8 = 5; text = stoch ? "SSGA(" + num8(t8) + ")" : r.coin() ? "SSGA(2)" : "SSGA"; if (stoch && t8 == 8) text = "SSGA(1)";
#else
  text = "SSGA" + text;
#endif
  mark("replacement " + text); Opt opt(SV{"--nbOffspring=1", "--replacement=" + text}); eoState st; Fit<F> f; f.f = {fs[n]}; Gens<F> c(1); Op<F> op; eoAlgo<Ind<F> >& al = algo<F>(opt, st, f, c, op); IV cnt(n, 0); eoPop<Ind<F> > p0; for (int i = 0; i < n; ++i) p0.push_back(ind<F>(i + 1, fs[i])); long bad = 0; for (int k = 0; k < K; ++k) { eoPop<Ind<F> > p = p0; al(p); std::vector<int> has(n, 0); int kids = 0; for (auto& x : p) if (x[0] >= 100) ++kids; else if (x[0] >= 1 && x[0] <= n) ++has[x[0] - 1]; int gone = 0; for (int i = 0; i < n; ++i) if (!has[i]) { ++cnt[i]; ++gone; } if ((int)p.size() != n || kids != 1 || gone != 1) ++bad; }
  Ev("pushout").f("kind", stoch ? "outstoch" : "outdet").f("a", t8).f("pop", recs(p0)).f("c", cnt).f("K", K).f("bad", bad).f("dir", dir).f("txt", text); }
template <class F> struct Watch : eoContinue<Ind<F> > { eoContinue<Ind<F> >& c; IV best; Watch(eoContinue<Ind<F> >& c) : c(c) {} bool operator()(const eoPop<Ind<F> >& p) { best.push_back(exactint((double)p.best_element().fitness())); if (best.size() > 160) throw std::runtime_error("does not stop"); return c(p); } std::string className() const { return "Watch"; } };
template <class F> static void stopping(Rng& r) { const int dir = Dir<F>::v; int n = r.in(1, 5), m = r.in(1, 5); SV o{"--nbOffspring=" + std::to_string(m), "--replacement=" + std::string(
#ifdef EASEA
    "ESPlus"
#else
    "Plus"
#endif
    )}; IVV crit; auto has = [&](int k, int a, int b = 0) { crit.push_back(IV{k, a, b}); }; int w = r.below(16); bool any = false; if (w & 1 || r.coin(1, 3)) { int g = r.in(1, 30); o.push_back("--maxGen=" + std::to_string(g)); has(1, g); any = true; } else { o.push_back("--maxGen=0"); } if (w & 2) { int s = r.in(1, 8), g = r.coin() ? 0 : r.in(1, 12); o.push_back("--steadyGen=" + std::to_string(s)); if (g) o.push_back("--minGen=" + std::to_string(g)); has(2, g, s); any = true; } else if (r.coin(1, 4)) o.push_back("--minGen=5"); if (w & 4) { int e = r.in(1, 90); o.push_back("--maxEval=" + std::to_string(e)); has(3, e); any = true; } if (w & 8) { int t = r.in(1, 40); t = dir ? -t : t; o.push_back("--targetFitness=" + std::to_string(t)); has(4, t); }
  bool none = crit.empty(); bool pure = !any && !none && r.coin(); if (!any && !none && !pure) { o.push_back("--maxEval=80"); has(3, 80); } if (none && r.coin()) { o.erase(std::remove(o.begin(), o.end(), "--maxGen=0"), o.end()); has(1, 100); none = false; } for (int i = (int)o.size() - 1; i > 0; --i) std::swap(o[i], o[r.below(i + 1)]); mark("stopping criteria");
  Opt opt(o); eoState st; Fit<F> f; int len = r.in(3, 120); long v = 0; for (int i = 0; i < len; ++i) { if (r.coin(1, 2 + i / 12)) v += r.in(0, 3); f.f.push_back(dir ? -v : v); } if (pure) { f.f.resize(r.in(1, len)); f.f.push_back(crit[0][1] + (dir ? -1 : 1) * r.below(2)); } eoEvalFuncCounter<Ind<F> > cnt(f); bool threw = false; IV best; try { eoContinue<Ind<F> >& c = do_make_continue(*opt, st, cnt); Watch<F> wc(c); Op<F> op; eoPop<Ind<F> > p; for (int i = 0; i < n; ++i) { Ind<F> x(1, dir ? 50 : 0); x.invalidate(); p.push_back(x); }
#ifdef EASEA
    eoAlgo<Ind<F> >& al = do_make_algo_scalar(*opt, st, static_cast<eoEvalFunc<Ind<F> >&>(cnt), static_cast<eoContinue<Ind<F> >&>(wc), static_cast<eoGenOp<Ind<F> >&>(op));
#else
    eoAlgo<Ind<F> >& al = do_make_algo_scalar(*opt, st, static_cast<eoEvalFunc<Ind<F> >&>(cnt), static_cast<eoContinue<Ind<F> >&>(wc), static_cast<eoGenOp<Ind<F> >&>(op));
#endif
    if (r.coin()) do_run(al, p); else al(p); best = wc.best; } catch (eoException&) { threw = true; }
  Ev("stop").f("kind", none ? "nocriterion" : crit.size() > 1 ? "stopany" : crit[0][0] == 1 ? "maxgen" : crit[0][0] == 2 ? "steady" : crit[0][0] == 3 ? "maxeval" : "target").f("crit", crit).f("none", none).f("threw", threw).f("n", n).f("m", m).f("best", best).f("evals", (long)cnt.value()).f("dir", dir); }
template <class X> static bool throws(X f) { try { f(); } catch (std::exception&) { return true; } return false; }
static void bads(Rng& r) { typedef double F; Fit<F> f; f.f = {0}; Gens<F> c(1); Op<F> op; auto go = [&](const char* kind, const SV& o) { Ev("refuse").f("kind", kind).f("txt", o[0]).f("threw", throws([&] { Opt opt(o); eoState st; algo<F>(opt, st, f, c, op); })); };
  mark("invalid options"); const char* s[] = {"--selection=Nothing", "--selection=Detour(2)", "--selection=dettour(2)"}; go("badsel", SV{s[r.below(3)]}); const char* q[] = {"--replacement=Nothing", "--replacement=comma", "--replacement=PlusPlus"}; go("badrep", SV{q[r.below(3)]});
#ifdef EASEA
  go("badmgg", SV{"--replacement=MGG(1)"}); go("badreduce", SV{std::string(r.coin() ? "--reduceParents=" : r.coin() ? "--reduceOffspring=" : "--reduceFinal=") + "Nothing"}); go("badstoch", SV{std::string(r.coin() ? "--reduceParents=" : "--reduceFinal=") + (r.coin() ? "StochTour(1.5)" : "StochTour(0.25)")});
#else
  go("nodist", SV{"--selection=Sharing(2)"});
#endif
}
#ifndef EASEA
typedef eoBit<double> B; struct BInit : eoInit<B> { void operator()(B&) {} };
struct RSel : eoSelectOne<B> { Rng& r; RSel(Rng& r) : r(r) {} const B& operator()(const eoPop<B>& p) { return p[r.below(p.size())]; } };
static IV bits(const B& b) { IV o; for (bool x : b) o.push_back(x); return o; }
static void ga(Rng& r) { int L = r.in(8, 12), K = 200, w = r.below(10), a = 0; SV o; std::string kind; bool cross = false; auto opt = [&](const char* k, const std::string& v) { o.push_back(std::string("--") + k + "=" + v); };
  switch (w) { case 0: kind = "none"; cross = true; opt("pCross", "0"); opt("pMut", "0"); break;
    case 1: case 2: case 3: { cross = true; kind = w == 1 ? "onept" : w == 2 ? "twopt" : "unif"; a = r.coin() ? 8 : 4; opt("pCross", num8(a)); opt("pMut", "0"); opt("onePointRate", w == 1 ? "1" : "0"); opt("twoPointRate", w == 2 ? "0.5" : "0"); opt("uRate", w == 3 ? "2" : "0"); break; }
    case 4: kind = "flip"; a = r.in(0, 4); opt("pCross", "1"); opt("pMut", "1"); opt("pMutPerBit", num8(a)); opt("bitFlipRate", "0.5"); opt("oneBitRate", "0"); opt("kBitRate", "0"); break;
    case 5: kind = "onebit"; a = r.in(0, 8); opt("pMut", num8(a)); opt("bitFlipRate", "0"); opt("oneBitRate", "0.01"); if (r.coin()) opt("kBitRate", "0"); opt("kBit", "3"); break;
    case 6: kind = "kbit"; a = r.in(1, 4); opt("pMut", "1"); opt("bitFlipRate", "0"); opt("oneBitRate", "0"); opt("kBitRate", "1"); opt("kBit", std::to_string(a)); break;
    case 7: kind = "mixmut"; a = r.in(1, 7); opt("pMut", "1"); opt("bitFlipRate", "0"); opt("oneBitRate", num8(a)); opt("kBitRate", num8(8 - a)); opt("kBit", "2"); break;
    case 8: { const char* bad[] = {"pCross=1.5", "pCross=-0.5", "pMut=-1", "pMut=1.25", "onePointRate=-1", "twoPointRate=-0.5", "uRate=-2", "pMutPerBit=0.75", "pMutPerBit=-0.25", "bitFlipRate=-1", "oneBitRate=-1", "kBit=0", "kBitRate=-1", "operator=GP"}; for (auto b : bad) { mark(b); Ev("refuse").f("kind", "badop").f("txt", b).f("threw", throws([&] { Opt op(SV{std::string("--") + b}); eoState st; BInit in; do_make_op(*op, st, in); })); } return; }
    default: kind = "none"; cross = true; opt("pCross", "1"); opt("pMut", "0"); L = 1; opt("onePointRate", "0"); opt("twoPointRate", "0"); }
  mark("ga operator " + kind); for (int i = (int)o.size() - 1; i > 0; --i) std::swap(o[i], o[r.below(i + 1)]); Opt op(o); eoState st; BInit in; eoGenOp<B>& g = do_make_op(*op, st, static_cast<eoInit<B>&>(in)); eoPop<B> p, q; for (int i = 0; i < 2; ++i) { B x(L, cross && i); x.fitness(0); p.push_back(x); } RSel sel(r); eoHowMany hm(K); eoGeneralBreeder<B> br(sel, g, hm); br(p, q); IVV kids; bool valid = true; for (auto& x : q) { kids.push_back(bits(x)); bool same = x == p[0] || x == p[1]; if (!same && !x.invalid()) valid = false; } IVV par; for (auto& x : p) par.push_back(bits(x));
  Ev("bits").f("kind", kind).f("a", a).f("L", L).f("K", K).f("kids", kids).f("par", par).f("fit", valid); }
static void geno(Rng& r) { int L = r.in(1, 14); mark("make_genotype_ga"); Opt o(SV{"--chromSize=" + std::to_string(L)}); eoState st; eoInit<B>& in = do_make_genotype(*o, st, B(), r.coin() ? 1.0f : 0.0f); B x; in(x); Ev("geno").f("kind", "chrom").f("L", L).f("n", (long)x.size()); }
#else
typedef eoReal<double> X; struct RSel : eoSelectOne<X> { Rng& r; RSel(Rng& r) : r(r) {} const X& operator()(const eoPop<X>& p) { return p[r.below(p.size())]; } };
static IV vals(const X& x) { IV o; for (double v : x) o.push_back(fx(v, 1000)); return o; }
static void real(Rng& r) { int L = r.in(3, 6), K = 120, w = r.below(10), a = 0; SV o; std::string kind; bool cross = false; auto opt = [&](const char* k, const std::string& v) { o.push_back(std::string("--") + k + "=" + v); }; int lo = -r.in(1, 4), hi = r.in(5, 9);
  switch (w) { case 0: kind = "rnone"; cross = true; opt("pCross", "0"); opt("pMut", "0"); break;
    case 1: case 2: case 3: cross = true; a = r.coin() ? 8 : 4; kind = w == 1 ? "segment" : w == 2 ? "cube" : "ux"; opt("pCross", num8(a)); opt("pMut", "0"); opt("segmentRate", w == 1 ? "1" : "0"); opt("hypercubeRate", w == 2 ? "3" : "0"); opt("uxoverRate", w == 3 ? "2" : "0"); break;
    case 4: case 5: case 6: a = r.in(0, 8); kind = w == 4 ? "runiform" : w == 5 ? "rdet" : "rnormal"; opt("pMut", num8(a)); opt("uniformMutRate", w == 4 ? "1" : "0"); opt("detMutRate", w == 5 ? "1" : "0"); opt("normalMutRate", w == 6 ? "1" : "0"); opt("epsilon", "0.5"); opt("sigma", "0.5"); break;
    case 7: kind = "rpnormal"; a = r.in(1, 8); opt("pMut", "1"); opt("uniformMutRate", "0"); opt("detMutRate", "0"); opt("normalMutRate", "2"); opt("sigma", "0.5"); opt("pNormal", num8(a)); break;
    case 8: { const char* bad[] = {"pCross=1.5", "pCross=-0.5", "pMut=-1", "pMut=1.25", "alpha=-1", "segmentRate=-1", "hypercubeRate=-0.5", "uxoverRate=-2", "epsilon=-0.75", "uniformMutRate=-1", "detMutRate=-1", "normalMutRate=-1", "operator=GP"}; for (auto b : bad) { mark(b); Ev("refuse").f("kind", "badrop").f("txt", b).f("threw", throws([&] { Opt op(SV{std::string("--") + b}); eoState st; eoRealVectorBounds bd(3, -1, 1); eoRealInitBounded<X> in(bd); do_make_op(*op, st, in); })); } return; }
    default: kind = r.coin() ? "nocross" : "nomut"; if (kind == "nocross") { a = 8; opt("pCross", "1"); opt("pMut", "1"); opt("segmentRate", "0"); opt("hypercubeRate", "0"); opt("uxoverRate", "0"); opt("uniformMutRate", "0"); opt("normalMutRate", "0"); } else { cross = true; opt("pCross", "1"); opt("pMut", "1"); opt("segmentRate", "0"); opt("hypercubeRate", "0"); opt("uniformMutRate", "0"); opt("normalMutRate", "0"); opt("detMutRate", "0"); } }
  bool bd = r.coin(); if (bd) opt("objectBounds", std::to_string(L) + "[" + std::to_string(lo) + "," + std::to_string(hi) + "]"); mark("real operator " + kind); Opt op(o); eoState st; eoRealVectorBounds ib(L, -1, 1); eoRealInitBounded<X> in(ib); eoGenOp<X>& g = do_make_op(*op, st, in); eoPop<X> p, q; for (int i = 0; i < 2; ++i) { X x(L, 0.0); for (int j = 0; cross && j < L; ++j) x[j] = i * 4; x.fitness(0); p.push_back(x); } RSel sel(r); eoHowMany hm(K); eoGeneralBreeder<X> br(sel, g, hm); br(p, q); IVV kids; IV changed; bool inb = true, fit = true; for (auto& x : q) { kids.push_back(vals(x)); int c = 0; for (int j = 0; j < L; ++j) { if (x[j] != 0.0) ++c; if (bd && (x[j] < lo || x[j] > hi)) inb = false; } changed.push_back(c); if (x != p[0] && x != p[1] && !x.invalid()) fit = false; }
  Ev("reals").f("kind", kind).f("a", a).f("L", L).f("K", K).f("kids", kids).f("ch", changed).f("inb", inb).f("fit", fit).f("lim", 4000); }
static void geno(Rng& r) { int L = r.in(1, 8), lo = r.in(-5, 0), hi = r.in(1, 5); mark("make_genotype_real"); bool bd = r.coin(); SV v{"--vecSize=" + std::to_string(L)}; if (bd) v.push_back("--initBounds=" + std::to_string(L) + "[" + std::to_string(lo) + "," + std::to_string(hi) + "]"); else lo = -1, hi = 1; Opt o(v); eoState st; auto& in = do_make_genotype(*o, st, X()); X x; in(x); bool ok = true; for (double y : x) if (y < lo || y > hi) ok = false; Ev("geno").f("kind", "vec").f("L", L).f("n", ok ? (long)x.size() : -1L); Ev("refuse").f("kind", "badsigma").f("txt", "sigmaInit").f("threw", throws([&] { Opt o2(SV{"--sigmaInit=-1"}); eoState s2; do_make_genotype(*o2, s2, X()); })); }
#endif
// initial populations
template <class F> struct PInit : eoInit<Ind<F> > { void operator()(Ind<F>& x) { x = Ind<F>(1, 1000 + (int)eo::rng.random(1000000)); x.invalidate(); } };
template <class F> static IV ids(const eoPop<Ind<F> >& p) { IV o; for (auto& x : p) o.push_back(x[0]); return o; }
template <class F> static void mkpop1(Rng& r) { const int dir = Dir<F>::v; PInit<F> in; if (r.coin()) { int n = r.in(1, 9), s = r.in(1, 1000000); mark("make_pop"); auto mk = [&](int n2, int seed) { Opt o(SV{"--popSize=" + std::to_string(n2), "--seed=" + std::to_string(seed)}); eoState st; IV v; eo::rng.reseed(r.below(1000)); v = ids<F>(do_make_pop(*o, st, in)); return v; }; IV a = mk(n, s), b = mk(n, s), c = mk(n + 3, s), d = mk(40, s), e = mk(40, s + 1); Ev("initpop").f("kind", "seeded").f("n", n).f("x", a).f("y", b).f("z", (long)c.size()).f("d", d != e); return; }
  int had = r.in(1, 8), n = r.in(1, 10); bool rec = r.coin(1, 3); eoPop<Ind<F> > p; for (int i = 0; i < had; ++i) p.push_back(ind<F>(i + 1, r.in(-9, 9))); IVV was = recs(p); std::string fn = args().tmp + "/load.sav"; { eoState s; s.registerObject(p); s.registerObject(eo::rng); s.save(fn); } mark("make_pop load"); SV v{"--popSize=" + std::to_string(n), "--Load=" + fn}; if (rec) v.push_back("--recomputeFitness=1"); Opt o(v); eoState st; eoPop<Ind<F> >& q = do_make_pop(*o, st, in); Ev("initpop").f("kind", rec ? "reload" : "load").f("n", n).f("pop", was).f("res", recs(q)).f("dir", dir); unlink(fn.c_str()); }
// how many
static void howmany(Rng& r) { int n = r.in(0, 40), e = r.in(0, 16), c = r.in(1, 40); mark("eoHowMany"); auto ask = [&](eoHowMany h, int size) { try { return (long)h(size); } catch (eoException&) { return -1L; } }; auto pct = [](int e8) { return std::to_string(e8 * 125 / 10) + "." + std::to_string(e8 * 125 % 10) + "%"; };
  auto ev = [&](const char* k, int h8, int hc, const eoHowMany& h) { std::ostringstream t; h.printOn(t); eoHowMany b; std::istringstream is(t.str()); bool rd = true; try { b.readFrom(is); } catch (eoException&) { rd = false; } Ev("how").f("kind", k).f("h8", h8).f("hc", hc).f("n", n).f("got", ask(h, n)).f("neg", ask(-h, n)).f("rd", rd).f("back", rd ? ask(b, n) : -1L); };
  ev("hrate", e, 0, eoHowMany(e / 8.0)); ev("hcount", 0, c, eoHowMany(c)); ev("hcount", 0, -c, eoHowMany(-c)); ev("hcount", 0, c, eoHowMany((unsigned)c)); ev("hcount", 0, c, eoHowMany((double)c, false)); ev("hcount", 0, -c, eoHowMany(-(double)c, false)); int e1 = r.in(1, 8); ev("hrate", 8 - e1, 0, eoHowMany(-e1 / 8.0)); { eoHowMany h(3); h.readFrom(pct(e)); ev("hread", e, 0, h); h.readFrom(std::to_string(c)); ev("hread", 0, c, h); h.value(e / 8.0, true); ev("hset", e, 0, h); h.value(c, false); ev("hset", 0, c, h); } Ev("refuse").f("kind", "badhow").f("txt", "rate below -1").f("threw", throws([&] { eoHowMany h(-1.5); })); }
template <class F> static void all(Rng& r) { switch (r.below(12)) { case 0: case 1: picks<F>(r); break; case 2: pushout<F>(r); break; case 3: case 4: case 5: case 6: for (int i = 0; i < 3; ++i) repl<F>(r); break; case 7: case 8: stopping<F>(r); stopping<F>(r); break; case 9: mkpop1<F>(r); mkpop1<F>(r); break; default: 
#ifdef EASEA
  real(r); geno(r);
#else
  ga(r); geno(r);
#endif
  if (r.coin(1, 4)) bads(r); howmany(r); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; eo::rng.reseed(args().seed * 7 + args().shard + 3); for (int ep = 0; ep < 90 * args().scale; ++ep) guarded("episode", [&] { if (ep & 1) all<double>(r); else all<eoMinimizingFitness>(r); }); return done(); }
