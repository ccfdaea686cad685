// Replacements of multi-objective algorithms, and whole runs of the algorithms.
#include "moeo_common.hpp"
#include <memory>
using namespace vt;

// ---- the problem: objective i of genotype x is (x*c_i + d_i) mod m
struct Pb { IV c, d; long m; IV operator()(long x) const { IV v; for (size_t i = 0; i < c.size(); ++i) v.push_back((x * c[i] + d[i]) % m); return v; } };
static Pb pb;
static Obj xv(const Sol& s) { Obj o; o.f("x", s.id).f("v", s.invalidObjectiveVector() ? IV() : ovints(s.objectiveVector())); return o; }
template <class P> static std::vector<Obj> xvs(const P& p) { std::vector<Obj> r; for (unsigned i = 0; i < p.size(); ++i) r.push_back(xv(p[i])); return r; }

struct TabMetric : public moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double> {
  double operator()(const OV& u, const OV& v) { IV a = ovints(u), c = ovints(v); long s = 0; for (size_t i = 0; i < a.size(); ++i) s += 3 * (i + 1) * a[i] + (2 * (i + 1) + 1) * c[i]; return (((s % 8) + 8) % 8) * std::log(2.0); } };

// ---- what was seen during one run
struct Rec { unsigned n = 0; IV xs; std::vector<Sol> ev; std::vector<Sol> off; bool popMode = false, full = true; bool inited = false, always = true; long evals = 0, ops = 0, gens = 0; long cap = 0; moeoArchive<Sol>* arch = nullptr; };
static Rec R;
struct Eval : public eoEvalFunc<Sol> { void operator()(Sol& s) { if (!s.invalid()) return; s.objectiveVector(mkov(pb(s.id))); R.evals++; R.ev.push_back(s);
  if (!R.inited && R.ev.size() == R.n) { R.inited = true; Ev("init").f("xs", R.xs).f("pop", xvs(R.ev)); R.ev.clear(); } } };
struct PopEval : public eoPopEvalFunc<Sol> { Eval& e; PopEval(Eval& e) : e(e) {} void operator()(eoPop<Sol>&, eoPop<Sol>& off) { bool first = !R.inited; for (auto& s : off) e(s); if (!first) R.off = off; } };
static void genEv(const eoPop<Sol>& p) { R.gens++; static eoPop<Sol> none;
  Ev("gen").f("full", R.full).f("off", xvs(R.popMode ? R.off : R.ev)).f("pop", xvs(p)).f("arch", R.arch ? xvs(*R.arch) : xvs(none)).f("cap", R.cap).f("ops", R.ops).f("always", R.always); R.ev.clear(); R.off.clear(); R.ops = 0; }
struct Cont : public eoContinue<Sol> { long left; bool pre; bool started = false; Cont(long g, bool pre) : left(g), pre(pre) {}
  bool operator()(const eoPop<Sol>& p) { if (pre && !started) { started = true; if (!R.inited) Ev("noinit"); return left > 0; }
    started = true; genEv(p); return --left > 0; } };
struct Quad : public eoQuadOp<Sol> { Rng& r; bool always; Quad(Rng& r, bool a) : r(r), always(a) {} bool operator()(Sol& a, Sol& b) { R.ops++; if (!always && r.coin(1, 3)) return false; long m = r.coin() ? 15 : 51; long x = (a.id & m) | (b.id & ~m), y = (b.id & m) | (a.id & ~m); a.id = x; b.id = y; return true; } };
struct Mon : public eoMonOp<Sol> { Rng& r; bool always; Mon(Rng& r, bool a) : r(r), always(a) {} bool operator()(Sol& a) { R.ops++; if (!always && r.coin(1, 3)) return false; a.id ^= 1L << r.below(8); return true; } };

// ---- a replacement that changes the population's size
struct BadRepl : public moeoReplacement<Sol> { int d; BadRepl(int d) : d(d) {} void operator()(eoPop<Sol>& p, eoPop<Sol>& o) { p.swap(o); if (d < 0) p.pop_back(); else p.push_back(p[0]); } };

static void runs(Rng& r, long eps) {
  static const char* algs[] = {"NSGAII", "NSGA", "MOGA", "IBEA", "SPEA2", "SEEA", "ASEEA", "easy", "easyNSGAII", "easyIBEA"};
  for (long ep = 0; ep < eps; ++ep) for (int a = 0; a < 10; ++a) {
    std::string alg = algs[a]; int nobj = r.coin(2, 3) ? 2 : 3; IV dirs; for (int i = 0; i < nobj; ++i) dirs.push_back(r.below(2)); setDirs(dirs);
    pb = Pb(); pb.m = r.coin(1, 3) ? r.in(2, 6) : r.in(10, 90); for (int i = 0; i < nobj; ++i) { pb.c.push_back(r.in(1, 40)); pb.d.push_back(r.below(pb.m)); }
    R = Rec(); R.n = r.in(2, alg == "NSGAII" || alg == "NSGA" ? 6 : 5); eoPop<Sol> pop; for (unsigned i = 0; i < R.n; ++i) { pop.push_back(Sol(r.below(256))); if (i && r.coin(1, 6)) pop[i] = pop[i - 1]; R.xs.push_back(pop[i].id); }
    bool pre = alg == "SPEA2" || alg == "SEEA" || alg == "ASEEA";
    long gens = r.in(1, 5); int ctor = r.below(5); bool popc = ctor == 2 || ctor == 4; R.popMode = popc;
    bool always = r.coin(); double pc = always ? 1.0 : 0.6; R.full = popc || always; R.always = always;
    if (ctor == 0) gens = pre ? 0 : 1;
    Quad q(r, always); Mon m(r, always); eoSGAGenOp<Sol> go(q, pc, m, 0.5); eoSGATransform<Sol> tr(q, pc, m, always ? 1.0 : 0.5);
    Eval ev; PopEval pe(ev); Cont co(gens, pre); TabMetric tm; moeoUnboundedArchive<Sol> ua(false); moeoSPEA2Archive<Sol> sa(R.cap = r.in(1, R.n)); if (pre) R.arch = &ua; if (alg == "SPEA2") R.arch = &sa;
    long wantg = gens; unsigned amax = r.in(2, 8); // ASEEA keeps at most amax
    Ev("new").f("alg", alg.substr(0, 4) == "easy" && alg.size() > 4 ? alg.substr(4) : alg).f("dirs", dirs).f("n", R.n).f("pb", Obj().f("c", pb.c).f("d", pb.d).f("m", pb.m)).f("ctor", ctor).f("always", always);
    std::unique_ptr<moeoEA<Sol>> A; unsigned mg = pre ? 1 : 1; double ns = 0.01;
    moeoDominanceDepthFitnessAssignment<Sol> ff; moeoFrontByFrontCrowdingDiversityAssignment<Sol> fd; moeoExpBinaryIndicatorBasedFitnessAssignment<Sol> fi(tm, 1.0); moeoDummyDiversityAssignment<Sol> dd;
    moeoDetTournamentSelect<Sol> s1(2); moeoStochTournamentSelect<Sol> s2(0.8); moeoRandomSelect<Sol> s3; int sk = r.below(3); moeoSelectOne<Sol>& sel = sk == 0 ? (moeoSelectOne<Sol>&)s1 : sk == 1 ? (moeoSelectOne<Sol>&)s2 : (moeoSelectOne<Sol>&)s3;
    eoGeneralBreeder<Sol> gb(sel, go); eoSelectMany<Sol> sm(sel, 1.0);
    moeoGenerationalReplacement<Sol> rg; moeoElitistReplacement<Sol> re(ff, fd); moeoEnvironmentalReplacement<Sol> rv(fi, dd);
    guarded(alg.c_str(), [&] {
#define FIVE(T, ...) ctor == 0 ? new T(mg, ev, q, pc, m, 0.5, ##__VA_ARGS__) : ctor == 1 ? new T(co, ev, go, ##__VA_ARGS__) : ctor == 2 ? new T(co, pe, go, ##__VA_ARGS__) : ctor == 3 ? new T(co, ev, tr, ##__VA_ARGS__) : new T(co, pe, tr, ##__VA_ARGS__)
      if (alg == "NSGAII") A.reset(FIVE(moeoNSGAII<Sol>));
      else if (alg == "NSGA") A.reset(FIVE(moeoNSGA<Sol>, ns));
      else if (alg == "MOGA") A.reset(FIVE(moeoMOGA<Sol>, ns));
      else if (alg == "IBEA") { int k = r.below(7); if (k == 6 && popc) A.reset(new moeoIBEA<Sol>(co, pe, go, fi)); else if (k == 6 && ctor) A.reset(new moeoIBEA<Sol>(co, ev, go, fi)); else A.reset(FIVE(moeoIBEA<Sol>, tm, 1.0)); }
      else if (alg == "SPEA2") { bool two = r.coin(1, 3); A.reset(two && popc ? new moeoSPEA2<Sol>(co, pe, q, pc, m, 0.5, sa, 1u + r.below(2), r.coin()) : two && ctor ? new moeoSPEA2<Sol>(co, ev, q, pc, m, 0.5, sa) : FIVE(moeoSPEA2<Sol>, sa, 1)); }
      else if (alg == "SEEA") A.reset(FIVE(moeoSEEA<Sol>, ua));
      else if (alg == "ASEEA") A.reset(ctor == 0 ? new moeoASEEA<Sol>(mg, ev, q, pc, m, 0.5, ua, amax) : ctor == 1 ? new moeoASEEA<Sol>(co, ev, q, pc, m, 0.5, ua, amax) : ctor == 2 ? new moeoASEEA<Sol>(co, pe, q, pc, m, 0.5, ua, amax) : ctor == 3 ? new moeoASEEA<Sol>(co, ev, tr, ua, amax) : new moeoASEEA<Sol>(co, pe, tr, ua, amax));
      else { moeoReplacement<Sol>& rp = alg == "easy" ? (moeoReplacement<Sol>&)rg : alg == "easyNSGAII" ? (moeoReplacement<Sol>&)re : (moeoReplacement<Sol>&)rv;
        moeoFitnessAssignment<Sol>& f = alg == "easyIBEA" ? (moeoFitnessAssignment<Sol>&)fi : ff; moeoDiversityAssignment<Sol>& d = alg == "easyIBEA" ? (moeoDiversityAssignment<Sol>&)dd : fd; bool each = r.coin() || alg == "easy";
        A.reset(ctor <= 1 ? new moeoEasyEA<Sol>(co, ev, gb, rp, f, d, each) : ctor == 2 ? new moeoEasyEA<Sol>(co, pe, gb, rp, f, d, each) : ctor == 3 ? new moeoEasyEA<Sol>(co, ev, sm, tr, rp, f, d, each) : new moeoEasyEA<Sol>(co, pe, sm, tr, rp, f, d, each)); }
      (*A)(pop);
      if (ctor == 0 && alg.substr(0, 4) != "easy") { if (!pre) genEv(pop); }
      Ev("end").f("gens", R.gens).f("want", wantg).f("pop", xvs(pop));
    });
    // several generations through the default continuator: only the totals are visible
    if (ctor == 0 && alg.substr(0, 4) != "easy" && always) guarded((alg + " default continuator").c_str(), [&] {
      R.n = pop.size() ? R.n : 0; unsigned g = r.in(2, 5); R.inited = false; R.ev.clear(); R.evals = 0; R.ops = 0; unsigned n = R.xs.size(); R.n = n; eoPop<Sol> p2; R.xs.clear(); for (unsigned i = 0; i < n; ++i) { p2.push_back(Sol(r.below(256))); R.xs.push_back(p2[i].id); }
      ua.clear(); moeoSPEA2Archive<Sol> sa2(n); R.arch = alg == "SPEA2" ? (moeoArchive<Sol>*)&sa2 : pre ? &ua : nullptr; double pc = 1.0;
      Ev("new").f("alg", alg).f("dirs", dirs).f("n", n).f("pb", Obj().f("c", pb.c).f("d", pb.d).f("m", pb.m)).f("ctor", 9).f("always", always);
      if (alg == "NSGAII") A.reset(new moeoNSGAII<Sol>(g, ev, q, pc, m, 0.5)); else if (alg == "NSGA") A.reset(new moeoNSGA<Sol>(g, ev, q, pc, m, 0.5)); else if (alg == "MOGA") A.reset(new moeoMOGA<Sol>(g, ev, q, pc, m, 0.5));
      else if (alg == "IBEA") A.reset(new moeoIBEA<Sol>(g, ev, q, pc, m, 0.5, tm, 1.0)); else if (alg == "SPEA2") A.reset(new moeoSPEA2<Sol>(g, ev, q, pc, m, 0.5, sa2)); else if (alg == "SEEA") A.reset(new moeoSEEA<Sol>(g, ev, q, pc, m, 0.5, ua)); else A.reset(new moeoASEEA<Sol>(g, ev, q, pc, m, 0.5, ua, amax));
      (*A)(p2); static eoPop<Sol> none;
      Ev("long").f("g", (long)(pre ? g - 1 : g)).f("evals", R.evals).f("off", xvs(R.ev)).f("pop", xvs(p2)).f("arch", R.arch ? xvs(*R.arch) : xvs(none)); });
  }
  // the population size must not change under moeoEasyEA
  for (int k = 0; k < 4; ++k) { setDirs({0, 1}); pb = Pb{{1, 2}, {0, 0}, 50}; R = Rec(); R.n = 4; eoPop<Sol> pop; for (int i = 0; i < 4; ++i) { pop.push_back(Sol(i * 7)); R.xs.push_back(i * 7); }
    Quad q(r, true); Mon m(r, true); eoSGAGenOp<Sol> go(q, 1.0, m, 0.5); Eval ev; Cont co(2, false); moeoDominanceDepthFitnessAssignment<Sol> ff; moeoFrontByFrontCrowdingDiversityAssignment<Sol> fd; moeoDetTournamentSelect<Sol> s1(2); eoGeneralBreeder<Sol> gb(s1, go); BadRepl bad(k % 2 ? 1 : -1);
    Ev("new").f("alg", "easy").f("dirs", IV{0, 1}).f("n", 4).f("pb", Obj().f("c", pb.c).f("d", pb.d).f("m", pb.m)).f("ctor", 0).f("always", true);
    bool thrown = false; try { moeoEasyEA<Sol> A(co, ev, gb, bad, ff, fd, k > 1); A(pop); } catch (std::exception&) { thrown = true; }
    Ev("sizechange").f("thrown", thrown).f("gens", R.gens); }
}

// ---- single calls with fitness and diversity given by the driver
static std::map<long, std::pair<long, long>> tab;
struct TabFit : public moeoFitnessAssignment<Sol> { bool upd; TabFit(bool u) : upd(u) {} void operator()(eoPop<Sol>& p) { for (auto& s : p) s.fitness(tab[s.id].first); }
  void updateByDeleting(eoPop<Sol>& p, OV& d) { if (upd) for (auto& s : p) { IV u = ovints(d), v = ovints(s.objectiveVector()); long k = 0; for (size_t i = 0; i < u.size(); ++i) k += 3 * (i + 1) * u[i] + (2 * (i + 1) + 1) * v[i]; k = ((k % 8) + 8) % 8; s.fitness(s.fitness() + (double)(1L << (10 - k))); } } };
struct TabDiv : public moeoDiversityAssignment<Sol> { bool upd; TabDiv(bool u) : upd(u) {} void operator()(eoPop<Sol>& p) { for (auto& s : p) s.diversity(tab[s.id].second); }
  void updateByDeleting(eoPop<Sol>& p, OV& d) { if (upd) for (auto& s : p) s.diversity(s.diversity() + (exactint(d[0]) % 3) - (exactint(s.objectiveVector()[0]) % 2)); } };
static void single(Rng& r, long eps) {
  setDirs({0, 1});
  for (long ep = 0; ep < eps; ++ep) {
    int np = r.in(1, 5), no = r.in(0, 5); long fr = r.coin() ? 3 : 4000; tab.clear(); eoPop<Sol> par, off; int how = r.below(4); bool hasDiv = how == 0 || how == 1, df = (how == 0 || how == 2) && r.coin();
    for (int i = 0; i < np + no; ++i) { tab[i] = {r.in(-fr, fr), hasDiv ? r.in(0, 3) : 0}; Sol s = mksol(i, {r.in(0, 5), r.in(0, 5)}); if (r.coin(1, 3)) { s.fitness(r.in(-9, 9)); if (hasDiv) s.diversity(r.in(-9, 9)); } (i < np ? par : off).push_back(s); }
    auto fj = [&](const eoPop<Sol>& p) { std::vector<Obj> o; for (auto& s : p) o.push_back(Obj().f("id", s.id).f("v", ovints(s.objectiveVector())).f("f", tab[s.id].first).f("d", tab[s.id].second)); return o; };
    auto pj = fj(par), oj = fj(off); TabFit f(false), fu(true); TabDiv d(false), du(true); moeoFitnessThenDiversityComparator<Sol> fd; moeoDiversityThenFitnessComparator<Sol> dfc; moeoComparator<Sol>& c = df ? (moeoComparator<Sol>&)dfc : fd;
    { eoPop<Sol> p = par, o = off; std::unique_ptr<moeoElitistReplacement<Sol>> E(how == 0 ? new moeoElitistReplacement<Sol>(f, d, c) : how == 1 ? new moeoElitistReplacement<Sol>(f, d) : how == 2 ? new moeoElitistReplacement<Sol>(f, c) : new moeoElitistReplacement<Sol>(f));
      guarded("elitist replacement", [&] { (*E)(p, o); Ev("elit").f("cmp", df ? "df" : "fd").f("par", pj).f("off", oj).f("out", fj(p)).f("left", o.size()); }); }
    if (!df) { eoPop<Sol> p = par, o = off; std::unique_ptr<moeoEnvironmentalReplacement<Sol>> E(how == 0 ? new moeoEnvironmentalReplacement<Sol>(fu, du, c) : how == 1 ? new moeoEnvironmentalReplacement<Sol>(fu, du) : how == 2 ? new moeoEnvironmentalReplacement<Sol>(fu, c) : new moeoEnvironmentalReplacement<Sol>(fu));
      guarded("environmental replacement", [&] { (*E)(p, o); Ev("env").f("kind", hasDiv ? "tab" : "ind").f("par", pj).f("off", oj).f("out", fj(p)).f("left", o.size()); }); }
    { eoPop<Sol> p = par, o = off; moeoGenerationalReplacement<Sol> G; guarded("generational replacement", [&] { G(p, o); Ev("genl").f("par", pj).f("off", oj).f("out", fj(p)).f("left", o.size()); }); }
    // a SPEA2 archive being filled and updated
    { unsigned cap = r.in(1, 5); int cc = r.below(3); moeoManhattanDistance<Sol> man; moeoSPEA2Archive<Sol> A1(cap), A2(man, cap), A3(fd, cap); moeoSPEA2Archive<Sol>& A = cc == 0 ? A1 : cc == 1 ? A2 : A3; long id = 0; tab.clear(); bool front = r.coin();   // all of them mutually non-dominated
      for (int k = 0; k < 3; ++k) { eoPop<Sol> p; int n = r.in(cap, 6); for (int i = 0; i < n; ++i) { tab[id] = {front && !r.coin(1, 12) ? 0 : r.in(-3, 0), r.in(0, 3)}; Sol s = mksol(id, {r.in(0, 5), r.in(0, 5)}); s.fitness(tab[id].first); s.diversity(tab[id].second / 4.0); p.push_back(s); ++id; }
        auto bj = fj(A); guarded("spea2 archive", [&] { if (r.coin(1, 4)) { p.resize(1); A(p[0]); } else A(p); Ev("spea2").f("dist", cc == 1 ? "man" : "euc").f("cap", cap).f("arch", bj).f("pop", fj(p)).f("out", fj(A)); }); } }
  }
}
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); eo::rng.reseed(11); Silence q; single(r, 60 * args().scale); runs(r, 5 * args().scale); return done(); }
