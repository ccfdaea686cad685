// Checkpoints: observers, final calls, monitors, periodic updaters.
#include "eo_pop.hpp"
#include <ctime>
#include <sys/stat.h>
#include <dirent.h>
#include <numeric>
#include <regex>
#include <utils/eoFileSnapshot.h>
#include <utils/eoUpdatable.h>
#include <utils/eoFuncPtrStat.h>
#include <utils/eoGenCounter.h>
#include <do/make_checkpoint.h>
static time_t gNow = 1000000; static clock_t gClock = 5000;      // the clocks the code under test sees
extern "C" time_t time(time_t* t) noexcept { if (t) *t = gNow; return gNow; }
extern "C" clock_t clock() noexcept { return gClock; }
// shell commands of the code under test: only the two harmless ones, inside the scratch directory
extern "C" int system(const char* c) {
  std::string s = c ? c : "", t = args().tmp; struct stat st;
  if (s.rfind("test -d " + t, 0) == 0) return stat(s.substr(8).c_str(), &st) == 0 && S_ISDIR(st.st_mode) ? 0 : 256;
  if (s.rfind("mkdir " + t, 0) == 0) return mkdir(s.substr(6).c_str(), 0700) ? 256 : 0;
  return 0;
}
static std::vector<std::string> lines(const std::string& text) { std::vector<std::string> o; std::istringstream i(text); std::string s; while (std::getline(i, s)) o.push_back(s); return o; }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<std::string> ls(const std::string& d) { std::vector<std::string> o; DIR* h = opendir(d.c_str()); if (!h) return o; while (dirent* e = readdir(h)) if (e->d_name[0] != '.') o.push_back(e->d_name); closedir(h); std::sort(o.begin(), o.end()); return o; }
static int gDir = 0;
static std::string scratch(bool make) { std::string d = args().tmp + "/s" + std::to_string(args().shard) + "_" + std::to_string(++gDir); if (make) mkdir(d.c_str(), 0700); return d; }
static void wipe(const std::string& d) { if (d.rfind(args().tmp, 0) != 0) return; for (auto& f : ls(d)) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); }

template <class F> struct Suite {
  typedef Ind<F> E; typedef eoPop<E> P; enum { D = Dir<F>::v };
  Rng r; Suite(uint64_t s) : r(s) {}
  static IVV& log() { static IVV l; return l; }
  static const P*& cur() { static const P* p = nullptr; return p; }
  static long sees(const P& p) { return cur() && &p != nullptr && p.size() == cur()->size() && std::equal(p.begin(), p.end(), cur()->begin(), [](const E& a, const E& b) { return a[0] == b[0]; }); }
  // the pointers handed over are the population's own, best first
  static long sees(const std::vector<const E*>& v) { if (v.size() != cur()->size()) return 0; std::vector<int> seen; for (auto* x : v) seen.push_back((*x)[0]); for (size_t i = 1; i < v.size(); ++i) if (*v[i - 1] < *v[i]) return 0; std::vector<int> all; for (auto& x : *cur()) all.push_back(x[0]); std::sort(seen.begin(), seen.end()); std::sort(all.begin(), all.end()); return seen == all; }
  struct So : eoSortedStatBase<E> { int i; void operator()(const std::vector<const E*>& v) { log().push_back({1, i, sees(v)}); } void lastCall(const std::vector<const E*>& v) { log().push_back({11, i, sees(v)}); } };
  struct St : eoStatBase<E> { int i; void operator()(const P& p) { log().push_back({2, i, sees(p)}); } void lastCall(const P& p) { log().push_back({12, i, sees(p)}); } };
  struct Up : eoUpdater { int i; void operator()() { log().push_back({3, i, 1}); } void lastCall() { log().push_back({13, i, 1}); } };
  struct Mo : eoMonitor { int i; eoMonitor& operator()() { log().push_back({4, i, 1}); return *this; } void lastCall() { log().push_back({14, i, 1}); } };
  struct Co : eoContinue<E> { int i; bool a; bool operator()(const P& p) { log().push_back({5, i, sees(p)}); return a; } };
  struct Full { std::vector<std::unique_ptr<So> > so; std::vector<std::unique_ptr<St> > st; std::vector<std::unique_ptr<Up> > up; std::vector<std::unique_ptr<Mo> > mo; std::vector<std::unique_ptr<Co> > co; };
  void fill(Full& f, eoCheckPoint<E>& cp, int nco0) {
    // registered in any interleaving
    int want[6] = {0, r.in(0, 3), r.in(0, 3), r.in(0, 3), r.in(0, 3), nco0 + r.in(0, 3)};
    for (;;) { std::vector<int> open; int have[6] = {0, (int)f.so.size(), (int)f.st.size(), (int)f.up.size(), (int)f.mo.size(), (int)f.co.size()}; for (int c = 1; c <= 5; ++c) if (have[c] < want[c]) open.push_back(c); if (open.empty()) break;
      switch (open[r.below((int)open.size())]) {
        case 1: f.so.emplace_back(new So); f.so.back()->i = (int)f.so.size(); cp.add(*f.so.back()); break;
        case 2: f.st.emplace_back(new St); f.st.back()->i = (int)f.st.size(); cp.add(*f.st.back()); break;
        case 3: f.up.emplace_back(new Up); f.up.back()->i = (int)f.up.size(); if (r.coin()) cp.add(*f.up.back()); else f.up.back()->addTo(cp); break;
        case 4: f.mo.emplace_back(new Mo); f.mo.back()->i = (int)f.mo.size(); if (r.coin()) cp.add(*f.mo.back()); else f.mo.back()->addTo(cp); break;
        case 5: f.co.emplace_back(new Co); f.co.back()->i = (int)f.co.size(); cp.add(*f.co.back()); break; } }
  }
  static Raw bools(const std::vector<bool>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i] ? "true" : "false"; } return Raw{s + "]"}; }
  static IV reg(const Full& f) { return IV{(long)f.so.size(), (long)f.st.size(), (long)f.up.size(), (long)f.mo.size(), (long)f.co.size()}; }
  void spies() {
    Full f; f.co.emplace_back(new Co); f.co.back()->i = 1; eoCheckPoint<E> cp(*f.co.back()); fill(f, cp, 1); eoContinue<E>& c = cp;
    int T = r.in(1, 6); for (int t = 0; t < T; ++t) { P p = mkpop<F>(r, r.in(1, 7), 10 * t); cur() = &p; log().clear(); std::vector<bool> ans; for (auto& q : f.co) { q->a = r.coin(5, 6); ans.push_back(q->a); } bool out = c(p); Ev("cp").f("reg", reg(f)).f("log", log()).f("ans", bools(ans)).f("out", out); }
  }
  void onsignal() {
    Full f; std::unique_ptr<eoSignal<E> > cp; int s = r.coin() ? SIGUSR1 : SIGUSR2;
    if (r.coin()) { f.co.emplace_back(new Co); f.co.back()->i = 1; cp.reset(new eoSignal<E>(*f.co.back(), s)); fill(f, *cp, 1); } else { cp.reset(new eoSignal<E>(s)); fill(f, *cp, 0); }
    for (int t = 0; t < 5; ++t) { P p = mkpop<F>(r, r.in(1, 5), 10 * t); cur() = &p; log().clear(); bool raised = r.coin(); if (raised) raise(s); std::vector<bool> ans; for (auto& q : f.co) { q->a = r.coin(3, 4); ans.push_back(q->a); } bool out = (*cp)(p); Ev("sigcp").f("reg", reg(f)).f("log", log()).f("ans", bools(ans)).f("out", out).f("raised", raised); }
    signal(s, SIG_IGN);
  }
  // real statistics and monitors
  static long sumfit(const P& p) { double s = 0; for (auto& x : p) s += (double)x.fitness(); return exactint(s); }
  struct SumF : eoUF<const P&, long> { long operator()(const P& p) { return sumfit(p); } };
  void shows() {
    static const char* K[] = {"file", "keep", "over", "head", "ostream", "stdout", "log", "logn"}; int k = r.below(8); std::string d = scratch(true), fn = d + "/m.txt"; int T = r.in(1, 7);
    long pre = 0; if (k < 4 && r.coin()) { std::ofstream o(fn); o << "1 2 3\n"; pre = 1; }
    std::ostringstream os; std::unique_ptr<eoMonitor> mon; std::string delim = k < 4 ? (r.coin() ? " " : ",") : "\t"; eoLogger lg; long kept = 0;
    if (k < 4) mon.reset(new eoFileMonitor(fn, delim, k == 1, k == 3, k == 2)); else if (k == 4) mon.reset(new eoOStreamMonitor(os, delim, 8)); else if (k == 5) mon.reset(new eoStdoutMonitor(delim, 8));
    else { lg << eo::setlevel(eo::progress); lg << eo::file(fn); mon.reset(new eoLogMonitor(lg, eo::progress, "\t", 6, ' ', k == 7, ":")); }
    long step = r.in(1, 3), start = r.coin() ? 0 : r.in(1, 9); SumF sf;
    std::unique_ptr<eoIncrementorParam<long> > ctr(start ? new eoIncrementorParam<long>("count", start, step) : new eoIncrementorParam<long>("count", step));
    eoBestFitnessStat<E> best; std::unique_ptr<eoStat<E, long> > sum(r.coin() ? (eoStat<E, long>*)new eoFuncPtrStat<E, long>(sumfit, "sum") : new eoFunctorStat<E, long>(sf, "sum"));
    mon->add(*ctr); if (r.coin()) mon->add(best); else best.addTo(*mon); mon->add(*sum);
    eoGenContinue<E> gc(T); eoCheckPoint<E> cp(gc); cp.add(*mon); best.addTo(cp); cp.add(*ctr); sum->addTo(cp);
    IVV gens; std::streambuf* old = std::cout.rdbuf(); if (k == 5) std::cout.rdbuf(os.rdbuf());
    for (int t = 0; t < T; ++t) { P p = mkpop<F>(r, r.in(1, 6), 0); IV f; for (auto& x : p) f.push_back(exactint((double)x.fitness())); gens.push_back(f); cp(p); }
    std::cout.rdbuf(old);
    std::string text = k < 4 || k > 5 ? slurp(fn) : os.str(); IVV rows; long heads = 0; std::vector<std::string> ll = lines(text);
    for (size_t i = 0; i < ll.size(); ++i) { std::string s = ll[i]; for (char& ch : s) if (ch == ',' || ch == '\t') ch = ' ';
      if (s.find(':') != std::string::npos) s = std::regex_replace(s, std::regex("[A-Za-z_ ]+:"), " ");   // name:value items
      if (s.find("count") != std::string::npos) { ++heads; continue; }
      IV row; std::istringstream is(s); double v; while (is >> v) row.push_back(exactint(v)); if (!is.eof() && is.fail()) { std::string rest; is.clear(); if (is >> rest) row.push_back(-77); }
      if (k == 1 && pre && i == 0 && row == IV{1, 2, 3}) { kept = 1; continue; }
      rows.push_back(row); }
    bool head = k >= 3; Ev("rows").f("kind", K[k]).f("gens", gens).f("rows", rows).f("heads", heads).f("head", head).f("pre", k == 1 ? pre : 0).f("kept", kept).f("start", start).f("step", step).f("dir", (int)D);
    unlink(fn.c_str()); rmdir(d.c_str());
  }
  struct Obj1 : eoPersistent, eoObject { int v = 0; std::string className() const { return "v"; } void printOn(std::ostream& o) const { o << v; } void readFrom(std::istream& i) { i >> v; } };
  static IV saved(const std::string& d, const std::string& pre, const std::string& ext) { IV o; for (auto& f : ls(d)) if (f.rfind(pre, 0) == 0 && f.size() > ext.size() && f.substr(f.size() - ext.size()) == ext) o.push_back(atol(f.substr(pre.size()).c_str())); else o.push_back(-1); std::sort(o.begin(), o.end()); return o; }
  struct Watch : eoUpdatable { int now = 0; IV fired; void update() { fired.push_back(now); } };
  struct WatchMon : eoMonitor { int now = 0; IV fired; eoMonitor& operator()() { fired.push_back(now); return *this; } };
  struct Stop : eoContinue<E> { int n; bool operator()(const P&) { return --n > 0; } };
  void periods() {
    P p = mkpop<F>(r, 3, 0); eoState st; Obj1 ob; st.registerObject(ob); Stop s; s.n = r.in(1, 12); int T = s.n;
    { std::string d = scratch(true); int every = r.in(1, 5); long c0 = r.coin() ? 0 : r.in(1, 7); int form = r.below(3); bool last = form == 0 ? false : true;
      eoCountedStateSaver sv = form == 2 ? eoCountedStateSaver(every, st, d + "/g", std::string("sav"), (unsigned)c0) : eoCountedStateSaver(every, st, d + "/g", last, "sav", c0);
      eoCheckPoint<E> cp(s); cp.add(sv); for (int t = 0; t < T; ++t) cp(p); Ev("period").f("kind", "saver").f("every", every).f("c0", c0).f("n", T).f("last", last).f("fired", saved(d, "g", ".sav")); wipe(d); }
    { std::string d = scratch(true); int every = r.in(1, 6); long t0 = gNow; eoTimedStateSaver sv(every, st, d + "/t", "sv"); IV ts, fired; std::vector<std::string> before; for (int t = 0; t < T; ++t) { gNow += r.in(0, 4); ts.push_back(gNow - t0); sv(); auto now = ls(d); if (now != before) fired.push_back(t + 1); before = now; } IV names = saved(d, "t", ".sv"); IV want; for (long i : fired) want.push_back(ts[i - 1]); if (names != want) fired.push_back(-5); Ev("period").f("kind", "tsaver").f("every", every).f("ts", ts).f("fired", fired); wipe(d); }
    { Watch w; int every = r.in(1, 4); eoCountedDynUpdate u(w, every); eoUpdater& q = u; for (int t = 0; t < T; ++t) { w.now = t + 1; q(); } Ev("period").f("kind", "dyn").f("every", every).f("n", T).f("fired", w.fired); }
    { Watch w; int every = r.in(1, 6); long t0 = gNow; eoTimedDynUpdate u(w, every); eoUpdater& q = u; IV ts; for (int t = 0; t < T; ++t) { gNow += r.in(0, 4); ts.push_back(gNow - t0); w.now = t + 1; q(); } Ev("period").f("kind", "tdyn").f("every", every).f("ts", ts).f("fired", w.fired); }
    { Watch w; eoDynUpdater u(w); for (int t = 0; t < T; ++t) { w.now = t + 1; u(); } Ev("period").f("kind", "dyn").f("every", 1).f("n", T).f("fired", w.fired); }
    { WatchMon w, w2; int every = r.in(1, 5); eoTimedMonitor m(every); m.add(w); m.add(w2); IV ts; clock_t c0 = gClock; for (int t = 0; t < T; ++t) { gClock += r.in(0, 3) * CLOCKS_PER_SEC; ts.push_back((gClock - c0) / CLOCKS_PER_SEC); w.now = w2.now = t + 1; eoMonitor& q = m; q(); } if (w2.fired != w.fired) w.fired.push_back(-5); Ev("period").f("kind", "tmon").f("every", every).f("ts", ts).f("fired", w.fired); }
    { unsigned c0 = r.in(0, 5); eoGenCounter g(c0); IV v; for (int t = 0; t < T; ++t) { g(); v.push_back((long)g.value()); } Ev("period").f("kind", "gencount").f("c0", (long)c0).f("n", T).f("fired", v); }
    { int c = r.in(-3, 5), st2 = r.in(1, 4); long c0 = c; eoIncrementor<int> g(c, st2); IV v; for (int t = 0; t < T; ++t) { g(); v.push_back(c); } Ev("period").f("kind", "incr").f("c0", c0).f("every", st2).f("n", T).f("fired", v); }
    { eoTimeCounter tc; time_t t0 = gNow; for (int t = 0; t < 3; ++t) { gNow += r.in(0, 9) * (r.coin(1, 3) ? 500 : 1); gClock += r.in(0, 5) * CLOCKS_PER_SEC; tc(); Ev("time").f("v", exactint(std::floor(tc.value()))).f("elapsed", (long)(gNow - t0)).f("cpu", (long)(gClock / CLOCKS_PER_SEC)); } }
  }
  void snaps() {
    std::string d = scratch(r.coin()); int every = r.in(1, 4); unsigned c0 = r.coin() ? 0 : r.in(1, 6); int m = r.in(1, 4), k = r.in(1, 5), T = r.in(1, 6);
    std::vector<std::unique_ptr<eoValueParam<std::vector<double> > > > vs; eoFileSnapshot s(d, every, "gen", " ", c0, false); bool thrown = false;
    { eoValueParam<int> bad(3, "x"); try { s.add(bad); } catch (std::exception&) { thrown = true; } catch (eoException&) { thrown = true; } Ev("refuse").f("kind", "snapint").f("thrown", thrown); }
    for (int i = 0; i < m; ++i) { vs.emplace_back(new eoValueParam<std::vector<double> >(std::vector<double>(), "v")); s.add(*vs.back()); }
    for (int t = 0; t < T; ++t) { IVV cols; for (auto& v : vs) { std::vector<double> x; IV c; for (int i = 0; i < k; ++i) { c.push_back(r.in(-20, 20)); x.push_back(c.back()); } v->value() = x; cols.push_back(c); }
      eoMonitor& q = s; q(); bool fired = (c0 + t) % every == 0; if (s.hasChanged() != fired || s.getCounter() != c0 + t + 1) Ev("exception").f("what", "snapshot counter");
      if (s.hasChanged()) { IVV rows; for (auto& ln : lines(slurp(s.getFileName()))) { std::istringstream is(ln); IV row; double v; while (is >> v) row.push_back(exactint(v)); rows.push_back(row); } Ev("snap").f("vs", cols).f("rows", rows); } }
    Ev("period").f("kind", "snap").f("every", every).f("c0", (long)c0).f("n", T).f("fired", saved(d, "gen", "")); wipe(d);
  }
  // the checkpoint put together from command-line parameters
  struct One : eoEvalFunc<E> { void operator()(E& x) { x.fitness(F(1)); } };
  void made() {
    std::string d = scratch(false); int freq = r.in(0, 4), T = r.in(1, 9); bool save = r.coin(2, 3), file = r.coin(2, 3);
    std::vector<std::string> av{"prog", "--resDir=" + d, "--eraseDir=0", "--printBestStat=" + std::to_string(r.below(2)), "--fileBestStat=" + std::to_string(file), "--useTime=0"}; if (save) av.push_back("--saveFrequency=" + std::to_string(freq));
    std::vector<char*> argv; for (auto& s : av) argv.push_back(&s[0]); argv.push_back(nullptr);
    eoParser ps((int)av.size(), argv.data()); eoState st; Obj1 ob; st.registerObject(ob); One one; eoEvalFuncCounter<E> ev(one); Stop s; s.n = T; eoCheckPoint<E>& cp = do_make_checkpoint(ps, st, ev, s);
    IVV gens; for (int t = 0; t < T; ++t) { P p = mkpop<F>(r, r.in(1, 6), 0); IV f; for (auto& x : p) f.push_back(exactint((double)x.fitness())); gens.push_back(f); cp(p); }
    if (file) { IVV rows; int t = 0; for (auto& ln : lines(slurp(d + "/best.xg"))) { std::istringstream is(ln); double g, e, b; if (is >> g >> e >> b) rows.push_back({exactint(g), exactint(b), t < (int)gens.size() ? std::accumulate(gens[t].begin(), gens[t].end(), 0L) : 0}); ++t; } Ev("rows").f("kind", "made").f("gens", gens).f("rows", rows).f("heads", 0).f("head", false).f("pre", 0).f("kept", 0).f("start", 0).f("step", 1).f("dir", (int)D); }
    if (save) { IV z; for (auto& f : ls(d)) if (f.rfind("generations", 0) == 0) z.push_back(atol(f.substr(11).c_str())); Ev("period").f("kind", "saver").f("every", freq ? freq : 1000000).f("c0", 0).f("n", T).f("last", true).f("fired", z); }
    wipe(d);
  }
};
int main(int argc, char** argv) {
  init(argc, argv); Silence q; uint64_t s = shardseed(); int sc = args().scale; eo::rng.reseed(s);
  Suite<double> A(s); Suite<eoMinimizingFitness> B(s + 1);
  for (int i = 0; i < 60 * sc; ++i) {
    guarded("spies", [&] { A.spies(); B.spies(); A.spies(); });
    guarded("shows", [&] { A.shows(); B.shows(); });
    if (i % 2 == 0) guarded("onsignal", [&] { A.onsignal(); B.onsignal(); });
    if (i % 3 == 0) guarded("periods", [&] { A.periods(); });
    if (i % 2 == 0) guarded("snaps", [&] { A.snaps(); });
    if (i % 3 == 0) guarded("made", [&] { A.made(); B.made(); });
  }
  return done();
}
