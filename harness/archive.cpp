// Pareto archives: random, skewed and TLC-generated insertion histories on the real archives.
#include "moeo_common.hpp"
#include <memory>
using namespace vt;

// fitness/diversity given by a fixed function of the solution's identity
static long wfit(long id) { return (id * 7 + 3) % 5; }
static long wdiv(long id) { return (id * 11 + 1) % 7; }
struct TabFit : public moeoScalarFitnessAssignment<Sol> {
  void operator()(eoPop<Sol>& p) { for (auto& s : p) s.fitness((double)wfit(s.id)); }
  void updateByDeleting(eoPop<Sol>&, OV&) {}
};
struct TabDiv : public moeoDiversityAssignment<Sol> {
  void operator()(eoPop<Sol>& p) { for (auto& s : p) s.diversity((double)wdiv(s.id)); }
  void updateByDeleting(eoPop<Sol>&, OV&) {}
};

struct Gen { // objective vector generators: grids, plateaus, anti-correlated fronts
  Rng& r; int nobj, style, range;
  IV v() {
    IV x(nobj);
    if (style == 0) for (auto& e : x) e = r.in(-range, range);
    else if (style == 1) { // near a trade-off surface: many incomparable vectors
      int s = range * nobj; for (int i = 0; i + 1 < nobj; ++i) { x[i] = r.in(0, range); s -= x[i]; } x[nobj - 1] = s + r.in(-1, 1); }
    else { int b = r.in(0, range); for (auto& e : x) e = b + r.in(0, 1); } // correlated: chains of dominance
    return x;
  }
};

template <class A> void logState(const char* op, const char* kind, A& a, bool ret, Obj extra) {
  Ev e(op); e.f("kind", std::string(kind)); e.o.s += "," + extra.s; e.f("ret", ret).f("arch", solsj(a.begin(), a.end()));
}

template <class A> void history(A& a, const char* kind, Rng& r, Gen& g, int steps, long& nid, const std::vector<IV>* scripted) {
  std::vector<Sol> known;
  int si = 0;
  for (int st = 0; st < steps; ++st) {
    auto fresh = [&]() -> Sol {
      if (scripted) return mksol(nid++, (*scripted)[si++]);
      if (!known.empty() && r.coin(1, 6)) { // resubmit the objective vector of an earlier solution
        Sol s(nid++); s.objectiveVector(known[r.below(known.size())].objectiveVector()); return s; }
      return mksol(nid++, g.v());
    };
    if (scripted || r.coin(2, 3)) {
      Sol s = fresh(); known.push_back(s);
      s.fitness((double)r.below(9)); s.diversity((double)r.below(9));
      Obj x; x.f("x", solj(s));
      guarded(std::string("insert ") + kind + js(x), [&] { bool b; { Silence q; b = a(s); } logState("ins", kind, a, b, x); });
    } else {
      eoPop<Sol> p; int n = r.in(1, 5);
      for (int i = 0; i < n; ++i) { Sol s = fresh(); s.fitness((double)r.below(9)); s.diversity((double)r.below(9)); known.push_back(s); p.push_back(s); }
      Obj x; x.f("xs", solsj(p.begin(), p.end()));
      guarded(std::string("insert population ") + kind + js(x), [&] { bool b; { Silence q; b = a(p); } logState("pop", kind, a, b, x); });
    }
  }
}

// queries that leave the archive unchanged
template <class A> void queries(A& a, Rng& r, Gen& g) {
  for (int i = 0; i < 3; ++i) {
    IV v = g.v(); if (a.size() && r.coin()) v = ovints(a[r.below(a.size())].objectiveVector());
    OV o = mkov(v);
    guarded("query", [&] { bool d = a.dominates(o), c = a.contains(o); Ev("query").f("v", v).f("dom", d).f("cont", c).f("arch", solsj(a.begin(), a.end())); });
  }
  moeoUnboundedArchive<Sol> b; long id = 1000000;
  for (unsigned i = 0; i < a.size(); ++i) b(a[i]);
  if (r.coin() && a.size()) { b.clear(); for (unsigned i = 0; i + 1 < a.size(); ++i) b(a[i]); if (r.coin()) b(mksol(id, g.v())); }
  guarded("equals", [&] { bool q = a.equals(b), q2 = b.equals(a); Ev("equals").f("other", solsj(b.begin(), b.end())).f("eq", q).f("eq2", q2); });
}

int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(shardseed());
  eo::rng.reseed(42);
  bool bounded = args().mode == "bounded";
  std::vector<std::pair<IV, std::vector<IV>>> scripts; // spec-generated histories (dirs, vectors)
  if (!args().scen.empty()) {
    std::ifstream f(args().scen); std::string ln; int k = 0;
    while (std::getline(f, ln)) {
      if (k++ % args().nshards != args().shard) continue;
      // {"dirs":[..],"vs":[[..],..]} : parsed positionally
      std::vector<IV> lists; IV cur; std::string num; bool in = false;
      for (char c : ln) { if (c == '[') { cur.clear(); num.clear(); in = true; } else if (c == ',' || c == ']') { if (!num.empty()) cur.push_back(atol(num.c_str())); num.clear(); if (c == ']' && in) { lists.push_back(cur); in = false; } } else if (isdigit(c) || c == '-') num += c; }
      if (lists.size() < 2) continue;
      IV d = lists[0]; lists.erase(lists.begin()); scripts.push_back({d, lists});
    }
  }
  long episodes = 26 * args().scale; long nid;
  size_t sc = 0;
  for (long ep = 0; ep < episodes + (long)scripts.size(); ++ep) {
    const std::vector<IV>* scr = nullptr;
    int nobj = r.coin(3, 5) ? 2 : r.in(1, 4);
    IV dirs; for (int i = 0; i < nobj; ++i) dirs.push_back(r.coin(2, 3) ? 1 : 0);
    int kind = bounded ? (int)(ep % 3) : 0;
    if (sc < scripts.size()) { dirs = scripts[sc].first; scr = &scripts[sc].second; nobj = dirs.size(); ++sc; if (kind >= 2) kind = 1; }
    setDirs(dirs);
    Gen g{r, nobj, r.below(3), r.in(1, 6)};
    bool replace = r.coin(); int cap = r.in(1, 6); nid = 0;
    int steps = scr ? (int)scr->size() : r.in(4, 26);
    static moeoParetoObjectiveVectorComparator<OV> pareto;
    bool dflt = r.coin();
    if (!bounded) {
      std::unique_ptr<moeoUnboundedArchive<Sol>> a(dflt ? new moeoUnboundedArchive<Sol>(replace) : new moeoUnboundedArchive<Sol>(pareto, replace));
      Ev("new").f("kind", "unbounded").f("dirs", dirs).f("replace", replace).f("cap", 0);
      history(*a, "unbounded", r, g, steps, nid, scr);
      queries(*a, r, g);
      // the same through an updater, twice (as a checkpoint would)
      eoPop<Sol> p; for (int i = 0; i < 4; ++i) p.push_back(mksol(nid++, g.v()));
      moeoArchiveUpdater<Sol> up(*a, p);
      for (int k = 0; k < 2; ++k) guarded("archive updater", [&] { up(); Obj x; x.f("xs", solsj(p.begin(), p.end())); Ev e("upd"); e.f("kind", "unbounded"); e.o.s += "," + x.s; e.f("arch", solsj(a->begin(), a->end())); });
      queries(*a, r, g);
    } else if (kind == 0 || kind == 1) {
      std::unique_ptr<moeoImprOnlyBoundedArchive<Sol>> a(dflt ? new moeoImprOnlyBoundedArchive<Sol>(cap, replace) : new moeoImprOnlyBoundedArchive<Sol>(pareto, cap, replace));
      Ev("new").f("kind", "impr").f("dirs", dirs).f("replace", replace).f("cap", cap);
      history(*a, "impr", r, g, steps, nid, scr);
      queries(*a, r, g);
    } else if (kind == 2) {
      TabFit tf; TabDiv td; moeoFitnessThenDiversityComparator<Sol> cmp;
      std::unique_ptr<moeoFitDivBoundedArchive<Sol>> a(dflt ? new moeoFitDivBoundedArchive<Sol>(cmp, tf, td, cap, replace) : new moeoFitDivBoundedArchive<Sol>(cmp, pareto, tf, td, cap, replace));
      IVV w; for (long i = 0; i < 200; ++i) w.push_back({wfit(i), wdiv(i)});
      Ev("new").f("kind", "fitdiv").f("dirs", dirs).f("replace", replace).f("cap", cap).f("worth", w);
      history(*a, "fitdiv", r, g, steps, nid, scr);
      queries(*a, r, g);
    }
  }
  return done();
}
