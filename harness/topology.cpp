// Communication graphs: shapes, isolation, matrices read from files, the two-way table.
#include <smp>
#include <eo>
#include <topology/customStochasticTopology.h>
#include "vt.hpp"
using namespace vt; using namespace paradiseo::smp;

static IVV all(const AbstractTopology& t, unsigned n) { IVV o; for (unsigned i = 0; i < n; ++i) { IV v; for (unsigned j : t.getIdNeighbors(i)) v.push_back(j); o.push_back(v); } return o; }
static void nb(const AbstractTopology& t, unsigned n) { Ev("nb").f("nb", all(t, n)); }
static void cuts(Rng& r, AbstractTopology& t, unsigned n) {
  nb(t, n);
  for (int k = r.below(n < 4 ? (int)n + 1 : 4); k > 0; --k) { unsigned i = r.below(n); Ev("isolate").f("k", i); t.isolateNode(i); nb(t, n); }
}
static void setup(Rng& r, Topology<Star>& t, unsigned n) { unsigned c = r.coin() ? 0 : r.below(n); Ev("centre").f("c", c); t.getBuilder().setCenter(c); }
static void setup(Rng& r, Topology<Mesh>& t, unsigned) { static const int R[] = {1000, 1000, 750, 500, 400, 333, 250, 100, 50, 1, 900}; int q = R[r.below(11)]; Ev("ratio").f("r", q); t.getBuilder().setRatio(q / 1000.0); }
template <class T> static void setup(Rng&, Topology<T>&, unsigned) {}
template <class T> static void shape(Rng& r, const char* kind, std::function<unsigned()> size) {
  mark(kind); Ev("new"); Topology<T> t;
  for (int k = 0; k < 3; ++k) {
    unsigned n = size(); setup(r, t, n);
    Ev("build").f("kind", kind).f("n", n); t.construct(n); cuts(r, t, n);
    // a new setting takes effect at the next construction only
    if (r.coin(1, 3)) { setup(r, t, n); nb(t, n); Ev("build").f("kind", kind).f("n", n); t.construct(n); cuts(r, t, n); }
  }
}
static std::string fileOf(const std::string& s) { std::string f = args().tmp + "/topo.txt"; std::ofstream o(f); o << s; return f; }
template <class T> static void custom(Rng& r, bool real) {
  mark(real ? "stochastic matrix" : "boolean matrix"); Ev("new");
  int n = r.in(1, 6); IVV m; std::string txt;
  int bad = n > 1 && r.coin(1, 5) ? r.in(1, 3) : 0;
  for (int i = 0; i < n; ++i) {
    IV row; int w = n; if (bad == 1 && i == n - 1) w = r.coin() ? n + 1 : n - 1; if (bad == 2) w = n + 1;
    if (bad == 3 && i == 0) w = n + 1;
    for (int j = 0; j < w; ++j) { long v = r.coin() ? 1 : 0; row.push_back(v); txt += (j ? (r.coin(1, 4) ? "  " : " ") : "") + (v && !real && r.coin(1, 4) ? std::to_string(r.in(2, 5)) : real && v && r.coin(1, 4) ? std::string("1.5") : real && !v && r.coin(1, 4) ? std::string("-0.5") : std::to_string(v)); }
    m.push_back(row); txt += "\n"; if (r.coin(1, 5)) txt += "\n";
  }
  std::string f = fileOf(txt); bool ok = true; std::unique_ptr<T> t;
  try { t.reset(new T(f)); } catch (eoException&) { ok = false; }
  Ev("file").f("kind", real ? "fstoch" : "fbool").f("m", m).f("ok", ok);
  if (ok) { t->construct(n); cuts(r, *t, n); }
}
template <class T> static void nofile(const char* kind) { bool th = false; try { T t(args().tmp + "/absent/none.txt"); } catch (std::exception&) { th = true; } Ev("nofile").f("kind", kind).f("thrown", th); }
static void stochastic(Rng& r) {
  mark("stochastic frequencies"); int n = r.in(2, 4); IVV w; std::string txt;
  for (int i = 0; i < n; ++i) { IV row; for (int j = 0; j < n; ++j) { static const int W[] = {-300, 0, 250, 500, 750, 1000, 1400}; long v = W[r.below(7)]; row.push_back(v); char b[32]; snprintf(b, 32, "%g ", v / 1000.0); txt += b; } w.push_back(row); txt += "\n"; }
  CustomStochasticTopology t(fileOf(txt)); const int T = 400; IVV cnt(n, IV(n, 0));
  for (int k = 0; k < T; ++k) for (int i = 0; i < n; ++i) for (unsigned j : t.getIdNeighbors(i)) ++cnt.at(i).at(j);
  Ev("stoch").f("kind", "stoch").f("w", w).f("cnt", cnt).f("times", T).f("slack", 90);
}
static void bimap(Rng& r) {
  mark("bimap"); Bimap<unsigned, int*> b; static int cell[64]; Ev("bnew");
  auto look = [&] { IVV a, c; for (auto& p : b.getRight()) a.push_back(IV{(long)p.first, (long)(p.second - cell)}); for (auto& p : b.getLeft()) c.push_back(IV{(long)(p.first - cell), (long)p.second}); Ev("bget").f("right", a).f("left", c).f("size", b.size()).f("empty", b.empty()); };
  look(); std::vector<unsigned> p; for (unsigned i = 0; i < 12; ++i) p.push_back(i); for (int i = 11; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
  for (unsigned i = 0; i < 6; ++i) { unsigned a = p[i]; int* q = cell + p[11 - i] * 3; b.add(a, q); Ev("badd").f("a", a).f("b", (long)(q - cell)); if (r.coin()) look(); }
  look();
}
int main(int argc, char** argv) {
  init(argc, argv); Rng r(shardseed()); Silence q; int sh = args().shard;
  for (int ep = 0; ep < 40 * args().scale; ++ep) guarded("episode", [&] {
    auto any = [&]() -> unsigned { return ep < 6 ? 1 + sh + 8 * (ep % 3) : 1 + r.below(24); };
    shape<Complete>(r, "complete", any); shape<Ring>(r, "ring", any); shape<Star>(r, "star", any); shape<Mesh>(r, "mesh", any);
    shape<Hypercubic>(r, "hyper", [&]() -> unsigned { return 1u << (ep < 2 ? (sh + ep) % 6 : r.below(6)); });
    custom<CustomBooleanTopology>(r, false); custom<CustomStochasticTopology>(r, true); bimap(r);
    if (ep % 10 == 0) { stochastic(r); nofile<CustomBooleanTopology>("nobool"); nofile<CustomStochasticTopology>("nostoch"); }
  });
  return done();
}
