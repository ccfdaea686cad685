// Parse trees: structure, bookkeeping, variation, random creation.
#include "vt.hpp"
#include <eo>
#include <gp/eoParseTree.h>
#include <gp/eoStParseTreeDepthInit.h>
#include <sstream>
using namespace vt;
static IVV* table = nullptr;
struct Node { int code; Node(int c = 0) : code(c) {} int arity() const { return code % 4; } int tag() const { return code / 4; } void randomize() { if (!arity() && tag() >= 50) code = 4 * (50 + eo::rng.random(5)); } bool operator==(const Node& o) const { return code == o.code; } bool operator!=(const Node& o) const { return code != o.code; } bool operator<(const Node& o) const { return code < o.code; }
  template <class It> void operator()(long& v, It a) const { long x[3] = {0, 0, 0}; for (int i = 0; i < arity(); ++i) a[i].apply(x[i]); int g = tag(); v = (arity() == 0 ? g : arity() == 1 ? 2 * x[0] + g : arity() == 2 ? 3 * x[0] + x[1] + g : 5 * x[0] + 2 * x[1] + x[2] + g) % 9973; }
  template <class It, class V> void operator()(long& v, It a, V off) const { long x[3] = {0, 0, 0}; for (int i = 0; i < arity(); ++i) a[i].apply(x[i], off); int g = tag() + *off; v = (arity() == 0 ? g : arity() == 1 ? 2 * x[0] + g : arity() == 2 ? 3 * x[0] + x[1] + g : 5 * x[0] + 2 * x[1] + x[2] + g) % 9973; }
  int type() const { return (*table)[tag() - 1][0]; } int type(int k) const { return (*table)[tag() - 1][k + 1]; } };
static std::ostream& operator<<(std::ostream& o, const Node& n) { return o << n.code; }
static std::istream& operator>>(std::istream& i, Node& n) { return i >> n.code; }
typedef eoParseTree<double, Node> T; typedef T::Subtree S;
static void post(const S& s, IV& o) { for (int i = s.arity() - 1; i >= 0; --i) post(s[i], o); o.push_back(s->code); }
static IV nodes(const T& t) { IV o; post(t.root(), o); return o; }
static void walk(const S& s, IV& sz, IV& dp, IV& cm, bool& par) { for (int i = s.arity() - 1; i >= 0; --i) { par = par && s[i].get_parent() == &s; walk(s[i], sz, dp, cm, par); } sz.push_back(s.size()); dp.push_back(s.depth()); cm.push_back(s.cumulative_size()); }
static Raw told(const T& t) { IV n = nodes(t), sz, dp, cm; bool par = t.root().get_parent() == 0 && t.size() == n.size(); walk(t.root(), sz, dp, cm, par); par = par && (long)t.depth() == dp.back() && t.valid() && !t.empty(); long v = -1, w = -1; int z = 0; t.apply(v); t.apply(w, &z); if (v != w) v = -2; return Obj().f("t", n).f("size", sz).f("depth", dp).f("cum", cm).f("par", par).f("val", v); }
template <class V> static Raw all(const V& v) { std::string o = "["; bool f = true; for (auto& t : v) { if (!f) o += ","; f = false; o += told(t).s; } return Raw{o + "]"}; }
static std::vector<Node> nodeset(Rng& r, bool eph) { std::vector<Node> v; for (int i = 0; i < r.in(1, 3); ++i) v.push_back(4 * r.in(1, 40)); if (eph && r.coin()) v.push_back(4 * 50); for (int a = 1; a <= 3; ++a) for (int i = 0; i < (a == 2 ? r.in(1, 2) : r.below(2)); ++i) v.push_back(4 * r.in(0, 9) + a); for (int i = v.size() - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); return v; }
static IV codes(const std::vector<Node>& v) { IV o; for (auto& n : v) o.push_back(n.code); return o; }
// random postfix sequence
static IV rnd(Rng& r, int depth) { int a = depth <= 1 ? 0 : r.coin(1, 4) ? 0 : r.in(1, 3); IV o; for (int i = 0; i < a; ++i) { IV s = rnd(r, depth - 1); o.insert(o.begin(), s.begin(), s.end()); } o.push_back(4 * r.in(0, 40) + a); return o; }
static std::vector<Node> asnodes(const IV& v) { std::vector<Node> o; for (long x : v) o.push_back((int)x); return o; }
static T build(const IV& v, int how) { std::vector<Node> n = asnodes(v); if (how == 0) { parse_tree<Node> p(n.begin(), n.end()); return T(p); } T t; t.clear(); if (how == 1) for (auto& x : n) t.push_back(x); else std::copy(n.begin(), n.end(), std::back_inserter(static_cast<parse_tree<Node>&>(t))); return t; }
struct Making : eoInit<T> { eoInit<T>& i; IV made; Making(eoInit<T>& i) : i(i) {} void operator()(T& t) { i(t); made = nodes(t); } };
static int start(const IV& t, int i) { int need = 1; for (;; --i) { need += t[i] % 4 - 1; if (!need) return i; } }
static void history(Rng& r) { int n = r.in(2, 3); std::vector<T> t; IVV want; mark("trees"); for (int i = 0; i < n; ++i) { IV v; do v = rnd(r, r.in(1, 4)); while (v.size() > 18); want.push_back(v); t.push_back(build(v, r.below(3))); } Ev("new").f("want", want).f("res", all(t)); auto done = [&](Ev& e) { e.f("res", all(t)); };
  for (int st = 0; st < 24; ++st) { int i = r.below(n), j = r.below(n), w = r.below(22); if (j == i) j = (i + 1) % n; int ni = t[i].size(), nj = t[j].size();
    for (auto& q : t) if (q.size() > 22) { int z = &q - &t[0]; int m = r.in(1, 12); mark("pruneTree"); q.pruneTree(m); Ev e("prune"); e.f("kind", "prune").f("i", z + 1).f("max", m); done(e); } ni = t[i].size(); nj = t[j].size();
    switch (w) {
      case 0: case 1: { int k = r.below(ni), l = r.below(nj); mark("subtree ="); t[i][k] = t[j][l]; Ev e("put"); e.f("kind", "put").f("i", i + 1).f("j", j + 1).f("k", k + 1).f("l", l + 1); done(e); break; }
      case 2: case 3: { int k = r.below(ni), l = r.below(ni); mark("subtree = same tree"); IV v = nodes(t[i]); bool below = start(v, k) <= l && l <= k; if (!below && start(v, l) <= k && k <= l && v.size() > 12) break; t[i][k] = t[i][l]; Ev e("put"); e.f("kind", "putown").f("i", i + 1).f("j", i + 1).f("k", k + 1).f("l", l + 1); done(e); break; }
      case 4: { int k = r.below(ni); int a = r.coin() ? t[i][k].arity() : 0; Node x(4 * r.in(0, 40) + a); mark("subtree = node"); t[i][k] = x; Ev e("node"); e.f("kind", "node").f("i", i + 1).f("k", k + 1).f("n", x.code); done(e); break; }
      case 5: { mark("swap"); t[i].swap(t[j]); Ev e("swapt"); e.f("kind", "swapt").f("i", i + 1).f("j", j + 1); done(e); break; }
      case 6: { int k = r.below(ni), l = r.below(nj); mark("subtree swap"); t[i][k].swap(t[j][l]); Ev e("swaps"); e.f("kind", "swaps").f("i", i + 1).f("j", j + 1).f("k", k + 1).f("l", l + 1); done(e); break; }
      case 7: { IV v = nodes(t[i]); int k = r.below(ni), l = r.below(ni); if (k >= l || start(v, l) <= k) break; mark("subtree swap within"); t[i][k].swap(t[i][l]); Ev e("swaps"); e.f("kind", "swapown").f("i", i + 1).f("j", i + 1).f("k", k + 1).f("l", l + 1); done(e); break; }
      case 8: { int l = nj - 1, s = j; mark("copy"); int q = r.below(4); if (q == 0) t[i] = t[j]; else if (q == 1) { l = r.below(nj); static_cast<parse_tree<Node>&>(t[i]) = t[j][l]; } else if (q == 2) { l = r.below(nj); T c(t[j][l]); t[i] = c; } else { s = i; l = r.below(ni); static_cast<parse_tree<Node>&>(t[i]) = t[i][l]; } Ev e("copy"); e.f("kind", "copy").f("i", i + 1).f("j", s + 1).f("l", l + 1); done(e); break; }
      case 9: { IV v; do v = rnd(r, 4); while (v.size() > 18); mark("push_back"); t[i].clear(); for (long x : v) t[i].push_back(Node((int)x)); Ev e("push"); e.f("kind", "push").f("i", i + 1).f("nodes", v); done(e); break; }
      case 10: { int h = r.below(n); if (h == i) h = j; T a = t[j], b = t[h]; Node x(4 * r.in(0, 9) + 2); mark("push_back trees"); t[i].clear(); t[i].push_back(static_cast<parse_tree<Node>&>(a)); t[i].push_back(static_cast<parse_tree<Node>&>(b)); t[i].push_back(x); Ev e("join"); e.f("kind", "join").f("i", i + 1).f("j", j + 1).f("h", h + 1).f("n", x.code); done(e); break; }
      case 11: { mark("tree text"); if (r.coin()) t[j].fitness(r.in(-9, 9)); std::ostringstream o; o << t[j]; std::istringstream in(o.str()); if (r.coin()) { T z(in); t[i] = z; } else in >> t[i]; bool same = t[i].invalid() == t[j].invalid() && (t[i].invalid() || t[i].fitness() == t[j].fitness()); Ev e("text"); e.f("kind", "text").f("i", i + 1).f("j", j + 1).f("same", same); done(e); break; }
      case 12: { int m = r.below(ni + 3); mark("pruneTree"); t[i].pruneTree(m); Ev e("prune"); e.f("kind", "prune").f("i", i + 1).f("max", m); done(e); break; }
      case 13: case 14: { int m = r.coin() ? 60 : r.in(1, 14); mark("eoSubtreeXOver"); eoSubtreeXOver<double, Node> x(m); x(t[i], t[j]); Ev e("vary"); e.f("kind", "xover").f("i", i + 1).f("j", j + 1).f("max", m); done(e); break; }
      case 15: case 16: case 17: { auto set = nodeset(r, true); std::vector<Node> u = set; int d = r.in(2, 3); mark("tree mutation"); eoParseTreeDepthInit<double, Node> in(d, set, r.coin()); Making mk(in); int m = r.coin() ? 60 : r.in(1, 12); Ev e("vary"); if (w == 15) { eoBranchMutation<double, Node> x(mk, m); x(t[i]); e.f("kind", "branch"); } else if (w == 16) { eoExpansionMutation<double, Node> x(mk, m); x(t[i]); e.f("kind", "expand"); } else { eoCollapseSubtreeMutation<double, Node> x(mk, m); x(t[i]); e.f("kind", "collapse"); } e.f("i", i + 1).f("max", m).f("made", mk.made); done(e); break; }
      case 18: { auto set = nodeset(r, false); for (int a = 0; a <= 3; ++a) set.push_back(4 * 7 + a); mark("eoPointMutation"); eoPointMutation<double, Node> x(set); x(t[i]); Ev e("vary"); e.f("kind", "point").f("i", i + 1).f("set", codes(set)); done(e); break; }
      case 19: { mark("eoHoistMutation"); eoHoistMutation<double, Node> x; x(t[i]); Ev e("vary"); e.f("kind", "hoist").f("i", i + 1); done(e); break; }
      case 20: { mark("iterators"); const T& c = t[i]; IVV ways(8); for (auto it = t[i].begin(); it != t[i].end(); ++it) ways[0].push_back((*it)->code); for (auto it = c.begin(); it != c.end(); it++) ways[1].push_back((**it).code); for (auto it = t[i].ebegin(); it != t[i].eend(); ++it) ways[2].push_back(it->code); for (auto it = c.ebegin(); it != c.eend(); ++it) ways[3].push_back((*it).code); for (int k = 0; k < ni; ++k) { ways[4].push_back(t[i][k]->code); ways[5].push_back((*c[k]).code); ways[6].push_back((c.ebegin() + k)->code); ways[7].push_back(t[i].root().get_node(k)->code); } Ev("walk").f("kind", "walk").f("i", i + 1).f("ways", ways); IVV sb; for (int k = 0; k < ni; ++k) { IV v; post(c[k], v); sb.push_back(v); } Ev("subs").f("kind", "subs").f("i", i + 1).f("got", sb);
        int ar = r.below(4); struct Is { int a; bool operator()(const Node& x) { return x.arity() == a; } } is{ar}; std::vector<S*> fs; t[i].find_nodes(fs, is); IV got; for (auto* p : fs) got.push_back((*p)->code); Ev("find").f("kind", "find").f("i", i + 1).f("ar", ar).f("got", got); std::vector<const S*> cs; c.find_nodes(cs, is); got.clear(); for (auto* p : cs) got.push_back((*p)->code); Ev("find").f("kind", "cfind").f("i", i + 1).f("ar", ar).f("got", got);
        IV cnt(ni, 0), cn2(ni, 0); std::map<const S*, int> at; for (int k = 0; k < ni; ++k) at[&c[k]] = k; for (size_t q = 0; q < c.root().cumulative_size(); ++q) { ++cnt[at[&c.root().select_cumulative(q)]]; ++cn2[at[&(q % 2 ? c.get_cumulative(q) : t[i].get_cumulative(q))]]; } Ev("pick").f("kind", "select").f("i", i + 1).f("c", cnt); Ev("pick").f("kind", "cumulative").f("i", i + 1).f("c", cn2); break; }
      default: { int k = r.below(ni), l = r.below(nj); if (r.coin(1, 3)) { t[i] = t[j]; Ev e("copy"); e.f("kind", "copy").f("i", i + 1).f("j", j + 1).f("l", nj); done(e); k = l; } mark("tree =="); Ev("eq").f("kind", "eq").f("i", i + 1).f("j", j + 1).f("k", k + 1).f("l", l + 1).f("eq", t[i] == t[j]).f("ne", t[i] != t[j]).f("seq", r.coin() ? t[i][k] == t[j][l] : !(t[i][k] != t[j][l])); } } } }
static void make(Rng& r) { auto set = nodeset(r, true); int d = r.in(1, 4); { bool grow = r.coin(); if (!grow && d == 4) d = 3; mark("eoParseTreeDepthInit"); eoParseTreeDepthInit<double, Node> in(d, set, grow); for (int q = 0; q < 4; ++q) { T t; in(t); if (t.size() <= 45) Ev("init").f("kind", grow ? "grow" : "full").f("d", d).f("set", codes(set)).f("res", told(t)); } }
  { std::vector<Node> s2; for (auto& n : set) if (n.arity() != 3) s2.push_back(n); int D = r.in(2, 4); bool g = r.coin(); mark("ramped half and half"); eoParseTreeDepthInit<double, Node> in(D, s2, g, true); for (int rd = 0; rd < 2; ++rd) { std::vector<T> out; for (int q = 0; q < 2 * (D - 1); ++q) { T t; in(t); out.push_back(t); } Ev("ramp").f("kind", "ramp").f("d", D).f("fullfirst", !g).f("set", codes(s2)).f("out", all(out)); } int n = r.in(1, 14); eoPop<T> pop; eoInitRampedHalfAndHalf(pop, n, D, s2); Ev("half").f("kind", "half").f("d", D).f("n", n).f("set", codes(s2)).f("out", all(pop)); }
  { IVV tb; std::vector<Node> v; int types = r.in(1, 3); auto add = [&](IV row) { tb.push_back(row); v.push_back(4 * (int)tb.size() + (int)row.size() - 1); }; for (int y = 0; y < types; ++y) { add(IV{y}); if (r.coin()) add(IV{y}); add(IV{y, r.below(types)}); if (r.coin()) add(IV{y, r.below(types), r.below(types)}); } for (int i = v.size() - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); table = &tb; int D = r.in(1, 4); bool g = r.coin(); int root = r.below(types); mark("eoStParseTreeDepthInit"); eoStParseTreeDepthInit<double, Node> in(D, v, root, g); for (int q = 0; q < 3; ++q) { T t; in(t); Ev("typed").f("kind", g ? "tgrow" : "tfull").f("d", D).f("full", !g).f("root", root).f("table", tb).f("set", codes(v)).f("res", told(t)); } table = nullptr; }
  for (int q = 0; q < 2; ++q) { bool th = false; std::vector<Node> none; try { if (q) eoParseTreeDepthInit<double, Node> x(3, none); else eoStParseTreeDepthInit<double, Node> x(3, none, 0); } catch (std::exception&) { th = true; } Ev("refuse").f("kind", q ? "empty" : "tempty").f("threw", th); } }
// each node of either parent equally likely to be exchanged
static void stat(Rng& r) { IV a, b; do a = rnd(r, 4); while (a.size() < 3 || a.size() > 8); do b = rnd(r, 3); while (b.size() < 2 || b.size() > 6); for (size_t i = 0; i < a.size(); ++i) a[i] = 4 * (long)(10 + i) + a[i] % 4; for (size_t i = 0; i < b.size(); ++i) b[i] = 4 * (long)(30 + i) + b[i] % 4; T ta = build(a, 0), tb = build(b, 0); const int K = 800; IV ca(a.size(), 0), cb(b.size(), 0), ch(a.size(), 0), cp(a.size(), 0); mark("choice of nodes"); eoSubtreeXOver<double, Node> x(1000); eoHoistMutation<double, Node> h; std::vector<Node> set; for (int q = 0; q < 4; ++q) set.push_back(4 * 77 + q); eoPointMutation<double, Node> p(set);
  for (int k = 0; k < K; ++k) { T u = ta, v = tb; x(u, v); IV un = nodes(u), vn = nodes(v); int i = -1, j = -1; for (int q = 0; q < (int)a.size(); ++q) if (std::find(un.begin(), un.end(), a[q]) == un.end()) i = q; for (int q = 0; q < (int)b.size(); ++q) if (std::find(vn.begin(), vn.end(), b[q]) == vn.end()) j = q; if (i >= 0) ++ca[i]; if (j >= 0) ++cb[j]; u = ta; h(u); ++ch[std::find(a.begin(), a.end(), u.root()->code) - a.begin()]; u = ta; p(u); un = nodes(u); for (size_t q = 0; q < a.size(); ++q) if (un[q] != a[q]) ++cp[q]; }
  Ev("stat").f("kind", "xfirst").f("c", ca).f("K", K); Ev("stat").f("kind", "xsecond").f("c", cb).f("K", K); Ev("stat").f("kind", "hoistat").f("c", ch).f("K", K); Ev("stat").f("kind", "pointat").f("c", cp).f("K", K); }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; eo::rng.reseed(args().seed * 37 + args().shard); for (int ep = 0; ep < 40 * args().scale; ++ep) guarded("episode", [&] { history(r); if (ep % 3 == 0) make(r); if (ep % 10 == 5) stat(r); }); return done(); }
