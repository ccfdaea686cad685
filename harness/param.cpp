// Parameters: values given in a file or on the command line, defaults, help, text forms.
#include <eo>
#include <utils/eoParser.h>
#include <utils/eoHowMany.h>
#include <utils/eoRealVectorBounds.h>
#include <memory>
#include <map>
#include <fstream>
#include "vt.hpp"
using namespace vt;
struct PPT : eoParamParamType { PPT() : eoParamParamType(std::string("none")) {} PPT(const std::string& s) : eoParamParamType(s) {} };
struct HMT : eoHowMany { HMT(double d = 0.5) : eoHowMany(d) {} };
struct RBT : eoRealVectorBounds { RBT() : eoRealVectorBounds(3, 0, 1) {} RBT(const std::string& s) : eoRealVectorBounds(s) {} RBT(const RBT& o) : eoRealVectorBounds(o) {} };
static std::string g17(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
// canonical form of a value
static std::string can(bool v) { return v ? "1" : "0"; } static std::string can(int v) { return std::to_string(v); } static std::string can(unsigned v) { return std::to_string(v); } static std::string can(long v) { return std::to_string(v); } static std::string can(char v) { return std::string("'") + v; } static std::string can(double v) { return g17(v); } static std::string can(const std::string& s) { return "\"" + s; }
static std::string can(const std::vector<double>& v) { std::string s = "<"; for (double x : v) s += g17(x) + ";"; return s + ">"; }
static std::string can(const std::vector<std::vector<double> >& v) { std::string s = "<"; for (auto& x : v) s += can(x); return s + ">"; }
static std::string can(const std::pair<double, double>& v) { return "(" + g17(v.first) + "," + g17(v.second) + ")"; }
static std::string can(const std::vector<eoMinimizingFitness>& v) { std::string s = "["; for (auto& x : v) s += g17((double)x) + ";"; return s + "]"; }
static std::string can(const eoParamParamType& p) { std::string s = p.first + "("; for (auto& a : p.second) s += a + ","; return s + ")"; }
static std::string can(const HMT& h) { HMT m(h); return "%" + std::to_string(m(64)) + "/" + std::to_string(m(256)); }
static std::string can(const RBT& c) { RBT& b = const_cast<RBT&>(c); std::string s = "{"; for (unsigned i = 0; i < b.size(); ++i) s += (b.isMinBounded(i) ? g17(b.minimum(i)) : "-") + ":" + (b.isMaxBounded(i) ? g17(b.maximum(i)) : "+") + ";"; return s + "}"; }
static double dbl(Rng& r, bool six) { if (six) return (r.coin() ? r.in(-9999, 9999) / 100.0 : r.in(-999, 999) / 8.0) * (r.coin(1, 5) ? 0 : 1); return (r.unit() - 0.5) * std::pow(10.0, r.in(-8, 8)); }
// a value and the text a user would type for it
static void val(Rng& r, bool, bool& v, std::string& t) { v = r.coin(); t = v ? (r.coin() ? "1" : "") : "0"; }
static void val(Rng& r, bool, int& v, std::string& t) { v = r.in(-2000000000, 2000000000) / (r.coin() ? 1 : 100000000); t = std::to_string(v); }
static void val(Rng& r, bool, unsigned& v, std::string& t) { v = r.coin() ? r.below(20) : (unsigned)(r.next() & 0xffffffffu); t = std::to_string(v); }
static void val(Rng& r, bool six, double& v, std::string& t) { v = dbl(r, six); std::ostringstream o; o.precision(17); o << v; t = o.str(); }
static std::string word(Rng& r) { static const char* W[] = {"", "x", "a=b", "res#1", "--odd", "-", "@z", "/tmp/dir.x/y", "Name(1,2)", "0", "true", "INVALID", "=", "q"}; std::string s = W[r.below(14)]; if (r.coin(1, 3)) s += std::to_string(r.below(100)); return s; }
static void val(Rng& r, bool, std::string& v, std::string& t) { v = word(r); t = v; }
static void val(Rng& r, bool, std::vector<double>& v, std::string& t) { v.resize(r.in(0, 4)); std::ostringstream o; o.precision(17); o << v.size(); for (auto& x : v) { x = dbl(r, true); o << (r.coin() ? "," : ";") << x; } t = o.str(); }
static void val(Rng& r, bool, PPT& v, std::string& t) { t = std::string("op") + std::to_string(r.below(5)); int n = r.below(4); if (n) { t += "("; for (int i = 0; i < n; ++i) t += (i ? "," : "") + std::to_string(r.below(100)) + (r.coin() ? ".5" : ""); t += ")"; } v.first = ""; v = PPT(t); }
static void val(Rng& r, bool, HMT& v, std::string& t) { if (r.coin()) { int k = r.in(0, 8); static_cast<eoHowMany&>(v) = eoHowMany(k / 8.0); t = g17(k * 12.5) + "%"; } else { int k = r.in(1, 30); static_cast<eoHowMany&>(v) = eoHowMany(k, false); t = std::to_string(k); } }
struct Any { std::string lg; char sh; bool req; int type; std::string dflt; virtual ~Any() {} virtual void gen(Rng&, bool six, std::string& can, std::string& text) = 0; virtual void declare(eoParser&, Rng&, bool six) = 0; virtual std::string value() = 0; virtual bool there(eoParser&) = 0; virtual bool again(eoParser&, std::string& v) = 0; virtual std::string lookup(eoParser&, int how) = 0; virtual Any* twin() = 0; };
template <class T> struct Typed : Any { eoValueParam<T>* p = 0; eoParam* ep() { return p; }
  void gen(Rng& r, bool six, std::string& c, std::string& t) { T v; val(r, six, v, t); c = can(v); }
  void declare(eoParser& ps, Rng& r, bool six) { T d; std::string t; val(r, six, d, t); dflt = can(d); p = &ps.createParam(d, lg, "a parameter", sh, r.coin() ? "One" : "", req); }
  std::string value() { return can(p->value()); } bool there(eoParser& ps) { return ps.isItThere(*p); }
  bool again(eoParser& ps, std::string& v) { T d; if (sizeof(T) == sizeof(bool)) d = T(); eoValueParam<T>& q = ps.getORcreateParam(T(), lg, "again", sh); v = can(q.value()); return &q == p; }
  std::string lookup(eoParser& ps, int how) { return how == 0 ? can(ps.valueOf<T>(lg)) : how == 1 ? can(ps.getValueParam<T>(lg).value()) : can(dynamic_cast<eoValueParam<T>&>(*ps.getParam(lg)).value()); }
  Any* twin() { Typed<T>* t = new Typed<T>; t->lg = lg; t->sh = sh; t->req = false; t->type = type; return t; } };
static Any* make(int t) { Any* a; switch (t) { case 0: a = new Typed<bool>; break; case 1: a = new Typed<int>; break; case 2: a = new Typed<unsigned>; break; case 3: a = new Typed<double>; break; case 4: a = new Typed<std::string>; break; case 5: a = new Typed<PPT>; break; case 6: a = new Typed<HMT>; break; default: a = new Typed<std::vector<double> >; break; } a->type = t; return a; }
struct Opt { bool lg; std::string key, v, text; };
static std::string ojs(const std::vector<Opt>& o) { std::string s = "["; for (size_t i = 0; i < o.size(); ++i) { if (i) s += ","; Obj x; x.f("form", o[i].lg ? "long" : "short").f("key", o[i].key).f("v", o[i].v); s += js(x); } return s + "]"; }
static std::string pjs(const Any& a) { Obj x; x.f("long", a.lg).f("short", a.sh ? std::string(1, a.sh) : std::string()).f("dflt", a.dflt).f("req", a.req); return js(x); }
static std::string tok(const Opt& o, Rng& r) { if (o.lg) return "--" + o.key + (o.text.empty() && r.coin() ? "" : "=" + o.text); if (o.text.empty()) return "-" + o.key; return "-" + o.key + (o.text[0] == '=' || r.coin() ? "=" : "") + o.text; }
typedef std::vector<std::unique_ptr<Any> > Anys;
static Opt option(Anys& ps, Rng& r, bool six) { Opt o; int k = r.below(20); if (k == 0) { o.lg = r.coin(); o.key = o.lg ? "nothing" : "Z"; o.v = "?"; o.text = "3"; return o; } if (k == 1) { o.lg = r.coin(); o.key = o.lg ? "help" : "h"; o.v = "1"; o.text = o.lg && r.coin() ? "1" : ""; return o; } if (k == 2) { bool b = r.coin(1, 4); o.lg = true; o.key = "stopOnUnknownParam"; o.v = b ? "1" : "0"; o.text = o.v; return o; }
  Any& a = *ps[r.below(ps.size())]; o.lg = !a.sh || a.type % 2 || r.coin(); o.key = o.lg ? a.lg : std::string(1, a.sh); a.gen(r, six, o.v, o.text); return o; }
static std::string pathof() { return (args().tmp.empty() ? std::string("/tmp") : args().tmp) + "/param" + std::to_string(args().shard) + ".txt"; }
static std::unique_ptr<eoParser> parser(const std::vector<std::string>& av) { std::vector<std::vector<char> > b; std::vector<char*> c; b.push_back(std::vector<char>{'p', 0}); for (auto& s : av) { b.push_back(std::vector<char>(s.begin(), s.end())); b.back().push_back(0); } for (auto& x : b) c.push_back(&x[0]); return std::unique_ptr<eoParser>(new eoParser(c.size(), &c[0], "a program")); }
static void session(Rng& r) { mark("session"); bool six = r.coin(2, 3); Anys ps; int n = r.in(1, 6); bool used[26] = {0}; std::string prefix = r.coin(1, 6) ? "pre_" : ""; for (int i = 0; i < n; ++i) { ps.emplace_back(make(r.below(8))); Any& a = *ps.back(); a.lg = prefix + "p" + std::to_string(i) + (r.coin() ? "-x" : ""); int c = r.below(26); a.sh = 'a' + c; if (r.coin(1, 3) || used[c] || a.sh == 'h') a.sh = 0; used[c] = true; a.req = r.coin(1, 8); }
  std::vector<Opt> fo, ao; bool hasfile = r.coin(); std::string path = pathof(); if (hasfile) { std::ofstream f(path.c_str()); int m = r.below(5); bool sec = r.coin(1, 4); if (sec) { f << "\\section{Other}\n--p0=17 -q=3 nothing\n\\section{Parser}\n"; } for (int i = 0; i < m; ++i) { Opt o = option(ps, r, six); fo.push_back(o); static const char* RM[] = {"# --p0=99 a remark\n", "#a --p0=99 remark\n", "#--p0=98 --p1=97\n", "## --p0=99\n"}; if (r.coin(1, 4)) f << RM[r.below(4)]; bool rem = r.coin(1, 3); f << tok(o, r) << (rem ? r.coin() ? "   # --p1=4 trailing" : "   #trailing --p1=4" : "") << (!rem && r.coin(1, 4) && i + 1 < m ? " " : "\n"); if (f.tellp() > 0 && r.coin(1, 5)) f << "\n### A TITLE #####\n"; } if (sec && r.coin()) f << "\n\\section{Pop}\n--p0=5\n"; f << "\n"; }
  int m = r.below(5); std::vector<std::string> av; for (int i = 0; i < m; ++i) { ao.push_back(option(ps, r, six)); av.push_back(tok(ao.back(), r)); if (r.coin(1, 5)) av.push_back("stray"); }
  if (hasfile) av.insert(av.begin() + r.below(av.size() + 1), "@" + path);
  auto pr = parser(av); Ev("parser").f("kind", hasfile ? "withfile" : "nofile").f("file", Raw{ojs(fo)}).f("args", Raw{ojs(ao)});
  for (auto& a : ps) { std::string keep = a->lg; if (!prefix.empty()) { pr->setPrefix(prefix); a->lg = keep.substr(prefix.size()); } mark("declare " + std::to_string(a->type)); a->declare(*pr, r, six); a->lg = keep; pr->resetPrefix(); Ev("declare").f("kind", "t" + std::to_string(a->type)).f("p", Raw{pjs(*a)}).f("v", a->value()).f("there", a->there(*pr)); }
  auto help = [&] { bool b = pr->userNeedsHelp(); Ev("help").f("v", b); }; 
  { int i = r.below(n); std::string v; bool s = ps[i]->again(*pr, v); Ev("again").f("long", ps[i]->lg).f("v", v).f("same", s); }
  { bool miss = false, wrong = false; try { pr->valueOf<int>("absent"); } catch (eoMissingParamException&) { miss = true; } try { pr->valueOf<std::vector<std::vector<double> > >(ps[0]->lg); } catch (eoWrongParamTypeException&) { wrong = true; } std::vector<std::string> v; for (auto& a : ps) v.push_back(a->lookup(*pr, r.below(3))); Ev("lookup").f("missing", miss).f("wrong", wrong).f("v", v); }
  bool h = r.coin(); if (h) help();
  if (six) { std::ostringstream o; pr->printOn(o); { std::ofstream f(path.c_str()); f << o.str(); } std::vector<std::string> v, d; bool skip = false; for (auto& a : ps) if (a->type == 7) skip = true; if (!skip) { auto p2 = parser({"@" + path}); Anys tw; for (auto& a : ps) { tw.emplace_back(a->twin()); tw.back()->declare(*p2, r, six); v.push_back(tw.back()->value()); d.push_back(tw.back()->dflt); } Ev("reprint").f("v", v).f("dflt", d); } }
  if (!h && r.coin()) { std::vector<Opt> more; std::stringstream s; int k = r.below(4); for (int i = 0; i < k; ++i) { more.push_back(option(ps, r, six)); s << tok(more.back(), r) << "\n"; } mark("reread"); pr->readFrom(s); std::vector<std::string> v; for (auto& a : ps) v.push_back(a->value()); Ev("reread").f("opts", Raw{ojs(more)}).f("v", v); }
  std::remove(path.c_str()); }
template <class T> void trip(const char* k, const T& v, const T& other, bool prec) { mark(k); { eoValueParam<T> p(other, "p"); p.value(v); Ev("same").f("kind", std::string("set-") + k).f("a", can(v)).f("b", can(p.value())); eoValueParam<T> q(other, "q"); if (prec) { p.setPrecision(17); } q.setValue(p.getValue()); Ev("same").f("kind", std::string("text-") + k).f("a", can(v)).f("b", can(q.value())); q.value() = other; q.setValue(p.getValue()); Ev("same").f("kind", std::string("text-") + k).f("a", can(v)).f("b", can(q.value())); eoValueParam<T> d(v, "d"); if (prec) return; q.setValue(d.defValue()); Ev("same").f("kind", std::string("def-") + k).f("a", can(v)).f("b", can(q.value())); } }
static void trips(Rng& r) { std::string t; { bool a = r.coin(), b = r.coin(); trip("bool", a, b, false); } { int a, b; val(r, true, a, t); val(r, true, b, t); trip("int", a, b, false); } { unsigned a, b; val(r, true, a, t); val(r, true, b, t); trip("unsigned", a, b, false); }
  { double a = dbl(r, true), b = dbl(r, false); trip("double6", a, b, false); trip("double17", b, a, true); } { std::string a = word(r) + (r.coin() ? " " + word(r) : ""), b = word(r); trip("string", a, b, false); trip("string", b, a, false); }
  { std::vector<double> a(r.in(0, 4)), b(r.in(0, 4)); for (auto& x : a) x = dbl(r, true); for (auto& x : b) x = dbl(r, true); trip("vector", a, b, false); std::vector<std::vector<double> > A(r.in(0, 3)), B(r.in(0, 3), a); for (auto& x : A) { x.resize(r.below(4)); for (auto& y : x) y = dbl(r, true); } trip("vector2", A, B, false); std::vector<eoMinimizingFitness> F(a.size()), G(b.size()); for (size_t i = 0; i < a.size(); ++i) F[i] = a[i]; for (size_t i = 0; i < b.size(); ++i) G[i] = b[i]; trip("fitvector", F, G, false); trip("pair", std::make_pair(dbl(r, true), dbl(r, true)), std::make_pair(1.0, 2.0), false); }
  { HMT a, b; val(r, true, a, t); val(r, true, b, t); trip("howmany", a, b, false); PPT c, d; val(r, true, c, t); val(r, true, d, t); trip("paramparam", c, d, false); }
  // names with arguments, however they are spaced
  { int n = r.below(4); std::vector<std::string> l; std::string name = r.coin(1, 6) ? "" : "op" + std::to_string(r.below(9)); std::string s = name; static const char* D[] = {",", ", ", " ", " ,", ",,"}; if (n || r.coin()) { s += "("; if (r.coin(1, 3)) s += " "; for (int i = 0; i < n; ++i) { l.push_back((r.coin() ? "a" : "") + std::to_string(r.below(1000))); if (i) s += D[r.below(5)]; s += l.back(); } if (r.coin(1, 3)) s += " "; if (r.coin(5, 6)) s += ")"; } mark("args " + s); std::string c = s; eoParamParamType p(c); Ev("args").f("name", name).f("list", l).f("gotname", p.first).f("gotlist", p.second); std::ostringstream o; o << p; std::istringstream is(o.str()); eoParamParamType q(std::string("old(9)")); is >> q; if (!name.empty() || n) Ev("args").f("kind", "argstext").f("name", name).f("list", l).f("gotname", q.first).f("gotlist", q.second); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q;
  for (int ep = 0; ep < 60 * args().scale; ++ep) { guarded("session", [&] { session(r); }); guarded("trips", [&] { trips(r); }); }
  return done(); }
