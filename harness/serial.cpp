// Documents: packing, text, parsing, unpacking.
#include "vt.hpp"
#include <serial/eoSerial.h>
#include <sstream>
#include <memory>
#include <cmath>
using namespace vt; using namespace eoserial;
static IV chars(const std::string& s) { IV o; for (unsigned char c : s) o.push_back(c); return o; }
static std::string rec(const Entity* e) { if (auto* s = dynamic_cast<const String*>(e)) return "[\"s\"," + js(chars(*s)) + "]"; std::string o; if (auto* a = dynamic_cast<const Array*>(e)) { o = "[\"a\",["; bool f = true; for (auto* x : *a) { if (!f) o += ","; f = false; o += rec(x); } return o + "]]"; } if (auto* b = dynamic_cast<const eoserial::Object*>(e)) { o = "[\"o\",["; bool f = true; for (auto& x : *b) { if (!f) o += ","; f = false; o += "[" + js(chars(x.first)) + "," + rec(x.second) + "]"; } return o + "]]"; } return "[\"none\",[]]"; }
static std::string str(Rng& r) { static const char* al = "ab\"\\,: {}[]\n7-."; std::string s; int n = r.coin(1, 4) ? 0 : r.in(1, 5); for (int i = 0; i < n; ++i) s += al[r.below(15)]; return s; }
static Entity* doc(Rng& r, int d) { int k = d <= 0 ? 0 : r.below(3); if (k == 0) return make(str(r)); if (k == 1) { Array* a = new Array; for (int i = r.below(4); i > 0; --i) a->push_back(doc(r, d - 1)); return a; } eoserial::Object* o = new eoserial::Object; for (int i = r.below(4); i > 0; --i) { std::string key = str(r); if (o->count(key)) continue; if (r.coin()) o->add(key, doc(r, d - 1)); else (*o)[key] = doc(r, d - 1); } return o; }
static eoserial::Object* obj(Rng& r, int d) { eoserial::Object* o = new eoserial::Object; for (int i = r.below(4); i > 0; --i) { std::string key = str(r); if (!o->count(key)) o->add(key, doc(r, d)); } return o; }
static std::string hexd(double v) { if (std::isnan(v)) return "nan"; char b[64]; std::snprintf(b, sizeof b, "%a", v); return b; }
struct In : Persistent { double x = 0; std::string s; std::vector<int> v; eoserial::Object* pack() const { eoserial::Object* o = new eoserial::Object; (*o)["x"] = make(x); (*o)["s"] = make(s); o->add("v", makeArray<std::vector<int>, MakeAlgorithm>(v)); return o; } void unpack(const eoserial::Object* o) { eoserial::unpack(*o, "x", x); eoserial::unpack(*o, "s", s); v.clear(); unpackArray<std::vector<int>, Array::UnpackAlgorithm>(*o, "v", v); } std::string t() const { std::string q = hexd(x) + "|" + s + "|"; for (int i : v) q += std::to_string(i) + ","; return q; } };
struct Out : Persistent { In a; std::vector<In> l; long n = 0; bool b = false; eoserial::Object* pack() const { eoserial::Object* o = new eoserial::Object; o->add("a", &a); o->add("l", makeArray<std::vector<In>, SerializablePushAlgorithm>(l)); (*o)["n"] = eoserial::make(n); (*o)["b"] = eoserial::make(b); return o; } void unpack(const eoserial::Object* o) { unpackObject(*o, "a", a); l.clear(); unpackArray<std::vector<In>, Array::UnpackObjectAlgorithm>(*o, "l", l); eoserial::unpack(*o, "n", n); eoserial::unpack(*o, "b", b); } std::string t() const { std::string q = a.t() + "/"; for (auto& i : l) q += i.t() + ";"; return q + std::to_string(n) + (b ? "T" : "F"); } };
static double num(Rng& r) { switch (r.below(6)) { case 0: return r.in(-1000, 1000); case 1: return r.in(-99999, 99999) / 7.0; case 2: return std::ldexp((double)r.in(1, 1 << 30) / 3.0, r.in(-300, 300)); case 3: return 0.1 * r.in(1, 9); case 4: return -std::exp((double)r.in(-40, 40)) * 1.0000000000000002; default: return r.coin() ? 5e-324 : 1.7976931348623157e308; } }
static In inner(Rng& r) { In i; i.x = num(r); i.s = str(r); for (int k = r.below(4); k > 0; --k) i.v.push_back(r.in(-99, 99)); return i; }
template <class T> static std::string sh(const T& v) { std::ostringstream o; o << v; return o.str(); } static std::string sh(double v) { return hexd(v); } static std::string sh(float v) { return hexd(v); } static std::string sh(const std::string& v) { return v; } template <class T> static std::string sh(const std::vector<T>& v); template <class T> static std::string sh(const std::list<T>& v) { std::string o = "("; for (auto& x : v) o += sh(x) + ","; return o + ")"; } template <class K, class T> static std::string sh(const std::map<K, T>& v) { std::string o = "{"; for (auto& x : v) o += x.first + ":" + sh(x.second) + ","; return o + "}"; } template <class T> static std::string sh(const std::vector<T>& v) { std::string o = "("; for (auto& x : v) o += sh(x) + ","; return o + ")"; }
static eoserial::Object* again(const eoserial::Object& o) { std::ostringstream s; o.print(s); return Parser::parse(s.str()); }
template <class T> static void one(const char* kind, const T& v) { mark(kind); eoserial::Object o; o["k"] = eoserial::pack(v); std::unique_ptr<eoserial::Object> b(again(o)); T w{}; unpack(*b, "k", w); Ev("val").f("kind", kind).f("got", chars(sh(w))).f("want", chars(sh(v))); }
static void episode(Rng& r) {
  { mark("document text"); std::unique_ptr<eoserial::Object> o(obj(r, r.below(3))); std::ostringstream s; o->print(s); std::unique_ptr<eoserial::Object> b(Parser::parse(s.str())), c(again(*b)); if (s.str().size() < 260) Ev("trip").f("kind", "trip").f("doc", Raw{rec(o.get())}).f("text", chars(s.str())).f("back", Raw{rec(b.get())}).f("again", Raw{rec(c.get())}); }
  { mark("foreign text"); std::function<std::string(int)> gen = [&](int d) -> std::string { auto bl = [&] { std::string s; for (int i = r.coin(1, 3) ? r.below(3) : 0; i > 0; --i) s += " \n"[r.below(2)]; return s; }; auto q = [&] { std::string s = "\"", v = str(r); for (char c : v) { if (c == '"' || c == '\\') s += '\\'; s += c; } return s + "\""; }; int k = d <= 0 ? 0 : r.below(3); if (k == 0) return q(); std::string s = k == 1 ? "[" : "{"; s += bl(); int n = r.below(4); for (int i = 0; i < n; ++i) { if (i) s += bl() + "," + bl(); if (k == 2) s += q() + ":" + bl(); s += gen(d - 1); } return s + bl() + (k == 1 ? "]" : "}"); }; std::string t; do t = gen(r.in(1, 3)); while (t[0] != '{' || t.size() > 150); std::unique_ptr<eoserial::Object> b(Parser::parse(r.coin() ? t : " " + t + "\n")); Ev("read").f("kind", "read").f("text", chars(t)).f("doc", Raw{rec(b.get())}); }
  one("int", r.in(-100000, 100000)); one("long", (long)r.in(-100000, 100000) * 1000003L); one("double", num(r)); one("float", (float)(r.in(-9999, 9999) / 7.0f)); one("bool", r.coin()); one("unsigned", (unsigned)r.next()); one("string", str(r));
  { std::vector<int> v; std::vector<double> d; std::list<std::string> l; std::vector<std::vector<double> > vv; std::map<std::string, int> m; std::map<std::string, std::vector<int> > mv; for (int k = r.below(4); k > 0; --k) { v.push_back(r.in(-9, 9)); d.push_back(num(r)); l.push_back(str(r)); m[str(r)] = r.in(-9, 9); mv[str(r)] = v; vv.push_back(d); } one("ints", v); one("doubles", d); one("strings", l); one("nested", vv); one("map", m); one("mapvec", mv); }
  { mark("persistent"); Out o; o.a = inner(r); for (int k = r.below(3); k > 0; --k) o.l.push_back(inner(r)); o.n = r.in(-9999, 9999); o.b = r.coin(); std::unique_ptr<eoserial::Object> p(o.pack()), b(again(*p)); Out q; q.l.resize(2); b->deserialize(q); Ev("val").f("kind", "object").f("got", chars(q.t())).f("want", chars(o.t())); eoserial::Object w; w["in"] = eoserial::pack(o.a); std::unique_ptr<eoserial::Object> wb(again(w)); In z; unpack(*wb, "in", z); Ev("val").f("kind", "inobject").f("got", chars(z.t())).f("want", chars(o.a.t())); Array* a = new Array; a->push_back(&o.a); a->push_back(make(o.n)); eoserial::Object w2; w2["a"] = a; std::unique_ptr<eoserial::Object> b2(again(w2)); const Array& ar = *static_cast<Array*>(b2->find("a")->second); In y; long n = -1; unpackObject(ar, 0, y); unpack(ar, 1, n); Ev("val").f("kind", "inarray").f("got", chars(y.t() + std::to_string(n))).f("want", chars(o.a.t() + std::to_string(o.n))); } }
int main(int argc, char** argv) { init(argc, argv); Rng r(shardseed()); Silence q; for (int ep = 0; ep < 60 * args().scale; ++ep) guarded("episode", [&] { episode(r); }); return done(); }
