// Quality indicators on integer fronts.
#include "moeo_common.hpp"
#include <memory>
using namespace vt;
typedef std::vector<OV> OVS;
static OVS ovs(const IVV& a) { OVS o; for (auto& v : a) o.push_back(mkov(v)); return o; }
static long SC(double x) { return fx(x, 1e4); }
int main(int argc, char** argv) {
  init(argc, argv); Rng r(shardseed()); Silence q;
  for (long ep = 0; ep < 60 * args().scale; ++ep) {
    int n = r.coin(1, 2) ? 2 : r.in(2, 4), R = n == 2 ? r.in(1, 9) : n == 3 ? r.in(1, 5) : r.in(1, 3);
    IV dirs; for (int i = 0; i < n; ++i) dirs.push_back(r.below(2)); setDirs(dirs); Ev("new").f("dirs", dirs);
    auto gen = [&](int lo, int hi) { int m = r.in(1, 5); IVV s; bool flat = r.coin(1, 6); int fo = r.below(n), mode = r.below(2);
      for (int i = 0; i < m; ++i) { IV v(n); if (i && r.coin(1, 6)) v = s[r.below(i)]; else if (mode == 0) for (auto& x : v) x = r.in(lo, hi); else { int left = (hi - lo) * (n - 1); for (int k = 0; k < n; ++k) { long x = r.in(0, std::min(left, hi - lo)); if (k == n - 1) x = std::min<long>(left, hi - lo); left -= x; v[k] = lo + (dirs[k] ? x : x); } }
        if (flat) v[fo] = lo; s.push_back(v); } return s; };
    // the metric objects are used for several fronts
    int rho2 = r.in(2, 5); IV ref2, one2; OV ref, nref; for (int i = 0; i < n; ++i) { long x = dirs[i] ? R + 1 + r.in(0, 2) : -r.in(0, 2); ref2.push_back(2 * x); ref[i] = x; nref[i] = dirs[i] ? 2 : -1; }
    moeoHyperVolumeMetric<OV> h1(true, rho2 / 2.0), h2(false, rho2 / 2.0), h3(false, ref), h4(true, nref);
    moeoHyperVolumeDifferenceMetric<OV> d1(true, rho2 / 2.0), d2(false, rho2 / 2.0), d3(false, ref), d4(true, nref);
    moeoVecVsVecAdditiveEpsilonBinaryMetric<OV> e1(false), e2(true); moeoVecVsVecMultiplicativeEpsilonBinaryMetric<OV> e3; moeoContributionMetric<OV> c;
    for (int k = 0; k < 3; ++k) {
      IVV s1 = gen(1, R), s2 = gen(1, R); OVS a = ovs(s1), b = ovs(s2); OVS a0 = a, b0 = b;
      auto hv = [&](const char* kind, moeoHyperVolumeMetric<OV>& m) { guarded(std::string("hypervolume ") + kind, [&] { double x = m(a); Ev("hv").f("kind", kind).f("s1", s1).f("ref2", ref2).f("rho2", rho2).f("r", SC(x)); }); };
      hv("norm", h1); hv("rho", h2); hv("ref", h3); hv("normref", h4);
      auto hd = [&](const char* kind, moeoHyperVolumeDifferenceMetric<OV>& m) { guarded(std::string("hypervolume difference ") + kind, [&] { double x = m(a, b); Ev("hvdiff").f("kind", kind).f("s1", s1).f("s2", s2).f("ref2", ref2).f("rho2", rho2).f("r", SC(x)); }); };
      hd("norm", d1); hd("rho", d2); hd("ref", d3); hd("normref", d4);
      auto ep = [&](const char* kind, moeoVecVsVecEpsilonBinaryMetric<OV>& m) { guarded(std::string("epsilon ") + kind, [&] { double x = m(a, b); Ev("eps").f("kind", kind).f("s1", s1).f("s2", s2).f("r", SC(x)); }); };
      ep("add", e1); ep("addnorm", e2); ep("mul", e3);
      guarded("contribution", [&] { Ev("contrib").f("s1", s1).f("s2", s2).f("r", SC(c(a, b))); });
      // pairs under given bounds
      IV lo, hi, u, v; for (int i = 0; i < n; ++i) { lo.push_back(r.in(-3, 0)); hi.push_back(lo[i] + r.in(1, R)); u.push_back(r.in(lo[i], hi[i])); v.push_back(r.coin(1, 4) ? u[i] : r.in(lo[i], hi[i])); }
      guarded("pair", [&] { moeoAdditiveEpsilonBinaryMetric<OV> ae; moeoHypervolumeBinaryMetric<OV> hb(rho2 / 2.0);
        for (int i = 0; i < n; ++i) { if (r.coin()) { ae.setup(lo[i], hi[i], i); hb.setup(lo[i], hi[i], i); } else { eoRealInterval I(lo[i], hi[i]); ae.setup(I, i); hb.setup(I, i); } }
        Ev("pair").f("a", u).f("b", v).f("lo", lo).f("hi", hi).f("rho2", rho2).f("eps", SC(ae(mkov(u), mkov(v)))).f("hv", SC(hb(mkov(u), mkov(v)))); });
      guarded("distance metric", [&] { moeoManhattanDistance<Sol> man; OV rp = mkov(u); moeoDistanceMetric<Sol> dm(man, rp); Ev("refdist").f("a", u).f("b", v).f("r", exactint(dm(mkov(v)))); });
    }
  }
  return done();
}
