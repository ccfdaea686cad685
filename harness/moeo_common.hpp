#ifndef MOEO_COMMON_HPP
#define MOEO_COMMON_HPP
#include "vt.hpp"
#include <eo>
#include <moeo>
// objective vectors whose number and directions are set per episode
class OVTraits : public moeoObjectiveVectorTraits {};
typedef moeoRealObjectiveVector<OVTraits> OV;
// a solution: its identity is its genotype (one integer)
class Sol : public MOEO<OV> {
public:
  long id; Sol(long i = -1) : id(i) {}
  std::string className() const { return "Sol"; }
};
inline void setDirs(const vt::IV& d) {
  vt::Silence s; std::vector<bool> b; for (long x : d) b.push_back(x == 1);
  moeoObjectiveVectorTraits::setup(d.size(), b);
}
inline OV mkov(const vt::IV& v) { std::vector<double> x(v.begin(), v.end()); return OV(x); }
inline vt::IV ovints(const OV& o) { vt::IV r; for (unsigned i = 0; i < o.size(); ++i) r.push_back(vt::exactint(o[i])); return r; }
inline Sol mksol(long id, const vt::IV& v) { Sol s(id); s.objectiveVector(mkov(v)); return s; }
inline vt::Obj solj(const Sol& s) { vt::Obj o; o.f("id", s.id).f("v", s.invalidObjectiveVector() ? vt::IV() : ovints(s.objectiveVector())); return o; }
template <class It> std::vector<vt::Obj> solsj(It b, It e) { std::vector<vt::Obj> r; for (; b != e; ++b) r.push_back(solj(*b)); return r; }
#endif
