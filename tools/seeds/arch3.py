PROP="C32"
NEEDS="a population submitted to an improvements-only archive that is full, with a refused solution ahead of a dominating one"
BREAKS="once a full archive refuses one solution of a population the rest of the population is ignored, so a dominated member stays although its dominator was submitted"
EDITS=[("moeo/src/archive/moeoImprOnlyBoundedArchive.h","            res = tmp || res;","            res = tmp || res;\n            if (!tmp && size() >= maxSize) break; // full")]
DEMO=r'''
#include <eo>
#include <moeo>
class T : public moeoObjectiveVectorTraits { public: static bool minimizing(int){return true;} static bool maximizing(int){return false;} static unsigned nObjectives(){return 2;} };
typedef moeoRealObjectiveVector<T> OV;
class S : public MOEO<OV> { public: std::string className() const {return "S";} };
S mk(double a,double b){ OV o; o[0]=a; o[1]=b; S s; s.objectiveVector(o); return s; }
int main(){ moeoImprOnlyBoundedArchive<S> a(2); eoPop<S> p; p.push_back(mk(2,5)); p.push_back(mk(5,2)); p.push_back(mk(4,4)); p.push_back(mk(1,4)); a(p);
 OV o; o[0]=1; o[1]=4; return a.contains(o)?0:1; }
'''
