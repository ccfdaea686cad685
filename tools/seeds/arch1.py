PROP="C31"
NEEDS="comparing an archive with a strict superset of it"
BREAKS="equality of archives is tested in one direction only, so a subset is reported equal to its superset"
EDITS=[("moeo/src/archive/moeoArchive.h","        for (unsigned int i=0; i<_arch.size() ; i++)\n        {\n            if (! contains(_arch[i].objectiveVector()))","        for (unsigned int i=0; i<std::min(size(), _arch.size()) ; i++)\n        {\n            if (! contains(_arch[i].objectiveVector()))")]
DEMO=r'''
#include <eo>
#include <moeo>
class T : public moeoObjectiveVectorTraits { public: static bool minimizing(int){return true;} static bool maximizing(int){return false;} static unsigned nObjectives(){return 2;} };
typedef moeoRealObjectiveVector<T> OV;
class S : public MOEO<OV> { public: std::string className() const {return "S";} };
S mk(double a,double b){ OV o; o[0]=a; o[1]=b; S s; s.objectiveVector(o); return s; }
int main(){ moeoUnboundedArchive<S> a, b; a(mk(1,5)); b(mk(1,5)); b(mk(4,3)); return a.equals(b)?1:0; }
'''
