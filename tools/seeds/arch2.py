PROP="C31"
NEEDS="a batch insertion whose last solution is rejected after an earlier one was accepted"
BREAKS="inserting a population reports failure although some of its solutions entered the archive"
EDITS=[("moeo/src/archive/moeoArchive.h","            res = tmp || res;","            res = tmp;")]
DEMO=r'''
#include <eo>
#include <moeo>
class T : public moeoObjectiveVectorTraits { public: static bool minimizing(int){return true;} static bool maximizing(int){return false;} static unsigned nObjectives(){return 2;} };
typedef moeoRealObjectiveVector<T> OV;
class S : public MOEO<OV> { public: std::string className() const {return "S";} };
S mk(double a,double b){ OV o; o[0]=a; o[1]=b; S s; s.objectiveVector(o); return s; }
int main(){ moeoUnboundedArchive<S> a; eoPop<S> p; p.push_back(mk(1,1)); p.push_back(mk(2,2)); bool r=a(p); return r?0:1; }
'''
