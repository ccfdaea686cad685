PROP="C34"
NEEDS="assigning crowding diversity front by front to a population whose individuals already carry a diversity (second generation)"
BREAKS="distances are added to the diversity of the previous generation instead of starting from zero"
EDITS=[("moeo/src/diversity/moeoFrontByFrontCrowdingDiversityAssignment.h","            _pop[i].diversity(0.0);","            if (_pop[i].invalidDiversity())\n                _pop[i].diversity(0.0);")]
DEMO=r'''
#include <eo>
#include <moeo>
class T : public moeoObjectiveVectorTraits { public: static bool minimizing(int){return true;} static bool maximizing(int){return false;} static unsigned nObjectives(){return 2;} };
typedef moeoRealObjectiveVector<T> OV;
class S : public MOEO<OV> { public: std::string className() const {return "S";} };
S mk(double a,double b){ OV o; o[0]=a; o[1]=b; S s; s.objectiveVector(o); s.fitness(1.0); return s; }
int main(){ eoPop<S> p; p.push_back(mk(1,5)); p.push_back(mk(2,3)); p.push_back(mk(3,2)); p.push_back(mk(5,1));
  moeoFrontByFrontCrowdingDiversityAssignment<S> d; d(p); double a=p[1].diversity(), b=p[2].diversity(); d(p); return (p[1].diversity()==a && p[2].diversity()==b) ? 0 : 1; }
'''
