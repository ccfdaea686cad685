PROP="C15"
NEEDS="a ring topology whose best initial particle is the left-most of a neighbourhood"
BREAKS="the first informant of each neighbourhood is not considered for its initial best"
EDITS=[("eo/src/eoRingTopology.h","if(_pop[(_pop.size()+i-k+j)%_pop.size()].fitness() > currentNghd.best().fitness())","if(j > 0 && _pop[(_pop.size()+i-k+j)%_pop.size()].fitness() > currentNghd.best().fitness())")]
DEMO=r'''
#include <eo>
typedef eoRealParticle<double> P;
int main(){ eoPop<P> p; for(int i=0;i<5;++i){ P x(1,i); x.fitness(5-i); x.best(5-i); p.push_back(x);} eoRingTopology<P> t(3); t.setup(p);
  return (t.best(0).fitness()==5 && t.best(1).fitness()==5 && t.best(2).fitness()==4 && t.best(3).fitness()==3) ? 0 : 1; }
'''
