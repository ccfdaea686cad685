PROP="C10"
NEEDS="a steady-fitness criterion whose best fitness is only equalled, or drops and comes back, during the steady phase"
BREAKS="the best so far follows every generation, so climbing back to an old best counts as an improvement"
EDITS=[("eo/src/eoSteadyFitContinue.h","          return false;\n        }\n      }","          return false;\n        }\n        bestSoFar = bestCurrentFitness;\n      }")]
DEMO=r'''
#include <eo>
#include <ga.h>
typedef eoBit<double> I;
int main(){ eoSteadyFitContinue<I> c(1,3); double f[]={5,5,4,5,4,5,4,5,4,5}; int n=0;
  for(double v : f){ eoPop<I> p; I s(2,false); s.fitness(v); p.push_back(s); if(!c(p)) break; ++n; }
  return n==5 ? 0 : 1; }
'''
