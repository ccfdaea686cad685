PROP="C06"
NEEDS="truncated selection that keeps everybody, around a proportional selector, set up again after fitnesses changed"
BREAKS="the wrapped selector is not set up when nothing is truncated, so it goes on with the fitness shares of an earlier population"
EDITS=[("eo/src/eoTruncatedSelectOne.h","        actualPop = _source;\n      }","        actualPop = _source;\n        if (ready) return;\n        ready = true;\n      }"),
 ("eo/src/eoTruncatedSelectOne.h","// to avoid copies when 100% fertility","// to avoid copies when 100% fertility\n  bool ready = false;               // embedded selector set up")]
DEMO=r'''
#include <eo>
#include <ga.h>
typedef eoBit<double> I;
int main(){ eo::rng.reseed(3); eoPop<I> p; for(int i=0;i<4;++i){ I s(3,false); s[0]=i&1; s[1]=(i>>1)&1; s.fitness(i==0?1000:1); p.push_back(s);} 
  eoProportionalSelect<I> prop; eoTruncatedSelectOne<I> sel(prop,1.0);
  sel.setup(p); for(int i=0;i<10;++i) sel(p);
  p[0].fitness(1); p[3].fitness(1000); sel.setup(p);       // next generation
  int n=0; for(int i=0;i<1000;++i) if(sel(p).fitness()==1000) ++n;
  return n>800 ? 0 : 1; }
'''
