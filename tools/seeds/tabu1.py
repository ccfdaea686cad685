PROP="C23"
NEEDS="a tabu list of neighbours that has wrapped, is cleared, and wraps again"
BREAKS="clearing the list keeps its write position, so after refilling a recent entry is overwritten instead of the oldest"
EDITS=[("mo/src/memory/moNeighborVectorTabuList.h","    virtual void clearMemory() {\n        tabuList.resize(0);\n        index = 0;\n    }","    virtual void clearMemory() {\n        tabuList.resize(0);\n    }")]
DEMO=r'''
#include <eo>
#include <mo>
#include <ga.h>
#include <problems/bitString/moBitNeighbor.h>
typedef eoBit<double> I; typedef moBitNeighbor<double> N;
int main(){ I s(10,false); s.fitness(0); moNeighborVectorTabuList<N> l(3,0); N n; l.init(s);
  for(int i=0;i<5;++i){ n.index(i); l.add(s,n); }      // wraps: two overwritten
  l.clearMemory();
  for(int i=0;i<4;++i){ n.index(i); l.add(s,n); }      // 0 is the oldest
  n.index(0); bool zero=l.check(s,n); n.index(2); bool two=l.check(s,n); return (!zero && two) ? 0 : 1; }
'''
