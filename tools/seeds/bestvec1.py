PROP="C22"
NEEDS="a random-best hill climber object run a second time"
BREAKS="the best neighbours of the end of the previous run are kept when a new run starts, so one of them may be selected as if it had just been evaluated"
EDITS=[("mo/src/explorer/moRandomBestHCexplorer.h","virtual void initParam(EOT & /*_solution*/) {\n // delete all the best solutions\n bestVector.clear();","virtual void initParam(EOT & _solution) {\n        if (_solution.invalid())\n            bestVector.clear();")]
DEMO=r'''
#include <eo>
#include <mo>
#include <ga.h>
#include <eval/oneMaxEval.h>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/eval/moOneMaxIncrEval.h>
typedef eoBit<double> I; typedef moBitNeighbor<double> N;
int main(){ rng.reseed(3); moOrderNeighborhood<N> nh(6); moOneMaxIncrEval<N> e; moNeighborComparator<N> nc; moSolNeighborComparator<N> snc; moRandomBestHCexplorer<N> x(nh,e,nc,snc);
 // first search stops on one with equal best neighbours (worse than the solution)
 I a(6,true); a.fitness(6); x.initParam(a); x(a); // best neighbours have fitness 5
 for (int t=0;t<30;++t){ I b(6,false); b[0]=true; b.fitness(1); x.initParam(b); x(b); N n; I c=b; x.move(c); 
   double f=0; for(unsigned i=0;i<6;++i) f+=c[i]; if (c.fitness()!=f || f!=2) return 1; I d(6,true); d.fitness(6); x.initParam(d); x(d);} return 0; }
'''
