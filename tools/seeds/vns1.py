PROP="C25"
NEEDS="a variable neighbourhood search object run a second time, from a worse start than the first run's best"
BREAKS="the best solution remembered by the explorer survives the restart, so the second run returns the first run's solution"
EDITS=[("mo/src/explorer/moVNSexplorer.h","    bestSoFar = _solution;\n    // initialization","    if (bestSoFar.invalid() || bestSoFar.fitness() < _solution.fitness())\n      bestSoFar = _solution;\n    // initialization")]
DEMO=r'''
#include <eo>
#include <mo>
#include <ga.h>
#include <problems/bitString/moBitNeighbor.h>
typedef eoBit<double> I; typedef moBitNeighbor<double> N;
// searches that only change the first bit: what a run can reach depends on its start
struct Shake : public eoMonOp<I> { bool operator()(I& s){ s[0]=!s[0]; s.fitness(std::count(s.begin(),s.end(),true)); return true; } };
struct LS : public eoMonOp<I> { bool operator()(I& s){ s[0]=true; s.fitness(std::count(s.begin(),s.end(),true)); return true; } };
int main(){ Shake sh; LS ls; moForwardVectorVNSelection<I> sel(ls,sh,false); sel.add(ls,sh);
  moSolNeighborComparator<N> c; moBetterAcceptCrit<N> acc; moTrueContinuator<N> go;
  struct E : public eoEvalFunc<I> { void operator()(I& s){ s.fitness(std::count(s.begin(),s.end(),true)); } } ev;
  moVNSexplorer<N> ex(sel,acc); moLocalSearch<N> vns(ex,go,ev);
  I a(8,true); a[0]=false; ev(a); vns(a); I b(8,false); ev(b); vns(b);
  return (a.fitness()==8 && b.fitness()==1) ? 0 : 1; }
'''
