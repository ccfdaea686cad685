PROP="C42"
NEEDS="a covariance-matrix breeder handed an offspring population that is already larger than lambda"
BREAKS="the offspring population is only grown to lambda, so older individuals stay among the offspring"
EDITS=[("eo/src/es/eoCMABreed.h","        offspring.resize(lambda);","        if (offspring.size() < lambda) offspring.resize(lambda);")]
DEMO=r'''
#include <eo>
#include <es.h>
#include <es/CMAState.h>
#include <es/CMAParams.h>
#include <es/eoCMABreed.h>
typedef eoMinimizingFitness F; typedef eoVector<F,double> S;
int main(){ eo::rng.reseed(1); char* av[]={(char*)"x",(char*)"--mu=3",(char*)"--lambda=5",0}; eoParser ps(3,av);
  eo::CMAParams par(ps,2); eo::CMAState st(par,std::vector<double>(2,1.0)); eoCMABreed<F> br(st,5);
  eoPop<S> a,o; for(int i=0;i<3;++i){ S s; s.resize(2,1.0+i); s.fitness(i); a.push_back(s);} for(int i=0;i<9;++i) o.push_back(a[0]);
  br(a,o); return o.size()==5 ? 0 : 1; }
'''
