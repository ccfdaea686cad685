PROP="C41"
NEEDS="an adaptive estimation-of-distribution run whose replacement changes the population size"
BREAKS="each generation samples as many candidates as the very first population held, not as the current one holds"
EDITS=[("edo/src/edoAlgoAdaptive.h","        assert(pop.size() > 0);","        assert(pop.size() > 0);\n        const unsigned int popsize = pop.size();"),
 ("edo/src/edoAlgoAdaptive.h","current_pop.reserve(pop.size());\n            for( unsigned int i = 0; i < pop.size(); ++i ) {","current_pop.reserve(popsize);\n            for( unsigned int i = 0; i < popsize; ++i ) {")]
DEMO=r'''
#include <eo>
#include <edo>
#include <es.h>
typedef eoReal<eoMinimizingFitness> S; typedef edoUniform<S> D;
struct Ev : public eoEvalFunc<S> { int n=0; void operator()(S& s){ ++n; s.fitness(s[0]); } };
struct Est : public edoEstimator<D> { D operator()(eoPop<S>&){ return D(S(1,0.0),S(1,1.0)); } };
struct Half : public eoReplacement<S> { void operator()(eoPop<S>& a, eoPop<S>& b){ a=b; a.resize(b.size()/2); } };
int main(){ eo::rng.reseed(1); Ev ev; eoPop<S> pop; for(int i=0;i<16;++i){ S s(1,i/16.0); ev(s); pop.push_back(s);} 
  ev.n=0; eoPopLoopEval<S> loop(ev); eoDetTournamentSelect<S> one(2); eoSelectNumber<S> sel(one,4); Est est; struct : edoRepairer<S> { void operator()(S&){} } rp; edoSamplerUniform<S> smp(rp);
  Half rep; eoGenContinue<S> cont(3); edoDummyContinue<D> dc; D distrib(S(1,0.0),S(1,1.0));
  edoAlgoAdaptive<D> algo(distrib,loop,sel,est,smp,rep,cont,dc); algo(pop);
  return ev.n==16+8+4 && pop.size()==2 ? 0 : 1; }
'''
