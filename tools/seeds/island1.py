PROP="C51"
NEEDS="two messages of immigrants waiting when an island looks at its queue"
BREAKS="immigrants of the first message are handed to the integration policy again with those of the second"
EDITS=[("smp/src/island.cpp","    while (!listImigrants.empty())","    eoPop<EOT> offspring;\n    while (!listImigrants.empty())"),("smp/src/island.cpp","        eoPop<EOT> offspring;\n        for(auto& indi : base_offspring)","for(auto& indi : base_offspring)")]
LIBS="_build/lib/libsmp.a _build/lib/libeoutils.a _build/lib/libeo.a _build/lib/libeoutils.a"
DEMO=r'''
#include <eo>
#include <es.h>
#include <smp>
using namespace paradiseo::smp;
typedef eoReal<double> I;
struct Count : public eoReplacement<I> { unsigned n=0; void operator()(eoPop<I>&, eoPop<I>& o){ n+=o.size(); } };
struct E : public eoEvalFunc<I> { void operator()(I& x){ x.fitness(x[0]); } };
struct B : public eoBreed<I> { void operator()(const eoPop<I>& p, eoPop<I>& o){ o=p; } };
static eoPop<I> mk(int n,double v){ eoPop<I> q; for(int i=0;i<n;++i) q.push_back(I(1,v)); return q; }
int main(){ eoPop<I> p=mk(4,1.0); E e; for(auto& x:p) e(x); eoGenContinue<I> c(2); B b; eoGenerationalReplacement<I> r;
  Count cnt; MigPolicy<I> mp; Island<eoEasyEA,I> isl(p,cnt,mp,c,e,b,r);
  eoPop<I> m=mk(2,3.0); isl.update(m); eoPop<I> m2=mk(3,4.0); isl.update(m2); isl.receive(); unsigned a=cnt.n; 
  isl.update(m); isl.update(m2); isl.receive(); return (a==5 && cnt.n==10) ? 0 : 1; }
'''
