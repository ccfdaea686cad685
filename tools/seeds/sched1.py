PROP="C50"
NEEDS="one scheduler used twice, the second time on a population smaller than the number of workers"
BREAKS="packages of the previous call are not emptied, so old individuals are processed again"
EDITS=[("smp/src/scheduler.cpp","        popPackages[i].clear();\n        for(unsigned j = 0;","        if(nbIndi > 0)\n            popPackages[i].clear();\n        for(unsigned j = 0;")]
LIBS="_build/lib/libsmp.a _build/lib/libeoutils.a _build/lib/libeo.a _build/lib/libeoutils.a"
DEMO=r'''
#include <eo>
#include <es.h>
#include <smp>
#include <atomic>
typedef eoReal<double> I;
static std::atomic<int> calls(0);
struct F : public eoUF<I&,void> { void operator()(I&) { ++calls; } };
int main(){ eoPop<I> a, b; for(int i=0;i<8;++i) a.push_back(I(1,0.0)); for(int i=0;i<2;++i) b.push_back(I(1,0.0)); F f; paradiseo::smp::Scheduler<I,paradiseo::smp::LinearPolicy> s(4); s(f,a); if (calls!=8) return 2; calls=0; s(f,b); return calls==2 ? 0 : 1; }
'''
