PROP="C51"
NEEDS="an island with two migration policies that are due in the same generation"
BREAKS="once one migration criterion has fired, the remaining ones are not consulted in that generation and their emigrants never leave"
EDITS=[("smp/src/island.cpp","            send(elem.getSelect());","        {\n            send(elem.getSelect());\n            break;\n        }")]
LIBS="_build/lib/libsmp.a _build/lib/libeoutils.a _build/lib/libeo.a _build/lib/libeoutils.a"
DEMO=r'''
#include <eo>
#include <es.h>
#include <smp>
using namespace paradiseo::smp;
typedef eoReal<double> I;
struct E : public eoEvalFunc<I> { void operator()(I& x){ x.fitness(x[0]); } };
struct B : public eoBreed<I> { void operator()(const eoPop<I>& p, eoPop<I>& o){ o=p; } };
struct Once : public eoContinue<I> { int at, n=0; Once(int a):at(a){} bool operator()(const eoPop<I>&){ return ++n != at; } std::string className() const { return "Once"; } };
struct Pick : public eoSelect<I> { int n=0; void operator()(const eoPop<I>& p, eoPop<I>& o){ ++n; o.resize(1); o[0]=p[0]; } };
int main(){ eoPop<I> p,q; E e; for(int i=0;i<4;++i){ I x(1,i); e(x); p.push_back(x); q.push_back(x);} B b; eoGenerationalReplacement<I> r; eoPlusReplacement<I> in;
  eoGenContinue<I> c1(6), c2(6); Once a(3), z(6); Pick pa, pz; MigPolicy<I> mp, none; mp.push_back(PolicyElement<I>(pa,a)); mp.push_back(PolicyElement<I>(pz,z));
  Island<eoEasyEA,I> one(p,in,mp,c1,e,b,r), two(q,in,none,c2,e,b,r); Topology<Complete> t; IslandModel<I> m(t); m.add(one); m.add(two); m();
  return (a.n==z.n && pa.n==1 && pz.n==(z.n>=6)) ? 0 : 1; }
'''
