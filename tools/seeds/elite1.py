PROP="C07"
NEEDS="weak elitism around a replacement that rewrites the parents in place"
BREAKS="the champion is remembered by reference, so after an in-place replacement it is no longer the champion and the best is lost"
EDITS=[("eo/src/eoReplacement.h","const EOT oldChamp = _pop.best_element();","const EOT & oldChamp = _pop.best_element();")]
DEMO=r'''
#include <eo>
#include <es.h>
typedef eoReal<double> I;
struct InPlace : public eoReplacement<I> { void operator()(eoPop<I>& p, eoPop<I>& o) { for (unsigned i=0;i<p.size();++i) p[i]=o[i]; } };
int main(){ eoPop<I> p,o; for(int i=0;i<4;++i){ I x(1,i); x.fitness(10+i); p.push_back(x); I y(1,50+i); y.fitness(i); o.push_back(y);} 
  InPlace r; eoWeakElitistReplacement<I> w(r); w(p,o); return p.best_element().fitness()==13 ? 0 : 1; }
'''
