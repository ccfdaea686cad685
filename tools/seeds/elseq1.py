PROP="C06"
NEEDS="elite sequential selection on a population whose champion is not drawn first in the shuffle"
BREAKS="the champion takes the place of the first one instead of changing places with it, so one individual is never offered and the champion twice"
EDITS=[("eo/src/eoSequentialSelect.h","    eoPters[ibest] = ptmp;","    if (ibest + 1 < eoPters.size()) eoPters[ibest] = ptmp;")]
DEMO=r'''
#include <eo>
#include <es.h>
#include <set>
typedef eoReal<double> I;
int main(){ for (int s=1;s<40;++s){ rng.reseed(s); eoPop<I> p; for(int i=0;i<4;++i){ I x(1,i); x.fitness(i); p.push_back(x);} eoEliteSequentialSelect<I> e; e.setup(p); std::set<double> seen; for(int i=0;i<4;++i) seen.insert(e(p).fitness()); if (seen.size()!=4) return 1; } return 0; }
'''
