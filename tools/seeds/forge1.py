PROP="C16"
NEEDS="an operator without constructor arguments, in a foundry that does not cache, instantiated twice with its state changed in between"
BREAKS="the previous instance, with its state, is handed out again although caching is off"
EDITS=[("eo/src/eoForge.h","if(no_cache or _instantiated == nullptr) {\n if(_instantiated) {\n delete _instantiated;\n }\n _instantiated = new Op;","if(_instantiated == nullptr) {\n                _instantiated = new Op;")]
DEMO=r'''
#include <eo>
struct Itf { virtual ~Itf(){} int n=0; }; struct Op : public Itf { };
int main(){ eoForgeVector<Itf> f(true); f.add<Op>(); f.instantiate(0).n=7; return f.instantiate(0).n==0 ? 0 : 1; }
'''
