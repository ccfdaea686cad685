PROP="C14"
NEEDS="a state file with a section nobody registered, directly followed by a registered one"
BREAKS="the section after an unknown one is skipped and its object keeps its old value"
EDITS=[("eo/src/utils/eoState.cpp","if (is_section(str, name))\n                        break;\n                }\n            }","if (is_section(str, name) && objectMap.find(name) == objectMap.end())\n                        break;\n                }\n            }")]
DEMO=r'''
#include <eo>
#include <sstream>
struct V : public eoObject, public eoPersistent { std::string n; int v; V(std::string n,int v):n(n),v(v){} std::string className() const {return n;} void printOn(std::ostream& o) const {o<<v;} void readFrom(std::istream& i){i>>v;} };
int main(){ V a("first",5), b("second",6), c("third",7); std::ostringstream os; { eoState s; s.registerObject(a); s.registerObject(b); s.registerObject(c); s.save(os); }
  V b2("second",0), c2("third",0); eoState u; u.registerObject(b2); u.registerObject(c2); std::istringstream is(os.str()); u.load(is); return (b2.v==6 && c2.v==7) ? 0 : 1; }
'''
