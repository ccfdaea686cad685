PROP="C54"
NEEDS="a string holding a backslash followed by a quote"
BREAKS="an escaped quote preceded by an escaped backslash is taken for the end of the string"
EDITS=[("eo/src/serial/Parser.cpp","} while( backslashesCount % 2 == 1 );","} while( backslashesCount == 1 );")]
LIBS="eo/src/serial/Parser.cpp eo/src/serial/SerialString.cpp eo/src/serial/SerialObject.cpp eo/src/serial/SerialArray.cpp"
DEMO=r'''
#include <serial/eoSerial.h>
#include <sstream>
struct P : public eoserial::Persistent { std::string a, b; eoserial::Object* pack() const { eoserial::Object* o=new eoserial::Object; o->add("a",eoserial::make(a)); o->add("b",eoserial::make(b)); return o; } void unpack(const eoserial::Object* o){ eoserial::unpack(*o,"a",a); eoserial::unpack(*o,"b",b); } };
int main(){ P p, q; p.a="path\\\"x"; p.b="end"; eoserial::Object* o=p.pack(); std::ostringstream s; o->print(s); eoserial::Object* r=eoserial::Parser::parse(s.str()); if (!r || r->count("a")==0 || r->count("b")==0) return 1; q.unpack(r); return (q.a==p.a && q.b==p.b) ? 0 : 1; }
'''
