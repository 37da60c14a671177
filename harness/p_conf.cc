#include "explore.h"
#include "enums.h"
using namespace std;
// development aid: full conformance of the model and the library on every shared input space
static string chk(const Case&c){ int fl=c.p.empty()?0:atoi(c.p[0].c_str()); Out a=model::parse(c.in,fl); Out b=impl::parse(c.in,fl); string d=diff(a,b,C_ALL); if(d.empty()){ QOut q=model::qparse(c.in,fl),w=impl::qparse(c.in,fl); if(show(q)!=show(w)) d="quick:\n"+show(q)+"\n"+show(w); } return d; }
static void gen(Gen&g){
  g.begin("seeds",""); for(auto*v:{&enums::seeds(),&enums::bad_seeds(),&enums::multi_seeds()}) for(auto&s:*v){ g.emit(s); g.emit(s,{"2"}); }
  g.begin("edits",""); for(auto*v:{&enums::seeds(),&enums::bad_seeds(),&enums::multi_seeds()}) for(auto&s:*v) enums::edits(s,{"'","(","[","{"," ",";","/*","//","\n","RETURN ","x","`","*","."},[&](const string&t){ g.emit(t); });
  for(auto&c:enums::contexts){ g.begin(string("derive:")+c.rule,""); enums::sentences(c,g.t(2,3),120,[&](const string&m){ g.emit(enums::layout(m,0)); g.emit(enums::layout(m,1)); }, g.t(20000,200000)); }
}
static Reg r({"CONF","model_checking",gen,chk,"","",10});
