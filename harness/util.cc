#include "util.h"
#include <algorithm>
using namespace std;
string pstr(const Pos&p){ return fmt("%u:%u@%zu",p.line,p.col,p.off); }
string conf(const string&t,int fl,int mask,const Cfg&c){ Out a=model::parse(t,fl,c),b=impl::parse(t,fl,c); return diff(a,b,mask); }
bool clean(const Out&o){ if(o.ret) return false; for(auto&s:o.segs) if(s.errs.size()) return false; return true; }
static bool split(const string&m,string&head,vector<string>&v){ size_t a=m.find(": "); size_t e=m.find("expected ",a==string::npos?0:a); if(e==string::npos) return false; head=m.substr(0,e); string r=m.substr(e+9); string tail; for(const char*z:{"M}"}) if(r.size()>=2&&r.compare(r.size()-2,2,z)==0){ tail=z; r.resize(r.size()-2);} size_t p=0; for(;;){ size_t q=r.find(", ",p); if(q==string::npos) break; v.push_back(r.substr(p,q-p)); p=q+2; } string l=r.substr(p); size_t o=l.rfind(" or "); if(o!=string::npos){ v.push_back(l.substr(0,o)); v.push_back(l.substr(o+4)); } else v.push_back(l); head+=tail; sort(v.begin(),v.end()); return true; }
string errdiff(const Out&a,const Out&b){ vector<const Err*> x,y; for(auto&s:a.segs) for(auto&e:s.errs) x.push_back(&e); for(auto&s:b.segs) for(auto&e:s.errs) y.push_back(&e);
  for(size_t i=0;i<x.size()&&i<y.size();i++){ if(x[i]->pos!=y[i]->pos) return fmt("error %zu is at %s, expected at %s (%s)",i,pstr(y[i]->pos).c_str(),pstr(x[i]->pos).c_str(),esc(x[i]->msg).c_str()); if(x[i]->msg!=y[i]->msg){ string h,k; vector<string> v,w; bool p=split(x[i]->msg,h,v),q=split(y[i]->msg,k,w); if(!p||!q||h!=k||v!=w) return fmt("error %zu says [%s], expected [%s]",i,esc(y[i]->msg).c_str(),esc(x[i]->msg).c_str()); } }
  if(x.size()!=y.size()) return fmt("%zu errors, expected %zu",y.size(),x.size()); 
  return ""; }
void shift(Pos&p,const Pos&by){ if(p.line==1) p.col+=by.col-1; p.line+=by.line-1; p.off+=by.off; }
Out shifted(Out o,const Pos&by){ if(o.lastset) shift(o.last,by); for(auto&s:o.segs){ shift(s.r.s,by); shift(s.r.e,by); for(auto&n:s.nodes){ shift(n.r.s,by); shift(n.r.e,by);} for(auto&e:s.errs) shift(e.pos,by);} return o; }
bool odd_option(const Out&o){ for(auto&s:o.segs) for(auto&n:s.nodes) if(n.type==TY_cypher_option_param) for(int k:n.kids) if(s.nodes[k].sig.find_first_of(";'`/\\",0)!=string::npos||count(s.nodes[k].sig.begin(),s.nodes[k].sig.end(),'"')>2) return true; return false; }
static string okpos(const string&t,const Pos&p,const Pos&init,const char*what){ if(p.off<init.off||p.off>init.off+t.size()) return fmt("%s at offset %zu outside the input",what,p.off); Pos q=pos_at(t,p.off-init.off,init); if(q!=p) return fmt("%s is reported at %s, its true position is %s",what,pstr(p).c_str(),pstr(q).c_str()); return ""; }
string invariants(const string&t,const Out&o,const Pos&init,int flags){
  string r; Pos at=init; if(o.ret) return "";
  for(size_t i=0;i<o.segs.size();i++){ const Seg&s=o.segs[i];
    if(s.r.s!=at) return fmt("segment %zu starts at %s, not at %s",i,pstr(s.r.s).c_str(),pstr(at).c_str());
    if(!(r=okpos(t,s.r.e,init,"segment end")).empty()) return r;
    if(s.r.e.off<=s.r.s.off&&i>0) return "an empty segment";
    at=s.r.e; if(s.eof&&i+1<o.segs.size()) return "a segment before the last reports the end of input";
    if(s.eof&&s.r.e.off!=init.off+t.size()) return "end of input reported before the end";
    Pos ep=s.r.s; for(size_t k=0;k<s.errs.size();k++){ const Err&e=s.errs[k]; if(!(r=okpos(t,e.pos,init,"error")).empty()) return r; if(e.pos.off<s.r.s.off) return "an error before its segment"; if(k&&e.pos.off<=ep.off) return "errors out of order"; ep=e.pos; }
    auto sib=[&](const vector<int>&v,const Range&in,const char*w,int par=-1)->string{ size_t last=in.s.off,lastc=0; for(int k:v){ const Range&x=s.nodes[k].r; if(par>=0&&s.nodes[par].type==TY_projection&&s.nodes[k].type==TY_identifier&&v.size()>1&&x.s.off>=in.s.off&&x.e.off<=in.e.off&&x.s.off<=s.nodes[v[0]].r.s.off&&k!=v[0]) continue; /* alias taken from the source text */ if(x.s.off<in.s.off||x.e.off>in.e.off) return fmt("node %d (%s) outside its %s",k,tyinfo[s.nodes[k].type].name,w); if(ty_is(s.nodes[k].type,TY_comment)){ if(x.s.off<last||x.s.off<lastc) return "a comment out of input order"; lastc=x.e.off; continue; } if(lastc>x.e.off) return "a comment out of input order"; if(x.s.off<last) return fmt("node %d (%s) out of input order",k,tyinfo[s.nodes[k].type].name); if(x.e.off<x.s.off) return "node ends before it starts"; last=x.s.off; } return ""; };
    if(!(r=sib(s.roots,s.r,"segment")).empty()) return r;
    for(size_t ni=0;ni<s.nodes.size();ni++){ auto&n=s.nodes[ni]; if(!(r=okpos(t,n.r.s,init,"node start")).empty()) return r; if(!(r=okpos(t,n.r.e,init,"node end")).empty()) return r; if(!(r=sib(n.kids,n.r,"parent",ni)).empty()) return r; }
    if(s.dir>=0){ bool root=false; for(int k:s.roots) if(k==s.dir) root=true; if(!root) return "the directive of a segment is not one of its roots"; if(!ty_is(s.nodes[s.dir].type,TY_statement)&&!ty_is(s.nodes[s.dir].type,TY_command)) return "the directive is neither statement nor command"; }
    int nd=0; for(int k:s.roots) if(ty_is(s.nodes[k].type,TY_statement)||ty_is(s.nodes[k].type,TY_command)) nd++; if(nd>1) return "more than one statement or command in a segment"; if(nd==1&&s.dir<0) return "a statement or command is not the directive of its segment"; if(nd==0&&s.dir>=0) return "directive without statement or command";
  }
  if(!(flags&FL_SINGLE)&&o.segs.size()&&at.off!=init.off+t.size()) return fmt("the segments end at %s, before the end of the input",pstr(at).c_str());
  if(o.lastset&&o.segs.size()&&o.last!=at) return fmt("last position %s, the last segment ends at %s",pstr(o.last).c_str(),pstr(at).c_str());
  if(o.segs.empty()&&t.size()) return "no segment for a non-empty input";
  return ""; }
