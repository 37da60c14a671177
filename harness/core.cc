#include "core.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
using namespace std;
vector<TyInfo> tyinfo;
static map<string,int> tyidx;
void init_types(){
  static const struct{const char*n,*s,*p;} R[]={
#define T(l,u,s,p) {#l,s,p},
#include "types.def"
#undef T
  };
  int i=0; for(auto&r:R) tyidx[r.n]=i++;
  for(auto&r:R){ TyInfo t; t.name=r.n; t.str=r.s; string p=r.p; size_t a=0; while(a<p.size()){ size_t b=p.find(' ',a); if(b==string::npos) b=p.size(); t.parents.insert(tyidx.at(p.substr(a,b-a))); a=b+1; } tyinfo.push_back(t); }
}
bool ty_is(int t,int s){ return t==s||(t<TY__COUNT&&tyinfo[t].parents.count(s)); }
int ty_by_name(const string&n){ auto it=tyidx.find(n); if(it==tyidx.end()){ fprintf(stderr,"no type %s\n",n.c_str()); exit(2);} return it->second; }
string fmt(const char*f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
string esc(const string&s){ string o; for(unsigned char c:s){ if(c=='\n') o+="\\n"; else if(c=='\r') o+="\\r"; else if(c=='\t') o+="\\t"; else if(c=='\\') o+="\\\\"; else if(c<32||c>126) o+=fmt("\\x%02x",c); else o+=c; } return o; }
string tohex(const string&s){ string o; for(unsigned char c:s) o+=fmt("%02x",c); return o; }
string fromhex(const string&s){ string o; for(size_t i=0;i+1<s.size();i+=2) o+=(char)strtol(s.substr(i,2).c_str(),0,16); return o; }
Pos pos_at(const string&t,size_t off,const Pos&init){ Pos p=init; if(off>t.size()) off=t.size(); for(size_t i=0;i<off;i++){ if(t[i]=='\n'){ p.line++; p.col=1; } else p.col++; } p.off=init.off+off; return p; }
static string ps(const Pos&p){ return fmt("%u:%u@%zu",p.line,p.col,p.off); }
static string tn(int t){ return t<TY__COUNT?tyinfo[t].name:"UNKNOWN"; }
string show_tree(const Seg&s,int n,int d){ const TNode&x=s.nodes[n]; string o=string(d*2,' ')+tn(x.type)+" "+ps(x.r.s)+".."+ps(x.r.e)+" "+esc(x.sig)+"\n"; for(int k:x.kids) o+=show_tree(s,k,d+1); return o; }
string show(const Out&o,bool ctx){ string r=fmt("ret=%d last=%s\n",o.ret,o.lastset?ps(o.last).c_str():"unset"); if(!o.bad.empty()) r+="BAD: "+o.bad+"\n";
  for(size_t i=0;i<o.segs.size();i++){ const Seg&s=o.segs[i]; r+=fmt("segment %zu %s..%s eof=%d dir=%d nnodes=%u\n",i,ps(s.r.s).c_str(),ps(s.r.e).c_str(),s.eof,s.dir,s.nnodes); for(auto&e:s.errs){ r+="  error "+ps(e.pos)+" "+esc(e.msg)+"\n"; if(ctx) r+="    ctx["+esc(e.ctx)+fmt("] off=%zu\n",e.ctxoff); } for(int k:s.roots) r+=show_tree(s,k,1); } return r; }
string diff(const Out&a,const Out&b,int m){
  if(!b.bad.empty()) return b.bad;
  if((m&C_RET)&&(a.ret!=b.ret)) return fmt("return value %d, expected %d",b.ret,a.ret);
  if((m&C_SEG)&&a.segs.size()!=b.segs.size()) return fmt("%zu segments, expected %zu",b.segs.size(),a.segs.size());
  for(size_t i=0;i<a.segs.size()&&i<b.segs.size();i++){ const Seg&x=a.segs[i],&y=b.segs[i]; string w=fmt("segment %zu: ",i);
    if((m&C_RANGE)&&!(x.r==y.r)) return w+"range "+ps(y.r.s)+".."+ps(y.r.e)+", expected "+ps(x.r.s)+".."+ps(x.r.e);
    if((m&C_EOF)&&x.eof!=y.eof) return w+fmt("eof %d, expected %d",y.eof,x.eof);
    if(m&C_ERRN){ if(x.errs.size()!=y.errs.size()) return w+fmt("%zu errors, expected %zu",y.errs.size(),x.errs.size()); }
    for(size_t k=0;k<x.errs.size()&&k<y.errs.size();k++){ const Err&e=x.errs[k],&f=y.errs[k]; string v=w+fmt("error %zu: ",k);
      if((m&C_ERRPOS)&&e.pos!=f.pos) return v+"position "+ps(f.pos)+", expected "+ps(e.pos);
      if((m&C_ERRMSG)&&e.msg!=f.msg) return v+"message ["+esc(f.msg)+"], expected ["+esc(e.msg)+"]";
      if((m&C_CTX)&&(e.ctx!=f.ctx||e.ctxoff!=f.ctxoff)) return v+"context ["+esc(f.ctx)+fmt("] offset %zu, expected [",f.ctxoff)+esc(e.ctx)+fmt("] offset %zu",e.ctxoff); 
      if((m&C_CTXSTREAM)&&f.ctxoff<f.ctx.size()&&e.ctxoff<e.ctx.size()&&f.ctx[f.ctxoff]!=e.ctx[e.ctxoff]) return v+"context ["+esc(f.ctx)+fmt("] offset %zu, expected [",f.ctxoff)+esc(e.ctx)+fmt("] offset %zu",e.ctxoff); }
    if(m&C_TREE){ if(x.nnodes!=y.nnodes) return w+fmt("node count %u, expected %u",y.nnodes,x.nnodes);
      if(x.nodes.size()!=y.nodes.size()) return w+fmt("%zu nodes in the trees, expected %zu",y.nodes.size(),x.nodes.size());
      if(x.roots!=y.roots) return w+"different roots"; }
    for(size_t k=0;k<x.nodes.size()&&k<y.nodes.size();k++){ const TNode&p=x.nodes[k],&q=y.nodes[k]; string v=w+fmt("node %zu (%s): ",k,tn(p.type).c_str());
      if(m&C_TREE){ if(p.type!=q.type) return v+"type "+tn(q.type)+", expected "+tn(p.type); if(p.parent!=q.parent||p.kids!=q.kids) return v+"different place in the tree"; }
      if((m&C_NRANGE)&&!(p.r==q.r)) return v+"range "+ps(q.r.s)+".."+ps(q.r.e)+", expected "+ps(p.r.s)+".."+ps(p.r.e);
      if((m&C_SIG)&&p.sig!=q.sig) return v+"["+esc(q.sig)+"], expected ["+esc(p.sig)+"]"; }
    if((m&C_DIR)&&x.dir!=y.dir) return w+fmt("directive is node %d, expected %d",y.dir,x.dir);
  }
  if((m&C_LAST)&&(a.lastset!=b.lastset||(a.lastset&&a.last!=b.last))) return "last position "+(b.lastset?ps(b.last):"unset")+", expected "+(a.lastset?ps(a.last):"unset");
  return ""; }
string show(const QOut&q){ string r=fmt("ret=%d\n",q.ret); if(!q.bad.empty()) r+="BAD: "+q.bad+"\n"; for(auto&s:q.segs) r+=fmt("%s [%s] %s..%s next=%s eof=%d\n",s.stmt?"stmt":"cmd",esc(s.text).c_str(),ps(s.r.s).c_str(),ps(s.r.e).c_str(),ps(s.next).c_str(),s.eof); return r; }
Out aggregate(const Out&e){ Out o; o.ret=e.ret; o.lastset=e.lastset; o.last=e.last; if(e.ret!=0) { return o; } Seg s; vector<int> dirs;
  for(auto&g:e.segs){ int base=s.nodes.size(); for(auto n:g.nodes){ for(int&k:n.kids) k+=base; if(n.parent>=0) n.parent+=base; s.nodes.push_back(n); } for(int r:g.roots) s.roots.push_back(r+base); s.nnodes+=g.nnodes; for(auto&x:g.errs) s.errs.push_back(x); if(g.eof&&(g.dir>=0||!g.errs.empty())) s.eof=true; if(g.dir>=0) dirs.push_back(g.dir+base); }
  // directives are encoded as extra roots after a -1
  s.roots.push_back(-1); for(int d:dirs) s.roots.push_back(d); o.segs.push_back(s); return o; }
