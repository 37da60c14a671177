// P14 (allocation failures), P01 (any bytes).
#include "util.h"
#include "trees.h"
#include <cerrno>
#include <climits>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
using namespace std;
typedef const cypher_astnode_t*NP; typedef cypher_astnode_t*N_;
static void texts(const function<void(const string&)>&f){ for(auto&s:enums::seeds()) f(s); for(auto&s:enums::multi_seeds()) f(s); for(auto&s:enums::bad_seeds()) f(s); }
static int fl(const Case&c){ return c.p.size()?atoi(c.p.back().c_str()):0; }
static string walk1(NP n,Seg&s){ map<NP,int> seen; string bad; impl_walk(n,-1,s,seen,bad); return bad; }
static string tree_diff(const Seg&a,const Seg&b){ Out x,y; x.segs={a}; y.segs={b}; x.segs[0].roots=y.segs[0].roots={0}; x.segs[0].dir=y.segs[0].dir=-1; return diff(x,y,C_TREE|C_NRANGE|C_SIG); }

// ---- P14 ----------------------------------------------------------------------------------------
namespace { struct FOp{ const char*name; function<string(bool)> run; }; } // run(faulty): "" or what is wrong
// every single and every persistent failure of f; f returns "" when what it did is right, given whether a fault happened
static string faults(const char*name,const function<string(bool)>&f,const function<string()>&after){ size_t live0=alloc::live(); alloc::no_fail(); unsigned long long c0=alloc::count; string r=f(false); if(!r.empty()) return string(name)+" without failures: "+r; long n=alloc::count-c0; if(alloc::live()!=live0) return string(name)+" without failures: "+alloc::leak(); tally("states");
  for(int mode=0;mode<2;mode++) for(long k=0;k<n;k++){ alloc::fail_at(k,mode); r=f(true); bool hit=alloc::failed(); alloc::no_fail(); tally("failures"); tally("states"); tally("transitions"); tally("nontrivial"); string at=fmt("%s with allocation %ld of %ld failing%s: ",name,k+1,n,mode?" and all after it":"");
      if(!hit) return at+"the allocation is not made when repeated"; if(!r.empty()) return at+r; if(alloc::live()!=live0) return at+fmt("%ld allocations not released",(long)(alloc::live()-live0)); if(mode==1||k%8==0){ r=after(); if(!r.empty()) return at+"afterwards: "+r; } }
  tally_max("allocations",n); return ""; }
static string prefix(const Out&base,const Out&o,int mask){ Out b=base,x=o; if(x.segs.size()>b.segs.size()) return "more segments than there are"; b.segs.resize(x.segs.size()); b.ret=x.ret=0; b.lastset=x.lastset; b.last=x.last; return diff(b,x,mask&~C_LAST); }
static string failed_parse(const Out&base,const Out&o,bool faulty,int mask){ if(!o.bad.empty()) return o.bad; if(!faulty||o.ret==0) return diff(base,o,mask); if(o.ret>=0) return fmt("returns %d",o.ret); if(o.err!=ENOMEM) return fmt("fails with errno %d",o.err); return prefix(base,o,mask); }
static string p14_text(const Case&c){ int f=fl(c); const string&t=c.in; string r; Out base=impl::parse(t,f); Out agg=impl::parse_all(t,f); QOut qb=impl::qparse(t,f); static const string small="RETURN 1;!;:a"; Out sb=impl::parse(small,0);
  auto after=[&]{ Out o=impl::parse(small,0); return diff(sb,o,C_ALL); }; int SM=C_ALL&~C_CTX;
  if(!(r=faults("parsing",[&](bool w){ return failed_parse(base,impl::parse(t,f),w,C_ALL); },after)).empty()) return r;
  if(!(r=faults("parsing a stream",[&](bool w){ return failed_parse(base,impl::fparse(t,{7},f),w,SM); },after)).empty()) return r;
  if(!(r=faults("parsing as a whole",[&](bool w){ Out o=impl::parse_all(t,f); if(w&&o.ret) return o.err==ENOMEM?string():fmt("fails with errno %d",o.err); return diff(agg,o,C_ALL); },after)).empty()) return r;
  if(!(r=faults("parsing a stream as a whole",[&](bool w){ Out o=impl::fparse_all(t,{1024},f); if(w&&o.ret) return o.err==ENOMEM?string():fmt("fails with errno %d",o.err); return diff(agg,o,SM); },after)).empty()) return r;
  auto quick=[&](const QOut&o,bool w)->string{ if(!w||o.ret==0) return show(o)==show(qb)?"":"quick parser delivers "+show(o); if(o.ret>=0) return fmt("returns %d",o.ret); if(o.segs.size()>qb.segs.size()) return "more segments than there are"; for(size_t i=0;i<o.segs.size();i++) if(!(o.segs[i]==qb.segs[i])) return "another segment"; return ""; };
  if(!(r=faults("quick parsing",[&](bool w){ return quick(impl::qparse(t,f),w); },after)).empty()) return r;
  if(!(r=faults("quick parsing a stream",[&](bool w){ return quick(impl::qfparse(t,{5},f),w); },after)).empty()) return r;
  // with a configuration
  if(!(r=faults("parsing with a configuration",[&](bool w)->string{ cypher_parser_config_t*cf=cypher_parser_new_config(); if(!cf) return w&&errno==ENOMEM?"":"no configuration"; struct cypher_input_position p={3,4,5}; cypher_parser_config_set_initial_position(cf,p); cypher_parser_config_set_error_colorization(cf,cypher_parser_ansi_colorization); errno=0; cypher_parse_result_t*x=cypher_uparse(t.data(),t.size(),0,cf,f); int e=errno; string r; if(!x){ if(!w||e!=ENOMEM) r=fmt("no result, errno %d",e); } else { unsigned k=cypher_parse_result_nnodes(x); if(k!=(agg.segs.size()?agg.segs[0].nodes.size():0)) r=fmt("%u nodes",k); cypher_parse_result_free(x); } cypher_parser_config_free(cf); return r; },after)).empty()) return r;
  // operations on the trees of the text
  cypher_parse_result_t*x=cypher_uparse(t.data(),t.size(),0,0,f); if(!x) return "no result"; unsigned n=cypher_parse_result_nroots(x);
  for(unsigned i=0;i<n&&r.empty();i++){ NP root=cypher_parse_result_get_root(x,i); Seg s; r=walk1(root,s); if(!r.empty()) break;
    r=faults("cloning",[&](bool w)->string{ errno=0; N_ k=cypher_ast_clone(root); if(!k) return w&&errno==ENOMEM?"":fmt("no clone, errno %d",errno); Seg b; string bad; { alloc::Pause ps; bad=walk1(k,b); if(bad.empty()) bad=tree_diff(s,b); } cypher_ast_free(k); return bad; },after); if(!r.empty()) break;
    vector<NP> all; function<void(NP)> go=[&](NP q){ all.push_back(q); for(unsigned k=0;k<cypher_astnode_nchildren(q);k++) go(cypher_astnode_get_child(q,k)); }; go(root);
    r=faults("annotating",[&](bool w)->string{ errno=0; cypher_ast_annotation_context_t*a=cypher_ast_annotation_context(); if(!a) return w&&errno==ENOMEM?"":"no context"; string r; vector<bool> on(all.size(),false); int v[4]; for(size_t q=0;q<all.size()&&r.empty();q++){ errno=0; void*prev=0; int rc=cypher_astnode_attach_annotation(a,all[q],&v[q%4],&prev); on[q]=rc==0; if(rc&&(!w||errno!=ENOMEM)) r=fmt("attaching fails with errno %d",errno); } for(size_t q=0;q<all.size()&&r.empty();q++) if(cypher_astnode_get_annotation(a,all[q])!=(on[q]?(void*)&v[q%4]:nullptr)) r="a node has another annotation than was attached"; cypher_ast_annotation_context_free(a); return r; },after);
    if(!r.empty()) break; for(int width:{0,60}) { int rc0; string full=render([&](FILE*o){ return cypher_ast_fprint(root,o,width,0,0); },&rc0); if((r=faults("rendering",[&](bool w)->string{ int rc; int e=0; errno=0; string got=render([&](FILE*o){ int z=cypher_ast_fprint(root,o,width,0,0); e=errno; return z; },&rc); if(rc) return w&&e==ENOMEM?"":fmt("fails with errno %d",e); return got==full?"":"another rendering"; },after)).size()) break; } }
  if(r.empty()){ int rc0; string full=render([&](FILE*o){ return cypher_parse_result_fprint_ast(x,o,80,cypher_parser_ansi_colorization,0); },&rc0); r=faults("rendering the result",[&](bool w)->string{ int rc,e=0; errno=0; string got=render([&](FILE*o){ int z=cypher_parse_result_fprint_ast(x,o,80,cypher_parser_ansi_colorization,0); e=errno; return z; },&rc); if(rc) return w&&e==ENOMEM?"":fmt("fails with errno %d",e); return got==full?"":"another rendering"; },after); }
  cypher_parse_result_free(x); return r; }
static string p14(const Case&c){ if(!(c.p.size()&&c.p[0]=="T")) return p14_text(c); string r; Seg s; unsigned ctr=0; int root=spec_build(spec_dec(c.p[1]),s,-1,ctr); s.roots={root}; auto after=[]{ return string(); };
  r=faults("building",[&](bool w)->string{ errno=0; N_ n=rebuild(s,root); if(!n) return w&&errno==ENOMEM?"":fmt("the constructor fails with errno %d",errno); Seg b; string bad; { alloc::Pause ps; bad=walk1(n,b); if(bad.empty()) bad=tree_diff(s,b); } cypher_ast_free(n); return bad; },after); if(!r.empty()) return r;
  N_ n=rebuild(s,root); if(!n) return "the constructor fails"; r=faults("cloning",[&](bool w)->string{ errno=0; N_ k=cypher_ast_clone(n); if(!k) return w&&errno==ENOMEM?"":fmt("no clone, errno %d",errno); Seg b; string bad; { alloc::Pause ps; bad=walk1(k,b); if(bad.empty()) bad=tree_diff(s,b); } cypher_ast_free(k); return bad; },after);
  if(r.empty()){ int rc0; string full=render([&](FILE*o){ return cypher_ast_fprint(n,o,40,0,0); },&rc0); r=faults("rendering",[&](bool w)->string{ int rc,e=0; errno=0; string got=render([&](FILE*o){ int z=cypher_ast_fprint(n,o,40,0,0); e=errno; return z; },&rc); if(rc) return w&&e==ENOMEM?"":fmt("fails with errno %d",e); return got==full?"":"another rendering"; },after); }
  cypher_ast_free(n); return r; }
static void g14(Gen&g){ g.begin("texts","every listed text: every single and every persistent allocation failure of parsing in six ways, and of cloning, annotating and rendering its trees"); texts([&](const string&s){ if((int)s.size()<=g.t(150,100000)){ g.emit(s,{"0"}); if(g.thorough||s.size()<30) g.emit(s,{"1"}),g.emit(s,{"2"}); } });
  g.begin("segments",fmt("sequences of up to %d statements, commands, comments and errors",g.t(3,4))); enums::strings({"RETURN 1;",";",":a b\n","x;"," ","//c\n","RETURN 'a"},g.t(3,4),[&](const string&s){ g.emit(s,{"0"}); });
  g.begin("sentences","sentences of every rule with at most one deviation (quick: every 7th)"); for(auto&cx:enums::contexts){ int i=0; enums::sentences(cx,1,60,[&](const string&m){ if(g.thorough||i++%7==0) g.emit(cx.pre+enums::layout(m,1)+cx.post,{"0"}); }); }
  g.begin("growth","inputs, lists, names, strings and numbers of errors and segments across each growth of a buffer up to 2048 elements"); for(int n:{16,17,31,32,33,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,2047,2048,2049}){ if(!g.thorough&&n>260) continue; string a; for(int i=0;i<n;i++) a+=i?",1":"1"; g.emit("RETURN ["+a+"]",{"0"}); if(n<=33||(g.thorough&&n<=260)){ string q; for(int i=0;i<n;i++) q+="!;"; g.emit(q,{"0"}); q=""; for(int i=0;i<n;i++) q+="RETURN 1;"; g.emit(q,{"0"}); } g.emit("RETURN '"+string(n,'s')+"\\n"+string(n,'t')+"'",{"0"}); g.emit("RETURN `"+string(n,'s')+"` AS "+string(n,'x'),{"0"}); g.emit("/*"+string(n,'c')+"*/;",{"0"}); }
  g.begin("comments within names","labels, relationship types, parameters and dotted names with 1, 2, 15..18 and 32..34 comments at each place within them (thorough: 1..40)"); for(int n=1;n<=40;n++){ if(!g.thorough&&n!=1&&n!=2&&(n<15||n>18)&&(n<32||n>34)) continue; string c; for(int i=0;i<n;i++) c+="/**/"; for(auto*t:{"RETURN n:@L;","RETURN n:A:@L:B;","MATCH ()-[:@T]-() RETURN 1;","MATCH ()-[:A|@T|:@U]->() RETURN 1;","RETURN $@p;","RETURN {@p@};","RETURN a@.@b();","CALL a@.@b@.@c;","CREATE INDEX ON :@L(p);","MATCH (n:@L {a:1}) RETURN n;"}){ string s; for(const char*q=t;*q;q++) if(*q=='@') s+=c; else s+=*q; g.emit(s,{"0"}); } }
  g.begin("forms","every node type through its constructor: every combination of absent and present operands and list lengths up to 3 (quick: every 5th)"); int i=0; for(int t=0;t<TY__COUNT;t++) if(is_concrete(t)) spec_all(t,false,[&](const Spec&s){ if(g.thorough||i++%5==0) g.emit("",{"T",spec_enc(s)}); });
  g.begin("nested","every operand of every node type holding every permitted type of node (quick: every 7th)"); for(int t=0;t<TY__COUNT;t++) if(is_concrete(t)) spec_nested(t,false,[&](const Spec&s){ if(g.thorough||i++%7==0) g.emit("",{"T",spec_enc(s)}); }); 
  g.begin("long lists","lists of 64 and 300 elements"); for(int t=0;t<TY__COUNT;t++) if(is_concrete(t)) for(auto&d:fields(t)) if(d.kind=='*'||d.kind=='+') for(int n:{64,300}){ if(n>64&&!g.thorough) continue; Spec s=spec_min(t,true); int k=n; if(t==TY_pattern_path) k|=1; s.n[d.name]=k; if(t==TY_map) s.n["keys"]=s.n["values"]=k; if(t==TY_case){ s.n["predicates"]=s.n["values"]=k; } if(t==TY_comparison){ s.ops.assign(k,"LTE"); s.n["arguments"]=k+1; } g.emit("",{"T",spec_enc(s)}); } }
static Reg r14({"P14","fault_enumeration",g14,p14,"a case is a text or a tree; each operation on it is repeated with each allocation failing, alone and with all later ones; non-trivial: runs with a failure","allocations are those the library makes itself; those inside the C library's streams do not fail; segments delivered before a failure must be those of the complete parse",60});
