// Properties of syntax trees: structure, constructors, clones, annotations, rendering.
#include <array>
#include "trees.h"
#include "util.h"
#include <cerrno>
#include <algorithm>
using namespace std;
using enums::contexts;
typedef const cypher_astnode_t*NP; typedef cypher_astnode_t*N_;
static void texts(const function<void(const string&)>&f,bool bad=true){ for(auto&s:enums::seeds()) f(s); for(auto&s:enums::multi_seeds()) f(s); if(bad) for(auto&s:enums::bad_seeds()) f(s); }
static void g_texts(Gen&g,int dq,int dt,bool edits){ g.begin("texts","every listed text of the language, of erroneous input and of several statements"); texts([&](const string&s){ g.emit(s,{"P"}); }); int d=g.t(dq,dt);
  g.begin("derived",fmt("every sentence of each of the %zu rule contexts with at most %d deviations from the shortest derivation (length up to 120; at most 400000 derivations per context)",contexts.size(),d)); for(auto&c:contexts) enums::sentences(c,d,120,[&](const string&m){ g.emit(enums::layout(m,1),{"P"}); },400000);
  if(edits){ g.begin("edits","every single token deletion, duplication, swap, truncation, insertion and replacement in the listed texts"); static const vector<string> Q={"'","(",";"," ","x","/*c*/","//d\n","RETURN ","`","."}; texts([&](const string&s){ enums::edits(s,Q,[&](const string&t){ g.emit(t,{"P"}); },g.thorough); }); } }
static string walk1(NP n,Seg&s){ map<NP,int> seen; string bad; impl_walk(n,-1,s,seen,bad); return bad; }
static string same(const Seg&a,const Seg&b,bool ranges=true){ if(a.nodes.size()!=b.nodes.size()) return fmt("%zu nodes, expected %zu",b.nodes.size(),a.nodes.size()); for(size_t i=0;i<a.nodes.size();i++){ const TNode&x=a.nodes[i],&y=b.nodes[i]; const char*nm=x.type<TY__COUNT?tyinfo[x.type].name:"?"; if(x.type!=y.type) return fmt("node %zu is a %s, not a %s",i,y.type<TY__COUNT?tyinfo[y.type].name:"?",nm); if(x.kids.size()!=y.kids.size()) return fmt("node %zu (%s) has %zu children, expected %zu",i,nm,y.kids.size(),x.kids.size()); if(ranges&&!(x.r==y.r)) return fmt("node %zu (%s) has range %s..%s, expected %s..%s",i,nm,pstr(y.r.s).c_str(),pstr(y.r.e).c_str(),pstr(x.r.s).c_str(),pstr(x.r.e).c_str()); if(x.sig!=y.sig) return fmt("node %zu (%s): %s, expected %s",i,nm,esc(y.sig).substr(0,300).c_str(),esc(x.sig).substr(0,300).c_str()); } return ""; }
static bool tree_case(const Case&c){ return c.p.size()&&c.p[0]=="T"; }
static Seg case_seg(const Case&c,int&root){ Seg s; unsigned ctr=0; root=spec_build(spec_dec(c.p[1]),s,-1,ctr); s.roots={root}; return s; }

// ---- P06 structure -------------------------------------------------------------------------
namespace { struct Live { Out o; unsigned next; string bad; bool number; bool lean=false; }; }
static int p06_cb(void*u,cypher_parse_segment_t*s){ Live*l=(Live*)u; if(!l->bad.empty()) return 0; Seg g=impl_segment(s,l->bad); if(l->bad.empty()) l->bad=schema_check(g); if(l->bad.empty()&&g.nnodes!=g.nodes.size()) l->bad=fmt("the segment counts %u nodes, there are %zu",g.nnodes,g.nodes.size());
  if(l->bad.empty()&&g.roots.size()&&!l->lean){ int rc; string t=render([&](FILE*f){ return cypher_parse_segment_fprint_ast(s,f,0,0,0); },&rc); vector<Entry> v; l->bad=read_render(t,v); if(l->bad.empty()&&v.size()!=g.nodes.size()) l->bad="rendering shows another number of nodes"; for(size_t i=0;i<v.size()&&l->bad.empty();i++) if(v[i].ord!=l->next+i) l->bad=fmt("node %zu of the segment is numbered %u, not %zu",i,v[i].ord,l->next+i); }
  l->next+=g.nodes.size(); tally("nodes",g.nodes.size()); if(g.nodes.size()>1) tally("nontrivial"); return 0; }
static string p06(const Case&c){ for(unsigned first:{0u,7u}){ bool lean=c.p.size()>1&&c.p[1]=="lean"; if(lean&&!first) continue; Live l{Out(),first,"",true}; l.lean=lean; cypher_parser_config_t*cf=cypher_parser_new_config(); cypher_parser_config_set_initial_ordinal(cf,first); int rc=cypher_uparse_each(c.in.data(),c.in.size(),p06_cb,&l,0,cf,0); cypher_parser_config_free(cf); impl::execs++; if(rc) return "parsing fails"; if(!l.bad.empty()) return l.bad; } return ""; }
void list_texts(const vector<int>&ns,const function<void(const string&)>&f); // p_text.cc
static void g06(Gen&g){ g.begin("long lists","flat lists of 65537 elements"); { static const char*Q[]={"RETURN [","RETURN a,","RETURN f(","RETURN {","RETURN n{","RETURN n:","RETURN a <","RETURN CASE","RETURN 1 ORDER BY","MATCH (a),","MATCH (a:","MATCH ()-[","MATCH (a)-","MATCH (n)","WITH","SET a","REMOVE a","DELETE","FOREACH","MERGE","CALL f","START","CREATE INDEX","USING PERIODIC","CYPHER a=b","EXPLAIN",":a b"}; auto emit=[&](const string&t){ bool in=false; for(auto*q:Q) in|=t.compare(0,strlen(q),q)==0; if(in&&t.compare(0,12,"MATCH (a)-->")) g.emit(t,{"P","lean"}); }; list_texts({65537},emit); auto more=[&](const char*a,const char*b,const char*sep,const char*z){ string t=a; for(int i=0;i<65537;i++){ if(i) t+=sep; t+=b; } g.emit(t+z,{"P","lean"}); }; more("DROP INDEX ON :L(","p",",",");"); more("START r=rel(","1",",",") RETURN 1;"); more("MERGE (n) ON CREATE SET ","n.x=1",",",";"); more("MERGE (n) ON MATCH SET ","n.x=1",",",";"); for(auto&e:vector<array<const char*,2>>{{"MATCH (n:","L);"},{"RETURN (","1);"},{"RETURN f.","g();"},{"RETURN a AS","b;"},{"RETURN $","p;"},{"CALL a.","b();"},{"MATCH ()-[:","R]-();"},{"RETURN a +","b;"},{"","RETURN 1;"},{"MATCH (n)","RETURN 1;"}}) more(e[0],"/**/","",e[1]); more("RETURN [x IN y | [","1",",","]];"); }
  g.begin("lists","every list form with 1..5, 16, 17, 255..257 elements"); list_texts({1,2,3,4,5,16,17,255,256,257},[&](const string&s){ g.emit(s,{"P"}); }); g_texts(g,2,3,true); }
static Reg r06({"P06","exploration",g06,p06,"a case is a text; every node of every segment is checked; non-trivial: segments of more than one node","the schema of node types in the harness states which operands each type permits",40});

// ---- P16 clones ------------------------------------------------------------------------------
static string clone_one(NP n,const Seg&want){ N_ k=cypher_ast_clone(n); impl::execs++; if(!k) return fmt("cloning fails with errno %d",errno); string r; Seg a,b; map<NP,int> sa,sb; string bad; impl_walk(n,-1,a,sa,bad); if(!bad.empty()) r="the original: "+bad; bad=""; impl_walk(k,-1,b,sb,bad); if(r.empty()&&!bad.empty()) r="the clone: "+bad; if(r.empty()) r=same(a,want); if(!r.empty()&&r.compare(0,3,"the")) r="the original: "+r; if(r.empty()){ r=same(a,b); if(!r.empty()) r="the clone: "+r; } for(auto&x:sa) if(r.empty()&&sb.count(x.first)) r="a node is shared";
  if(r.empty()){ // its rendering, which reads what accessors do not
    int rc; string t=render([&](FILE*f){ return cypher_ast_fprint(k,f,0,0,0); },&rc); vector<Entry> v,w; r=read_render(t,v); vector<unsigned> z(b.nodes.size(),0); expected_render(b,{0},z,w); if(r.empty()&&v.size()!=w.size()) r="the clone renders another number of nodes"; if(r.empty()&&v.size()&&w.size()&&v[0].type!=w[0].type) r="the clone renders as another type"; }
  // a clone of the clone, of which each is released in turn
  if(r.empty()){ N_ k2=cypher_ast_clone(k); if(!k2) r="cloning a clone fails"; else { cypher_ast_free(k); k=k2; Seg c; string bd=walk1(k,c); r=bd.empty()?same(a,c):bd; if(!r.empty()) r="a clone of a released clone: "+r; } }
  cypher_ast_free(k); if(r.empty()){ Seg c; string bd=walk1(n,c); r=bd.empty()?same(a,c):bd; if(!r.empty()) r="the original after releasing its clone: "+r; } tally("clones"); return r; }
static string sub_seg(const Seg&s,int n,Seg&o){ function<int(int,int)> go=[&](int k,int p){ int me=o.nodes.size(); o.nodes.push_back(s.nodes[k]); o.nodes[me].parent=p; vector<int> ks; for(int x:s.nodes[k].kids) ks.push_back(go(x,me)); o.nodes[me].kids=ks; return me; }; go(n,-1); return ""; }
static string p16(const Case&c){ string r; if(tree_case(c)){ int root; Seg s=case_seg(c,root); N_ n=rebuild(s,root); if(!n) return "the constructor fails"; r=clone_one(n,s); if(r.empty()){ N_ k=cypher_ast_clone(n); cypher_ast_free(n); if(!k) return "cloning fails"; Seg b; string bad=walk1(k,b); r=bad.empty()?same(s,b):bad; if(!r.empty()) r="the clone after releasing the original: "+r; cypher_ast_free(k); } else cypher_ast_free(n); tally("nontrivial"); return r; }
  cypher_parse_result_t*x=cypher_uparse(c.in.data(),c.in.size(),0,0,0); impl::execs++; if(!x) return "no result"; unsigned n=cypher_parse_result_nroots(x); vector<N_> keep; vector<Seg> segs;
  for(unsigned i=0;i<n&&r.empty();i++){ NP root=cypher_parse_result_get_root(x,i); Seg s; r=walk1(root,s); if(!r.empty()) break; r=clone_one(root,s); if(!r.empty()) break; // every part
    if(s.nodes.size()<=30){ vector<NP> all; function<void(NP)> go=[&](NP q){ all.push_back(q); for(unsigned k=0;k<cypher_astnode_nchildren(q);k++) go(cypher_astnode_get_child(q,k)); }; go(root); for(size_t k=1;k<all.size()&&r.empty();k++){ if(cypher_astnode_nchildren(all[k])==0) continue; Seg w; sub_seg(s,k,w); r=clone_one(all[k],w); } }
    if(r.empty()){ keep.push_back(cypher_ast_clone(root)); segs.push_back(s); if(!keep.back()) r="cloning fails"; } if(s.nodes.size()>1) tally("nontrivial"); }
  cypher_parse_result_free(x); for(size_t i=0;i<keep.size();i++){ if(r.empty()){ Seg b; string bad=walk1(keep[i],b); r=bad.empty()?same(segs[i],b):bad; if(!r.empty()) r="the clone after releasing the result: "+r; } cypher_ast_free(keep[i]); } return r; }
static void g16(Gen&g){ gen_trees(g); g_texts(g,1,2,false); }
static Reg r16({"P16","exploration",g16,p16,"a case is a tree built through the constructors, or the trees of a text, of which every root and every inner node is cloned; non-trivial: trees of more than one node","leaks and invalid accesses are found by the ledger and the address sanitizer",30});

// ---- P17 constructors and types ----------------------------------------------------------------
static string p17_types(){ set<unsigned> ids; for(int t=0;t<TY__COUNT;t++){ unsigned id=*type_ptr[t]; if(!ids.insert(id).second) return string("two types share an id: ")+tyinfo[t].name; const char*s=cypher_astnode_typestr(id); const char*w=tyinfo[t].str; if(w?(!s||strcmp(s,w)):(s!=nullptr&&is_concrete(t))) return fmt("type %s is named %s, expected %s",tyinfo[t].name,s?s:"nothing",w?w:"nothing"); if(is_concrete(t)!=(w!=nullptr)) return "schema and type list disagree"; tally("states"); }
  return ""; }
static string p17_node(NP n,int ty){ for(int t=0;t<TY__COUNT;t++) if((bool)cypher_astnode_instanceof(n,*type_ptr[t])!=ty_is(ty,t)) return fmt("a %s node is %san instance of %s",tyinfo[ty].name,ty_is(ty,t)?"not ":"",tyinfo[t].name); if(cypher_astnode_type(n)!=*type_ptr[ty]) return "the type of a node is not its constructor's"; return ""; }
static string p17_all(NP n){ int ty=impl_type(n); if(!is_concrete(ty)) return "a node of no concrete type"; string r=p17_node(n,ty); for(unsigned k=0;r.empty()&&k<cypher_astnode_nchildren(n);k++) r=p17_all(cypher_astnode_get_child(n,k)); return r; }
static string p17(const Case&c){ if(c.p.size()&&c.p[0]=="types") return p17_types(); string r;
  if(tree_case(c)){ int root; Seg s=case_seg(c,root); N_ n=rebuild(s,root); impl::execs++; tally("nontrivial"); if(!n) return fmt("the constructor of a %s node fails with errno %d",tyinfo[s.nodes[root].type].name,errno); Seg b; map<NP,int> seen; impl_walk(n,-1,b,seen,r); if(r.empty()) r=same(s,b); if(r.empty()) r=p17_all(n); cypher_ast_free(n);
    if(r.empty()&&s.nodes[root].type==TY_map){ // the other constructor
      vector<N_> ch; for(int k:s.nodes[root].kids) ch.push_back(rebuild(s,k)); Sig g(s.nodes[root].sig,TY_map); Parts p; for(int k:g.refs("keys")) p.n["keys"].push_back(ch[k]); for(int k:g.refs("values")) p.n["values"].push_back(ch[k]); N_ m=construct(TY_map,p,ch,torange(s.nodes[root].r),true); if(!m){ for(N_ x:ch) cypher_ast_free(x); return "a map made of pairs fails"; } Seg d; string bad=walk1(m,d); r=bad.empty()?same(s,d):bad; if(!r.empty()) r="a map made of pairs: "+r; cypher_ast_free(m); }
    // releasing the node alone leaves its children
    if(r.empty()){ vector<N_> ch; N_ m=rebuild(s,root); for(unsigned k=0;k<cypher_astnode_nchildren(m);k++) ch.push_back((N_)cypher_astnode_get_child(m,k)); vector<int> kt; for(int k:s.nodes[root].kids) kt.push_back(s.nodes[k].type); cypher_astnode_free(m); for(size_t k=0;k<ch.size()&&r.empty();k++) if(impl_type(ch[k])!=kt[k]) r="releasing a node alone damages a child"; for(N_ x:ch) cypher_ast_free(x); }
    return r; }
  cypher_parse_result_t*x=cypher_uparse(c.in.data(),c.in.size(),0,0,0); impl::execs++; if(!x) return "no result"; for(unsigned i=0;i<cypher_parse_result_nroots(x)&&r.empty();i++){ NP root=cypher_parse_result_get_root(x,i); r=p17_all(root); Seg s; if(r.empty()) r=walk1(root,s); if(!r.empty()) break; N_ n=rebuild(s,0); if(!n){ r="building a parsed tree through the constructors fails"; break; } Seg b; r=walk1(n,b); if(r.empty()) r=same(s,b); cypher_ast_free(n); if(s.nodes.size()>1) tally("nontrivial"); } cypher_parse_result_free(x); return r; }
static void g17(Gen&g){ g.begin("types","the name and id of every declared type"); g.emit("",{"types"}); gen_trees(g); g_texts(g,2,3,false); }
static Reg r17({"P17","exploration",g17,p17,"a case is a form of a node made by its constructor, or a text whose trees are rebuilt through the constructors; each node is asked for every type; non-trivial: trees of more than one node","the type hierarchy is the one documented in the header, restated in the harness",20});

// ---- P19 rendering ------------------------------------------------------------------------------
static const unsigned WIDTHS[]={0,1,12,30,45,60,80,120};
static string p19_check(const function<int(FILE*,unsigned,const struct cypher_parser_colorization*)>&f,const vector<Entry>&want,const vector<unsigned>&widths,const char*what){ string plain0; for(unsigned w:widths){ int rc; string o=render([&](FILE*s){ return f(s,w,nullptr); },&rc); impl::execs++; tally("renderings"); if(rc) return fmt("%s: rendering returns %d",what,rc); vector<Entry> v; size_t longest=0; string r=read_render(o,v,&longest); if(r.empty()) r=cmp_render(want,v); if(!r.empty()) return fmt("%s, width %u: ",what,w)+r;
    if(w>=12){ // no line is longer than asked for when there is room
      bool room=true; size_t col=0; { int rc2; string o0=render([&](FILE*s){ return f(s,0,nullptr); },&rc2); size_t p=0,idx=0; while(p<o0.size()){ size_t q=o0.find('\n',p); if(idx<want.size()){ size_t l=q-p; if(l>=want[idx].detail.size()) col=max(col,l-want[idx].detail.size()); } idx++; p=q+1; } } room=col+12<=w; if(room&&longest>w+1) return fmt("%s: a line of %zu characters at width %u",what,longest,w); }
    string oc=render([&](FILE*s){ return f(s,w,&byte_colors); },&rc); if(rc) return fmt("%s: rendering in colour returns %d",what,rc); bool ctl=false; for(auto&e:want) for(unsigned char ch:e.detail) if(ch<0x20) ctl=true; if(ctl) continue; string bad; string st=strip_colors(oc,&bad); if(!bad.empty()) return fmt("%s: ",what)+bad; if(st!=o){ return fmt("%s: colours change the text",what); } if(want.size()&&oc==o) return fmt("%s: colours are ignored",what); }
  return ""; }
namespace { struct P19{ unsigned next; string bad; const vector<unsigned>*w; vector<Entry> all; Cfg cf; }; }
static int p19_cb(void*u,cypher_parse_segment_t*s){ P19*l=(P19*)u; if(!l->bad.empty()) return 0; string bad; Seg g=impl_segment(s,bad); if(!bad.empty()){ l->bad=bad; return 0; } vector<unsigned> ord; for(size_t i=0;i<g.nodes.size();i++) ord.push_back(l->next+i); l->next+=g.nodes.size(); vector<Entry> want; expected_render(g,g.roots,ord,want); l->all.insert(l->all.end(),want.begin(),want.end()); if(g.nodes.size()>1) tally("nontrivial");
  l->bad=p19_check([&](FILE*f,unsigned w,const struct cypher_parser_colorization*c){ return cypher_parse_segment_fprint_ast(s,f,w,c,0); },want,*l->w,"segment");
  vector<N_> roots; for(size_t i=0;i<g.roots.size();i++) roots.push_back((N_)cypher_parse_segment_get_root(s,i));
  for(size_t i=0;i<roots.size()&&l->bad.empty();i++){ vector<Entry> one; expected_render(g,{g.roots[i]},ord,one); l->bad=p19_check([&](FILE*f,unsigned w,const struct cypher_parser_colorization*c){ return cypher_ast_fprint(roots[i],f,w,c,0); },one,*l->w,"node"); }
  // inner nodes
  if(g.nodes.size()<=40&&l->bad.empty()){ vector<pair<NP,int>> st; function<void(NP,int)> go=[&](NP n,int k){ st.push_back({n,k}); for(unsigned i=0;i<cypher_astnode_nchildren(n);i++) go(cypher_astnode_get_child(n,i),g.nodes[k].kids[i]); }; for(size_t i=0;i<roots.size();i++) go(roots[i],g.roots[i]); for(auto&x:st){ vector<Entry> one; expected_render(g,{x.second},ord,one); if(!(l->bad=p19_check([&](FILE*f,unsigned w,const struct cypher_parser_colorization*c){ return cypher_ast_fprint(x.first,f,w,c,0); },one,{0},"inner node")).empty()) break; } }
  return 0; }
namespace { struct Near{ unsigned next; string bad; bool all; }; }
static int near_cb(void*u,cypher_parse_segment_t*s){ Near*l=(Near*)u; if(!l->bad.empty()) return 0; Seg g=impl_segment(s,l->bad); if(!l->bad.empty()) return 0; vector<unsigned> ord; for(size_t i=0;i<g.nodes.size();i++) ord.push_back(l->next+i); l->next+=g.nodes.size(); vector<Entry> want; expected_render(g,g.roots,ord,want); bool near=l->all; for(auto&e:want) if(e.detail.size()>=1000&&e.detail.size()<=1060) near=true; if(!near) return 0; tally("nontrivial"); tally("buffer_boundary"); l->bad=p19_check([&](FILE*f,unsigned w,const struct cypher_parser_colorization*c){ return cypher_parse_segment_fprint_ast(s,f,w,c,0); },want,{0},"segment"); return 0; }
// forms whose details list many nodes, besides those of list_texts
static const char*NEAR[][4]={{"WITH DISTINCT *, ","a AS b",", "," ORDER BY a SKIP 1 LIMIT 2 WHERE x RETURN 1;"},{"RETURN DISTINCT *, ","a",", "," ORDER BY a SKIP 1 LIMIT 2;"},{"CALL f(a, b) YIELD ","a AS b",", ",";"},{"OPTIONAL MATCH (n) ","USING INDEX n:L(p) "," ","WHERE x RETURN 1;"},{"MATCH (n",":L",""," {a: 1}) RETURN 1;"},{"MATCH (",":L","",") RETURN 1;"},{"MATCH ()<-[r:A","|B",""," *1..2 {a: 1}]-() RETURN 1;"},{"MATCH ()-[:A","|B",""," *1..2]->() RETURN 1;"},{"RETURN CASE x ","WHEN a THEN b "," ","ELSE y END;"},{"FOREACH (x IN y | ","CREATE (z) "," ",");"},{"START ","n=node(*)",", "," WHERE x RETURN n;"},{"START n=rel(","1",", ",") RETURN n;"},{"MERGE (n) ON CREATE SET ","a.b=1",", "," ON MATCH SET a.c = 2;"},{"MERGE (n) ON MATCH SET ","a.b=1",", ",";"},{"CYPHER 2.0 ","a=b "," ","RETURN 1;"},{"RETURN count(DISTINCT ","a",", ",");"},{"SET ","a += {b: 1}",", ",";"},{"REMOVE ","a:L",", ",";"},{"DETACH DELETE ","a",", ",";"},{"CREATE UNIQUE ","(a)",", ",";"},{"DROP INDEX ON :L(","p",", ",");"},{"MATCH p = shortestPath((a)","-->(b)","",") RETURN 1;"},{"RETURN n{",".*",", "," };"},{"RETURN n{","a: 1",", ",", b};"},{"RETURN [(a)","-->(b)",""," WHERE x | y];"},{"USING PERIODIC COMMIT 5 ","MATCH (n) "," ","RETURN 1;"}};
static string p19(const Case&c){ vector<unsigned> W(begin(WIDTHS),end(WIDTHS)); if(c.p[0]=="B"){ Cfg cf; cf.ord=strtoul(c.p[1].c_str(),0,10); Near l{cf.ord,"",c.p.size()>2}; cypher_parser_config_t*k=impl_config(cf); int rc=cypher_uparse_each(c.in.data(),c.in.size(),near_cb,&l,0,k,0); if(rc&&l.bad.empty()) l.bad="parsing fails"; cypher_parser_config_free(k); return l.bad; } if(tree_case(c)){ int root; Seg s=case_seg(c,root); for(auto&n:s.nodes) if(is_leaf_text(n.type)) for(unsigned char ch:n.sig) if(ch==0) return ""; N_ n=rebuild(s,root); if(!n) return "the constructor fails"; vector<unsigned> z(s.nodes.size(),0); vector<Entry> want; expected_render(s,{root},z,want); tally("nontrivial"); string r=p19_check([&](FILE*f,unsigned w,const struct cypher_parser_colorization*k){ return cypher_ast_fprint(n,f,w,k,0); },want,s.nodes.size()>300?vector<unsigned>{0,60}:W,"tree"); cypher_ast_free(n); return r; }
  Cfg cf; if(c.p.size()>1) cf.ord=strtoul(c.p[1].c_str(),0,10); if(c.p.size()>2){ cf.init.off=strtoull(c.p[2].c_str(),0,10); cf.init.line=3; cf.init.col=5; } P19 l{cf.ord,"",&W,{},cf}; cypher_parser_config_t*k=impl_config(cf); int rc=cypher_uparse_each(c.in.data(),c.in.size(),p19_cb,&l,0,k,0); if(rc&&l.bad.empty()) l.bad="parsing fails"; if(l.bad.empty()){ cypher_parse_result_t*x=cypher_uparse(c.in.data(),c.in.size(),0,k,0); l.bad=p19_check([&](FILE*f,unsigned w,const struct cypher_parser_colorization*q){ return cypher_parse_result_fprint_ast(x,f,w,q,0); },l.all,W,"result"); cypher_parse_result_free(x); } cypher_parser_config_free(k); return l.bad; }
static void g19(Gen&g){ 
  g.begin("buffer boundary","every list form with the numbers of elements and the node numbers around 10^9 that put each part of the detail at each phase across the end of the 1024 character buffer"); { auto longest=[&](const string&s)->long{ struct L{ unsigned next; long m; } l{1000000000u,0}; Cfg cf; cf.ord=l.next; cypher_parser_config_t*k=impl_config(cf); cypher_uparse_each(s.data(),s.size(),[](void*u,cypher_parse_segment_t*x){ L*l=(L*)u; string bad; Seg g=impl_segment(x,bad); if(!bad.empty()) return 0; vector<unsigned> ord; for(size_t i=0;i<g.nodes.size();i++) ord.push_back(l->next+i); l->next+=g.nodes.size(); vector<Entry> want; expected_render(g,g.roots,ord,want); for(auto&e:want) l->m=max(l->m,(long)e.detail.size()); return 0; },&l,0,k,0); cypher_parser_config_free(k); return l.m; };
    auto form=[&](const function<string(int)>&f){ long a=longest(f(20)),b=longest(f(60)); if(b<=a) return; double per=(b-a)/40.0; int n0=20+(1024-a)/per; if(n0<1||n0>400) return; tally("forms"); for(int n=max(1,n0-4);n<=n0+3;n++) for(int j=0;j<g.t(40,80);j++) g.emit(f(n),{"B",fmt("%u",1000000000u-j)}); for(int j=0;j<g.t(14,80);j++) g.emit(f(n0+8),{"B",fmt("%u",1000000000u-j),"all"}); };
    vector<string> T20,T60; for(int k=0;;k++){ int seen=0; auto nth=[&](int n){ string r; int at=0; list_texts({n},[&](const string&s){ if(at++==k) r=s; }); seen=at; return r; }; nth(1); if(k>=seen) break; form(nth); }
    for(auto&f:NEAR) form([&](int n){ string s=f[0]; for(int i=0;i<n;i++){ if(i) s+=f[2]; s+=f[1]; } return s+f[3]; }); }
  gen_trees(g); g_texts(g,g.thorough?2:1,2,g.thorough); 
  g.begin("numbering","every listed text with initial node numbers and offsets around powers of ten and type limits"); texts([&](const string&s){ for(auto*o:{"8","9","98","99","996","9990","2147483600","4294967000"}) for(auto*f:{"0","9","95","999990","4294967290"}) if(g.thorough||o[0]!='9'||f[0]=='9') g.emit(s,{"P",o,f}); });
  g.begin("detail bytes","each byte value in a string, name, comment, erroneous text and command, alone, doubled and within text"); for(int b=1;b<256;b++) for(auto&v:{string(1,b),string(2,b),"ab"+string(1,b)+"cd","abcdefghijklmnopq"+string(3,b)}) for(auto*t:{"RETURN '%' AS x;","RETURN `%`;","/*%*/RETURN 1;","RETURN 1; //%\nRETURN 2;","RETURN 1 ! %;",":%;",":a '%'\n"}){ string x=t; x.replace(x.find('%'),1,v); g.emit(x,{"P"}); }
  g.begin("long details","values, lists and names of 900 to 5000 characters and of every length at which a detail crosses the 1024 character buffer"); for(int n=1000;n<1032;n++){ g.emit("RETURN '"+string(n,'q')+"';",{"P"}); g.emit("RETURN `"+string(n,'q')+"`;",{"P"}); g.emit("RETURN 1;//"+string(n,'q'),{"P"}); g.emit("RETURN 1;!"+string(n,'q'),{"P"}); } for(int n:{100,190,200,201,202,203,204,205,206,210,250,300,400,1000}) for(int k=0;k<6;k++){ string e; for(int i=0;i<n;i++){ if(i) e+=","; e+= k==3?"a:1":k==5?".a":"1"; } string t= k==0?"["+e+"]":k==1?"f("+e+")":k==2?"x IN ["+e+"]":k==3?"{"+e+"}":k==4?"count(DISTINCT "+e+")":"a{"+e+"}"; g.emit("RETURN "+t+";",{"P"}); } for(int n=190;n<g.t(215,260);n++){ string c,l,m,p,s; for(int i=0;i<n;i++){ c+="(a),"; l+=":L"; m+=" WHEN a THEN b"; p+="()--"; s+=" a < b <"; } g.emit("CREATE "+c+"(b);",{"P"}); g.emit("MATCH (n"+l+") RETURN 1;",{"P"}); g.emit("RETURN CASE"+m+" END;",{"P"}); g.emit("MATCH "+p+"() RETURN 1;",{"P"}); g.emit("RETURN"+s+" c;",{"P"}); g.emit("SET a"+l+";",{"P"}); } }
// node numbers of the segments and the result of a text parsed from a position and number (for P20)
namespace { struct Nums{ unsigned next; string bad; vector<Entry> all; }; }
static int nums_cb(void*u,cypher_parse_segment_t*s){ Nums*l=(Nums*)u; if(!l->bad.empty()) return 0; Seg g=impl_segment(s,l->bad); if(!l->bad.empty()) return 0; vector<unsigned> ord; for(size_t i=0;i<g.nodes.size();i++) ord.push_back(l->next+i); l->next+=g.nodes.size(); vector<Entry> want; expected_render(g,g.roots,ord,want); l->all.insert(l->all.end(),want.begin(),want.end()); if(g.roots.size()) l->bad=p19_check([&](FILE*f,unsigned w,const struct cypher_parser_colorization*c){ return cypher_parse_segment_fprint_ast(s,f,w,c,0); },want,{0},"segment"); return 0; }
string numbers(const string&in,int flags,const Cfg&cf){ cypher_parser_config_t*k=impl_config(cf); int fl=(flags&FL_SINGLE?CYPHER_PARSE_SINGLE:0)|(flags&FL_STMT?CYPHER_PARSE_ONLY_STATEMENTS:0); Nums l{cf.ord,"",{}}; int rc=cypher_uparse_each(in.data(),in.size(),nums_cb,&l,0,k,fl); if(rc&&l.bad.empty()) l.bad="parsing fails"; 
  if(l.bad.empty()){ Nums m{cf.ord,"",{}}; FILE*f=chunked_file(in,{7}); rc=cypher_fparse_each(f,nums_cb,&m,0,k,fl); fclose(f); if(rc&&m.bad.empty()) m.bad="parsing fails"; if(!m.bad.empty()) l.bad="from a stream: "+m.bad; }
  if(l.bad.empty()){ cypher_parse_result_t*x=cypher_uparse(in.data(),in.size(),0,k,fl); if(!x) l.bad="parsing fails"; else { l.bad=p19_check([&](FILE*f,unsigned w,const struct cypher_parser_colorization*q){ return cypher_parse_result_fprint_ast(x,f,w,q,0); },l.all,{0},"result"); cypher_parse_result_free(x); } }
  cypher_parser_config_free(k); impl::execs+=3; return l.bad; }
static Reg r19({"P19","exploration",g19,p19,"a case is a tree or a text rendered as result, segments, node lists, roots and inner nodes at eight widths with and without colours, and read back; non-trivial: trees of more than one node","the detail of each type is restated in the harness from its operands; the cut-short word \"action\" in MERGE details is pinned by the existing tests and accepted; query details do not list the query's options",40});

// ---- P18 annotations ------------------------------------------------------------------------------
// Trees: A = unary(B = identifier), C = identifier.  Contexts X, Y.
namespace { const char*VAL[]={"u","v"}; struct Ev{ int ctx; int node; const char*val; bool operator==(const Ev&o)const{ return ctx==o.ctx&&node==o.node&&val==o.val; } bool operator<(const Ev&o)const{ return tie(ctx,node,val)<tie(o.ctx,o.node,o.val); } };
struct World { N_ a=0,b=0,c=0; cypher_ast_annotation_context_t*ctx[2]={0,0}; bool handler[2]={false,false}; vector<Ev> log; string bad; static World*cur; 
  // the model: value per (context,node)
  const char*m[2][3]={{0,0,0},{0,0,0}}; bool tree_alive[2]={true,true}; bool a_gone=false; bool ctx_alive[2]={true,true};
  N_ node(int i){ return i==0?a:i==1?b:c; } bool alive(int i)const{ return tree_alive[i==2]&&!(i==0&&a_gone); } int idx(NP n){ return n==a&&!a_gone?0:n==b?1:n==c?2:-1; } };
World*World::cur; }
static void on_rel(void*u,NP n,void*v){ World*w=World::cur; int ctx=(int)(intptr_t)u-1; int i=w->idx(n); w->log.push_back({ctx,i,(const char*)v}); if(i>=0){ int ty=impl_type(n); if(ty!=(i==0?TY_unary_operator:TY_identifier)&&w->bad.empty()) w->bad="the handler gets a damaged node"; } }
enum { NOPS=12+6+2+2+4+1 };
static string op_name(int o){ if(o<12) return fmt("attach(%c,%c,%s)",'X'+o/6,'A'+(o/2)%3,VAL[o%2]); o-=12; if(o<6) return fmt("remove(%c,%c)",'X'+o/3,'A'+o%3); o-=6; if(o<2) return fmt("free context %c",'X'+o); o-=2; if(o<2) return o?"free C":"free A"; o-=2; if(o==4) return "free A alone"; return fmt("handler %s of %c",o%2?"on":"off",'X'+o/2); }
static bool enabled(const World&w,int o){ if(o<12) return w.ctx_alive[o/6]&&w.alive((o/2)%3); o-=12; if(o<6) return w.ctx_alive[o/3]&&w.alive(o%3); o-=6; if(o<2) return w.ctx_alive[o]; o-=2; if(o<2) return w.tree_alive[o]; o-=2; if(o==4) return w.alive(0); return w.ctx_alive[o/2]&&w.handler[o/2]!=(bool)(o%2); }
static string apply(World&w,int o,int step){ World::cur=&w; vector<Ev> want; size_t was=w.log.size(); string r; int op=o;
  if(o<12){ int c=o/6,n=(o/2)%3; void*prev=(void*)1; bool ask=(step+o)%3!=0; int rc=cypher_astnode_attach_annotation(w.ctx[c],w.node(n),(void*)VAL[o%2],ask?&prev:nullptr); if(rc) r=fmt("attaching returns %d",rc); else if(ask&&prev!=(void*)w.m[c][n]) r="attaching does not give the value replaced"; w.m[c][n]=VAL[o%2]; }
  else if((o-=12)<6){ int c=o/3,n=o%3; void*v=cypher_astnode_remove_annotation(w.ctx[c],w.node(n)); if(v!=(void*)w.m[c][n]) r="removing does not give the value attached"; w.m[c][n]=0; }
  else if((o-=6)<2){ for(int n=0;n<3;n++) if(w.m[o][n]){ if(w.handler[o]) want.push_back({o,n,w.m[o][n]}); w.m[o][n]=0; } cypher_ast_annotation_context_free(w.ctx[o]); w.ctx[o]=0; w.ctx_alive[o]=false; }
  else if((o-=2)<2){ for(int c=0;c<2;c++) for(int n=0;n<3;n++) if((n==2)==(o==1)&&w.m[c][n]){ if(w.handler[c]) want.push_back({c,n,w.m[c][n]}); w.m[c][n]=0; } w.tree_alive[o]=false; cypher_ast_free(o?w.c:w.a_gone?w.b:w.a); }
  else if(o-2==4){ for(int c=0;c<2;c++) if(w.m[c][0]){ if(w.handler[c]) want.push_back({c,0,w.m[c][0]}); w.m[c][0]=0; } cypher_astnode_free(w.a); w.a_gone=true; }
  else { o-=2; bool on=o%2; cypher_ast_annotation_context_set_release_handler(w.ctx[o/2],on?on_rel:nullptr,(void*)(intptr_t)(o/2+1)); w.handler[o/2]=on; }
  tally("transitions"); if(r.empty()) r=w.bad; if(r.empty()){ vector<Ev> got(w.log.begin()+was,w.log.end()); sort(got.begin(),got.end()); sort(want.begin(),want.end()); if(got!=want) r=fmt("the release handler is called %zu times with other values or nodes than the %zu expected calls",got.size(),want.size()); }
  for(int c=0;c<2&&r.empty();c++) if(w.ctx_alive[c]) for(int n=0;n<3&&r.empty();n++) if(w.alive(n)){ void*v=cypher_astnode_get_annotation(w.ctx[c],w.node(n)); if(v!=(void*)w.m[c][n]) r=fmt("annotation of %c in %c is %s, expected %s",'A'+n,'X'+c,v?(v==VAL[0]||v==VAL[1]?(const char*)v:"something else"):"none",w.m[c][n]?w.m[c][n]:"none"); }
  if(!r.empty()) r="after "+op_name(op)+": "+r; return r; }
static void setup(World&w){ struct cypher_input_range z={{1,1,0},{1,1,0}}; w.b=cypher_ast_identifier("b",1,z); N_ ch[1]={w.b}; w.a=cypher_ast_unary_operator(CYPHER_OP_NOT,w.b,ch,1,z); w.c=cypher_ast_identifier("c",1,z); for(int i=0;i<2;i++){ w.ctx[i]=cypher_ast_annotation_context(); cypher_ast_annotation_context_set_release_handler(w.ctx[i],on_rel,(void*)(intptr_t)(i+1)); w.handler[i]=true; } }
static string teardown(World&w){ string r; for(int i=0;i<2;i++) if(w.tree_alive[i]){ string q=apply(w,20+i,0); if(r.empty()) r=q; } for(int i=0;i<2;i++) if(w.ctx_alive[i]){ string q=apply(w,18+i,0); if(r.empty()) r=q; } return r; }
static string run_seq(const vector<int>&ops,vector<int>*next=nullptr){ World w; setup(w); string r; for(size_t i=0;i<ops.size()&&r.empty();i++) r=apply(w,ops[i],i); if(next&&r.empty()) for(int o=0;o<NOPS;o++) if(enabled(w,o)) next->push_back(o); if(r.empty()) r=teardown(w); else teardown(w); impl::execs++; return r; }
// any number of contexts and of separate nodes; each attached value is a new one
namespace { struct Grid { int nc,nn; vector<N_> node; vector<cypher_ast_annotation_context_t*> ctx; map<pair<int,int>,intptr_t> m; vector<tuple<int,NP,intptr_t>> log; intptr_t seq=0; static Grid*cur; }; Grid*Grid::cur; }
static void grid_rel(void*u,NP n,void*v){ Grid::cur->log.push_back({(int)(intptr_t)u-1,n,(intptr_t)v}); }
static int grid_nops(int nc,int nn){ return 2*nc*nn+nc+nn; }
static string grid_name(int nc,int nn,int o){ if(o<nc*nn) return fmt("attach(%d,%d)",o/nn,o%nn); o-=nc*nn; if(o<nc*nn) return fmt("remove(%d,%d)",o/nn,o%nn); o-=nc*nn; return o<nc?fmt("free context %d",o):fmt("free node %d",o-nc); }
static bool grid_ok(const Grid&g,int o){ int k=g.nc*g.nn; if(o<2*k){ o%=k; return g.ctx[o/g.nn]&&g.node[o%g.nn]; } o-=2*k; return o<g.nc?g.ctx[o]!=0:g.node[o-g.nc]!=0; }
static string grid_do(Grid&g,int o){ Grid::cur=&g; vector<tuple<int,NP,intptr_t>> want; g.log.clear(); string r; int op=o,k=g.nc*g.nn; 
  if(o<k){ int c=o/g.nn,n=o%g.nn; void*prev=(void*)1; intptr_t v=++g.seq*16; int rc=cypher_astnode_attach_annotation(g.ctx[c],g.node[n],(void*)v,&prev); auto it=g.m.find({c,n}); if(rc) r=fmt("attaching returns %d",rc); else if((intptr_t)prev!=(it==g.m.end()?0:it->second)) r="attaching does not give the value replaced"; g.m[{c,n}]=v; }
  else if((o-=k)<k){ int c=o/g.nn,n=o%g.nn; void*v=cypher_astnode_remove_annotation(g.ctx[c],g.node[n]); auto it=g.m.find({c,n}); if((intptr_t)v!=(it==g.m.end()?0:it->second)) r="removing does not give the value attached"; g.m.erase({c,n}); }
  else { o-=k; bool isctx=o<g.nc; int i=isctx?o:o-g.nc; for(auto it=g.m.begin();it!=g.m.end();) if((isctx?it->first.first:it->first.second)==i){ want.push_back({it->first.first,g.node[it->first.second],it->second}); it=g.m.erase(it); } else ++it; if(isctx){ cypher_ast_annotation_context_free(g.ctx[i]); g.ctx[i]=0; } else { if((i+g.nc)%2) cypher_astnode_free(g.node[i]); else cypher_ast_free(g.node[i]); g.node[i]=0; } }
  tally("transitions"); sort(want.begin(),want.end()); sort(g.log.begin(),g.log.end()); if(r.empty()&&want!=g.log) r=fmt("the release handler is called %zu times with other values or nodes than the %zu expected calls",g.log.size(),want.size());
  for(int c=0;c<g.nc&&r.empty();c++) for(int n=0;n<g.nn;n++) if(g.ctx[c]&&g.node[n]){ auto it=g.m.find({c,n}); if((intptr_t)cypher_astnode_get_annotation(g.ctx[c],g.node[n])!=(it==g.m.end()?0:it->second)){ r=fmt("the annotation of node %d in context %d is not the value attached",n,c); break; } }
  return r.empty()?"":"after "+grid_name(g.nc,g.nn,op)+": "+r; }
static string grid_run(int nc,int nn,const vector<int>&ops,vector<int>*next){ Grid g; g.nc=nc; g.nn=nn; struct cypher_input_range z={{1,1,0},{1,1,0}}; for(int i=0;i<nn;i++) g.node.push_back(cypher_ast_identifier("b",1,z)); for(int i=0;i<nc;i++){ g.ctx.push_back(cypher_ast_annotation_context()); cypher_ast_annotation_context_set_release_handler(g.ctx[i],grid_rel,(void*)(intptr_t)(i+1)); } string r; for(int o:ops) if(grid_ok(g,o)&&r.empty()) r=grid_do(g,o); if(next) for(int o=0;o<grid_nops(nc,nn);o++) if(grid_ok(g,o)) next->push_back(o); 
  // release what is left: nodes and contexts in an order that depends on the sequence
  bool first=ops.size()&&ops.back()%2; for(int pass=0;pass<2;pass++) for(int i=0;i<((pass==0)==first?nc:nn);i++){ int o=2*nc*nn+((pass==0)==first?i:nc+i); if(grid_ok(g,o)){ string q=grid_do(g,o); if(r.empty()) r=q; } } impl::execs++; return r; }
static string grid_case(const Case&c){ int nc=atoi(c.p[1].c_str()),nn=atoi(c.p[2].c_str()),depth=atoi(c.p[4].c_str()); vector<int> pre; for(size_t i=0;i+1<c.p[3].size();i+=2) pre.push_back((c.p[3][i]-'a')*26+c.p[3][i+1]-'a'); string bad; function<void(vector<int>&,int)> go=[&](vector<int>&s,int d){ if(!bad.empty()) return; vector<int> nx; string r=grid_run(nc,nn,s,&nx); tally("states"); if(!r.empty()){ string o; for(int k:s) o+=grid_name(nc,nn,k)+" "; bad=fmt("%d contexts, %d nodes, sequence ",nc,nn)+o+": "+r; return; } if(d==0) return; for(int o:nx){ s.push_back(o); go(s,d-1); s.pop_back(); } }; go(pre,depth); tally("nontrivial"); return bad; }
static string p18(const Case&c){ if(c.p.size()==5) return grid_case(c); // p: prefix, depth of the exhaustive continuation
  vector<int> pre; for(size_t i=0;i+1<c.p[0].size();i+=2) pre.push_back((c.p[0][i]-'a')*26+c.p[0][i+1]-'a'); int depth=atoi(c.p[1].c_str()); string bad;
  function<void(vector<int>&,int)> go=[&](vector<int>&s,int d){ if(!bad.empty()) return; vector<int> nx; string r=run_seq(s,&nx); tally("states"); if(!r.empty()){ string o; for(int k:s) o+=op_name(k)+" "; bad="sequence "+o+": "+r; return; } if(d==0) return; for(int o:nx){ s.push_back(o); go(s,d-1); s.pop_back(); } }; go(pre,depth); tally("nontrivial"); return bad; }
static void g18(Gen&g){ int d=g.t(4,5); g.begin("sequences",fmt("every sequence of up to %d operations (attaching either of two values, removing, releasing a context, a tree or a node alone, changing handlers) on two contexts and three nodes in two trees, followed by the release of everything; all annotations are read after each operation",d+1)); auto enc=[](const vector<int>&v){ string s; for(int o:v){ s+=char('a'+o/26); s+=char('a'+o%26); } return s; };
  for(int a=0;a<NOPS;a++) for(int b=0;b<NOPS;b++){ World w; (void)w; vector<int> v={a,b}; // reachability is decided by the run itself
      // skip prefixes whose second operation is not enabled after the first
      World m; m.handler[0]=m.handler[1]=true; if(!enabled(m,a)) continue; if(a>=18&&a<20) m.ctx_alive[a-18]=false; else if(a>=20&&a<22) m.tree_alive[a-20]=false; else if(a==26) m.a_gone=true; else if(a>=22) m.handler[(a-22)/2]=(a-22)%2; if(!enabled(m,b)) continue; g.emit("",{enc(v),to_string(d-1)}); }
  g.emit("",{"","0"});
  g.begin("grids","other numbers of contexts and nodes: every sequence of operations up to a depth (3x1, 1x3: 6; 4x1, 1x4, 2x2: 5; 3x2, 2x3: 4; thorough one more), and every sequence of 3 (4) after attaching all of 3x1, 4x1, 5x1, 1x5, 3x2, 3x3 in rotations of two orders"); { struct{int c,n,d;} GR[]={{3,1,6},{1,3,6},{4,1,5},{1,4,5},{2,2,5},{3,2,4},{2,3,4}}; for(auto&q:GR){ int N=grid_nops(q.c,q.n); for(int a=0;a<N;a++) for(int b=0;b<N;b++) g.emit("",{"W",to_string(q.c),to_string(q.n),enc({a,b}),to_string(q.d-2+(g.thorough?1:0))}); } struct{int c,n;} AT[]={{3,1},{4,1},{5,1},{1,5},{3,2},{3,3}}; for(auto&q:AT){ int k=q.c*q.n; for(int rot=0;rot<k;rot++) for(int rev=0;rev<2;rev++){ vector<int> v; for(int i=0;i<k;i++){ int x=(i+rot)%k; v.push_back(rev?(x%q.c)*q.n+x/q.c:x); } g.emit("",{"W",to_string(q.c),to_string(q.n),enc(v),to_string(g.t(k>6?2:3,k>6?3:4))}); } } }
  g.begin("attached sequences",fmt("the same from states in which all six annotations are present in one of 24 orders: every sequence of %d operations",g.t(2,3))); vector<int> perm={0,1,2,3,4,5}; int k=0; do { if(k++%30==0){ vector<int> v; for(int x:perm) v.push_back(x*2); g.emit("",{enc(v),g.thorough?"3":"2"}); } } while(next_permutation(perm.begin(),perm.end())); }
static Reg r18({"P18","model_checking",g18,p18,"a case is a prefix of two operations and all its continuations up to the bound; states are sequences executed, transitions operations; non-trivial: all","the model is a map from (context,node) to the value; the header leaves replaced and removed values to the caller",100});
