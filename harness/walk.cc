#include "walk.h"
#include "alloc.h"
#include <cerrno>
using namespace std;
typedef const cypher_astnode_t*NP; 
const cypher_astnode_type_t*const type_ptr[TY__COUNT]={
#define T(l,u,s,p) &CYPHER_AST_##u,
#include "types.def"
#undef T
};
int impl_type(NP n){ static int tab[256]; static bool init=false; if(!init){ for(int i=0;i<256;i++) tab[i]=TY__UNKNOWN; for(int i=0;i<TY__COUNT;i++) tab[*type_ptr[i]]=i; init=true; } return tab[cypher_astnode_type(n)]; }
const char*impl_opname(const cypher_operator_t*op){
#define O(x) if(op==CYPHER_OP_##x) return #x;
  O(OR)O(XOR)O(AND)O(NOT)O(EQUAL)O(NEQUAL)O(LT)O(GT)O(LTE)O(GTE)O(PLUS)O(MINUS)O(MULT)O(DIV)O(MOD)O(POW)O(UNARY_PLUS)O(UNARY_MINUS)O(SUBSCRIPT)O(MAP_PROJECTION)O(REGEX)O(IN)O(STARTS_WITH)O(ENDS_WITH)O(CONTAINS)O(IS_NULL)O(IS_NOT_NULL)O(PROPERTY)O(LABEL)
#undef O
  return "?"; }
namespace { struct W { const vector<NP>&kids; string&bad; string o; int ty;
  void k(const char*f){ if(!o.empty()) o+=' '; o+=f; o+='='; }
  string ref(NP n){ if(!n) return "-"; for(size_t i=0;i<kids.size();i++) if(kids[i]==n) return "@"+to_string(i); if(bad.empty()) bad=string("an accessor of a ")+tyinfo[ty].name+" node gives a node that is not its child"; return "!"; }
  void b(const char*f,bool v){ k(f); o+=v?"true":"false"; }
  void s(const char*f,const char*v){ k(f); if(v){ o+='"'; o+=v; o+='"'; } else o+="(null)"; }
  void n(const char*f,NP v){ k(f); o+=ref(v); }
  template<class C,class G> void l(const char*f,C c,G g){ k(f); o+='['; unsigned m=c(); for(unsigned i=0;i<m;i++){ if(i) o+=','; NP x=g(i); if(!x&&bad.empty()) bad=string("a list accessor of a ")+tyinfo[ty].name+" node gives nothing within its count"; o+=ref(x);} o+=']'; for(unsigned e:{m,m+1,m+100}) if(g(e)&&bad.empty()) bad=string("a list accessor of a ")+tyinfo[ty].name+" node gives a node beyond its count"; }
}; }
string impl_sig(NP x,int ty,const vector<NP>&kids,string&bad){
  W w{kids,bad,"",ty};
#define B(f,a) w.b(f,cypher_ast_##a(x));
#define S(f,a) w.s(f,cypher_ast_##a(x));
#define N(f,a) w.n(f,cypher_ast_##a(x));
#define L(f,c,g) w.l(f,[&]{return cypher_ast_##c(x);},[&](unsigned i){return cypher_ast_##g(x,i);});
  switch(ty){
  case TY_statement: L("options",statement_noptions,statement_get_option) N("body",statement_get_body) break;
  case TY_cypher_option: N("version",cypher_option_get_version) L("params",cypher_option_nparams,cypher_option_get_param) break;
  case TY_cypher_option_param: N("name",cypher_option_param_get_name) N("value",cypher_option_param_get_value) break;
  case TY_create_node_props_index: N("label",create_node_props_index_get_label) L("props",create_node_props_index_nprops,create_node_props_index_get_prop_name) break;
  case TY_drop_node_props_index: N("label",drop_node_props_index_get_label) L("props",drop_node_props_index_nprops,drop_node_props_index_get_prop_name) break;
#define CON(t,z,l) case TY_##t: N("identifier",t##_get_identifier) N(l,t##_get_##z) N("expression",t##_get_expression) B("unique",t##_is_unique) break;
  CON(create_node_prop_constraint,label,"label") CON(drop_node_prop_constraint,label,"label") CON(create_rel_prop_constraint,reltype,"reltype") CON(drop_rel_prop_constraint,reltype,"reltype")
  case TY_query: L("options",query_noptions,query_get_option) L("clauses",query_nclauses,query_get_clause) break;
  case TY_using_periodic_commit: N("limit",using_periodic_commit_get_limit) break;
  case TY_load_csv: B("with_headers",load_csv_has_with_headers) N("url",load_csv_get_url) N("identifier",load_csv_get_identifier) N("terminator",load_csv_get_field_terminator) break;
  case TY_start: L("points",start_npoints,start_get_point) N("predicate",start_get_predicate) break;
#define IDX(p) case TY_##p##_index_lookup: N("identifier",p##_index_lookup_get_identifier) N("index",p##_index_lookup_get_index_name) N("prop",p##_index_lookup_get_prop_name) N("lookup",p##_index_lookup_get_lookup) break; \
  case TY_##p##_index_query: N("identifier",p##_index_query_get_identifier) N("index",p##_index_query_get_index_name) N("query",p##_index_query_get_query) break; \
  case TY_##p##_id_lookup: N("identifier",p##_id_lookup_get_identifier) L("ids",p##_id_lookup_nids,p##_id_lookup_get_id) break; \
  case TY_all_##p##s_scan: N("identifier",all_##p##s_scan_get_identifier) break;
  IDX(node) IDX(rel)
  case TY_match: B("optional",match_is_optional) N("pattern",match_get_pattern) L("hints",match_nhints,match_get_hint) N("predicate",match_get_predicate) break;
  case TY_using_index: N("identifier",using_index_get_identifier) N("label",using_index_get_label) N("prop",using_index_get_prop_name) break;
  case TY_using_join: L("identifiers",using_join_nidentifiers,using_join_get_identifier) break;
  case TY_using_scan: N("identifier",using_scan_get_identifier) N("label",using_scan_get_label) break;
  case TY_merge: N("path",merge_get_pattern_path) L("actions",merge_nactions,merge_get_action) break;
  case TY_on_match: L("items",on_match_nitems,on_match_get_item) break;
  case TY_on_create: L("items",on_create_nitems,on_create_get_item) break;
  case TY_create: B("unique",create_is_unique) N("pattern",create_get_pattern) break;
  case TY_set: L("items",set_nitems,set_get_item) break;
  case TY_set_property: N("property",set_property_get_property) N("expression",set_property_get_expression) break;
  case TY_set_all_properties: N("identifier",set_all_properties_get_identifier) N("expression",set_all_properties_get_expression) break;
  case TY_merge_properties: N("identifier",merge_properties_get_identifier) N("expression",merge_properties_get_expression) break;
  case TY_set_labels: N("identifier",set_labels_get_identifier) L("labels",set_labels_nlabels,set_labels_get_label) break;
  case TY_delete: B("detach",delete_has_detach) L("expressions",delete_nexpressions,delete_get_expression) break;
  case TY_remove: L("items",remove_nitems,remove_get_item) break;
  case TY_remove_labels: N("identifier",remove_labels_get_identifier) L("labels",remove_labels_nlabels,remove_labels_get_label) break;
  case TY_remove_property: N("property",remove_property_get_property) break;
  case TY_foreach: N("identifier",foreach_get_identifier) N("expression",foreach_get_expression) L("clauses",foreach_nclauses,foreach_get_clause) break;
  case TY_with: B("distinct",with_is_distinct) B("include",with_has_include_existing) L("projections",with_nprojections,with_get_projection) N("order",with_get_order_by) N("skip",with_get_skip) N("limit",with_get_limit) N("predicate",with_get_predicate) break;
  case TY_return: B("distinct",return_is_distinct) B("include",return_has_include_existing) L("projections",return_nprojections,return_get_projection) N("order",return_get_order_by) N("skip",return_get_skip) N("limit",return_get_limit) break;
  case TY_unwind: N("expression",unwind_get_expression) N("alias",unwind_get_alias) break;
  case TY_call: N("proc",call_get_proc_name) L("arguments",call_narguments,call_get_argument) L("projections",call_nprojections,call_get_projection) N("predicate",call_get_predicate) break;
  case TY_projection: N("expression",projection_get_expression) N("alias",projection_get_alias) break;
  case TY_order_by: L("items",order_by_nitems,order_by_get_item) break;
  case TY_sort_item: N("expression",sort_item_get_expression) B("ascending",sort_item_is_ascending) break;
  case TY_union: B("all",union_has_all) break;
  case TY_unary_operator: w.k("op"); w.o+=impl_opname(cypher_ast_unary_operator_get_operator(x)); N("argument",unary_operator_get_argument) break;
  case TY_binary_operator: w.k("op"); w.o+=impl_opname(cypher_ast_binary_operator_get_operator(x)); N("argument1",binary_operator_get_argument1) N("argument2",binary_operator_get_argument2) break;
  case TY_comparison: { unsigned m=cypher_ast_comparison_get_length(x); w.k("ops"); w.o+='['; for(unsigned i=0;i<m;i++){ if(i) w.o+=','; w.o+=impl_opname(cypher_ast_comparison_get_operator(x,i)); } w.o+=']'; if(cypher_ast_comparison_get_operator(x,m)&&bad.empty()) bad="comparison gives an operator beyond its length"; w.l("arguments",[&]{return m+1;},[&](unsigned i){return cypher_ast_comparison_get_argument(x,i);}); break; }
  case TY_apply_operator: N("func",apply_operator_get_func_name) B("distinct",apply_operator_get_distinct) L("arguments",apply_operator_narguments,apply_operator_get_argument) break;
  case TY_apply_all_operator: N("func",apply_all_operator_get_func_name) B("distinct",apply_all_operator_get_distinct) break;
  case TY_property_operator: N("expression",property_operator_get_expression) N("prop",property_operator_get_prop_name) break;
  case TY_subscript_operator: N("expression",subscript_operator_get_expression) N("subscript",subscript_operator_get_subscript) break;
  case TY_slice_operator: N("expression",slice_operator_get_expression) N("start",slice_operator_get_start) N("end",slice_operator_get_end) break;
  case TY_map_projection: N("expression",map_projection_get_expression) L("selectors",map_projection_nselectors,map_projection_get_selector) break;
  case TY_map_projection_literal: N("prop",map_projection_literal_get_prop_name) N("expression",map_projection_literal_get_expression) break;
  case TY_map_projection_property: N("prop",map_projection_property_get_prop_name) break;
  case TY_map_projection_identifier: N("identifier",map_projection_identifier_get_identifier) break;
  case TY_labels_operator: N("expression",labels_operator_get_expression) L("labels",labels_operator_nlabels,labels_operator_get_label) break;
  case TY_list_comprehension: case TY_filter: case TY_extract: case TY_all: case TY_any: case TY_single: case TY_none:
    N("identifier",list_comprehension_get_identifier) N("expression",list_comprehension_get_expression) N("predicate",list_comprehension_get_predicate) N("eval",list_comprehension_get_eval)
    break;
  case TY_pattern_comprehension: N("identifier",pattern_comprehension_get_identifier) N("pattern",pattern_comprehension_get_pattern) N("predicate",pattern_comprehension_get_predicate) N("eval",pattern_comprehension_get_eval) break;
  case TY_reduce: N("accumulator",reduce_get_accumulator) N("init",reduce_get_init) N("identifier",reduce_get_identifier) N("expression",reduce_get_expression) N("eval",reduce_get_eval) break;
  case TY_case: N("expression",case_get_expression) L("predicates",case_nalternatives,case_get_predicate) L("values",case_nalternatives,case_get_value) N("default",case_get_default) break;
  case TY_collection: L("elements",collection_length,collection_get) break;
  case TY_map: L("keys",map_nentries,map_get_key) L("values",map_nentries,map_get_value) break;
  case TY_identifier: S("name",identifier_get_name) break;
  case TY_parameter: S("name",parameter_get_name) break;
  case TY_string: S("value",string_get_value) break;
  case TY_integer: S("value",integer_get_valuestr) break;
  case TY_float: S("value",float_get_valuestr) break;
  case TY_label: S("name",label_get_name) break;
  case TY_reltype: S("name",reltype_get_name) break;
  case TY_prop_name: S("value",prop_name_get_value) break;
  case TY_function_name: S("value",function_name_get_value) break;
  case TY_index_name: S("value",index_name_get_value) break;
  case TY_proc_name: S("value",proc_name_get_value) break;
  case TY_pattern: L("paths",pattern_npaths,pattern_get_path) break;
  case TY_named_path: N("identifier",named_path_get_identifier) N("path",named_path_get_path)
    { NP p=cypher_ast_named_path_get_path(x); unsigned m=cypher_ast_pattern_path_nelements(x); if(p){ if(m!=cypher_ast_pattern_path_nelements(p)&&bad.empty()) bad="named path gives another number of elements than its path"; for(unsigned i=0;i<=m;i++) if(cypher_ast_pattern_path_get_element(x,i)!=cypher_ast_pattern_path_get_element(p,i)&&bad.empty()) bad="named path gives other elements than its path"; } } break;
  case TY_shortest_path: B("single",shortest_path_is_single) N("path",shortest_path_get_path)
    { NP p=cypher_ast_shortest_path_get_path(x); unsigned m=cypher_ast_pattern_path_nelements(x); if(p){ if(m!=cypher_ast_pattern_path_nelements(p)&&bad.empty()) bad="shortest path gives another number of elements than its path"; for(unsigned i=0;i<=m;i++) if(cypher_ast_pattern_path_get_element(x,i)!=cypher_ast_pattern_path_get_element(p,i)&&bad.empty()) bad="shortest path gives other elements than its path"; } } break;
  case TY_pattern_path: L("elements",pattern_path_nelements,pattern_path_get_element) break;
  case TY_node_pattern: N("identifier",node_pattern_get_identifier) L("labels",node_pattern_nlabels,node_pattern_get_label) N("properties",node_pattern_get_properties) break;
  case TY_rel_pattern: { w.k("direction"); int d=cypher_ast_rel_pattern_get_direction(x); w.o+= d==CYPHER_REL_INBOUND?"INBOUND":d==CYPHER_REL_OUTBOUND?"OUTBOUND":d==CYPHER_REL_BIDIRECTIONAL?"BIDIRECTIONAL":"?"; N("identifier",rel_pattern_get_identifier) L("reltypes",rel_pattern_nreltypes,rel_pattern_get_reltype) N("varlength",rel_pattern_get_varlength) N("properties",rel_pattern_get_properties) break; }
  case TY_range: N("start",range_get_start) N("end",range_get_end) break;
  case TY_command: N("name",command_get_name) L("arguments",command_narguments,command_get_argument) break;
  case TY_line_comment: S("value",line_comment_get_value) break;
  case TY_block_comment: S("value",block_comment_get_value) break;
  case TY_error: S("value",error_get_value) break;
  default: break; }
  return w.o;
}
Pos topos(const struct cypher_input_position&p){ return Pos{p.line,p.column,p.offset}; }
int impl_walk(NP n,int parent,Seg&s,map<NP,int>&seen,string&bad){
  int my=s.nodes.size(); s.nodes.push_back(TNode());
  if(!seen.insert({n,my}).second&&bad.empty()) bad="a node occurs twice in the tree";
  int ty=impl_type(n); vector<NP> kids; unsigned m=cypher_astnode_nchildren(n);
  for(unsigned i=0;i<m;i++){ NP c=cypher_astnode_get_child(n,i); if(!c){ if(bad.empty()) bad="missing child within the count"; continue; } kids.push_back(c); }
  for(unsigned e:{m,m+1,m+1000}) if(cypher_astnode_get_child(n,e)&&bad.empty()) bad="a child beyond the count";
  struct cypher_input_range r=cypher_astnode_range(n);
  { TNode&t=s.nodes[my]; t.type=ty; t.parent=parent; t.r.s=topos(r.start); t.r.e=topos(r.end); }
  if(ty==TY__UNKNOWN&&bad.empty()) bad="node of unknown type";
  string sig= ty==TY__UNKNOWN?"":impl_sig(n,ty,kids,bad); s.nodes[my].sig=sig;
  for(NP c:kids){ int k=impl_walk(c,my,s,seen,bad); s.nodes[my].kids.push_back(k); }
  return my; }
static Err toerr(const cypher_parse_error_t*e){ Err x; x.pos=topos(cypher_parse_error_position(e)); const char*m=cypher_parse_error_message(e); x.msg=m?m:"(null)"; const char*c=cypher_parse_error_context(e); x.ctx=c?c:"(null)"; x.ctxoff=cypher_parse_error_context_offset(e); return x; }
Seg impl_segment(const cypher_parse_segment_t*seg,string&bad){
  Seg s; struct cypher_input_range r=cypher_parse_segment_get_range(seg); s.r.s=topos(r.start); s.r.e=topos(r.end); s.eof=cypher_parse_segment_is_eof(seg); s.nnodes=cypher_parse_segment_nnodes(seg);
  map<NP,int> seen; unsigned n=cypher_parse_segment_nroots(seg); for(unsigned i=0;i<n;i++){ NP x=cypher_parse_segment_get_root(seg,i); if(!x){ if(bad.empty()) bad="missing root within the count"; continue; } s.roots.push_back(impl_walk(x,-1,s,seen,bad)); }
  if((cypher_parse_segment_get_root(seg,n)||cypher_parse_segment_get_root(seg,n+9))&&bad.empty()) bad="a root beyond the count";
  n=cypher_parse_segment_nerrors(seg); for(unsigned i=0;i<n;i++){ const cypher_parse_error_t*e=cypher_parse_segment_get_error(seg,i); if(!e){ if(bad.empty()) bad="missing error within the count"; continue; } s.errs.push_back(toerr(e)); }
  if((cypher_parse_segment_get_error(seg,n)||cypher_parse_segment_get_error(seg,n+9))&&bad.empty()) bad="an error beyond the count";
  NP d=cypher_parse_segment_get_directive(seg); if(d){ auto it=seen.find(d); if(it==seen.end()){ if(bad.empty()) bad="the directive is not in the trees of its segment"; s.dir=-2; } else s.dir=it->second; }
  return s; }
Out impl_result(const cypher_parse_result_t*res){
  Out o; Seg s; map<NP,int> seen; unsigned n=cypher_parse_result_nroots(res); for(unsigned i=0;i<n;i++){ NP x=cypher_parse_result_get_root(res,i); if(!x){ if(o.bad.empty()) o.bad="missing root within the count"; continue; } s.roots.push_back(impl_walk(x,-1,s,seen,o.bad)); }
  if((cypher_parse_result_get_root(res,n)||cypher_parse_result_get_root(res,n+7))&&o.bad.empty()) o.bad="a root beyond the count";
  s.nnodes=cypher_parse_result_nnodes(res); s.eof=cypher_parse_result_eof(res);
  n=cypher_parse_result_nerrors(res); for(unsigned i=0;i<n;i++){ const cypher_parse_error_t*e=cypher_parse_result_get_error(res,i); if(!e){ if(o.bad.empty()) o.bad="missing error within the count"; continue; } s.errs.push_back(toerr(e)); }
  if((cypher_parse_result_get_error(res,n)||cypher_parse_result_get_error(res,n+7))&&o.bad.empty()) o.bad="an error beyond the count";
  s.roots.push_back(-1); n=cypher_parse_result_ndirectives(res); for(unsigned i=0;i<n;i++){ NP d=cypher_parse_result_get_directive(res,i); auto it=seen.find(d); if(!d||it==seen.end()){ if(o.bad.empty()) o.bad="a directive is not in the trees of its result"; s.roots.push_back(-2); } else s.roots.push_back(it->second); }
  if((cypher_parse_result_get_directive(res,n)||cypher_parse_result_get_directive(res,n+7))&&o.bad.empty()) o.bad="a directive beyond the count";
  o.segs.push_back(s); return o; }
const struct cypher_parser_colorization marker_colors={ {"{N","N}"},{"{E","E}"},{"{T","T}"},{"{M","M}"},{"{O","O}"},{"{R","R}"},{"{I","I}"},{"{Y","Y}"},{"{D","D}"} };
cypher_parser_config_t*impl_config(const Cfg&c){ cypher_parser_config_t*p=cypher_parser_new_config(); if(!p) return p; if(!(c.init==Pos{1,1,0})){ struct cypher_input_position q={c.init.line,c.init.col,c.init.off}; cypher_parser_config_set_initial_position(p,q);} if(c.ord) cypher_parser_config_set_initial_ordinal(p,c.ord); if(c.color) cypher_parser_config_set_error_colorization(p,&marker_colors); if(c.cols) cypher_parser_config_set_error_colorization(p,c.cols); return p; }

namespace { struct CF { string t; vector<size_t> ch; size_t at=0,i=0; long fail; int err; };
ssize_t cf_read(void*c,char*b,size_t n){ CF*f=(CF*)c; if(alloc::yield) alloc::yield(1); if(f->fail>=0&&(long)f->at>=f->fail){ errno=f->err; return -1; } size_t k=f->ch.empty()?n:f->ch[f->i<f->ch.size()?f->i:f->ch.size()-1]; f->i++; if(k==0) k=1; if(k>n) k=n; if(k>f->t.size()-f->at) k=f->t.size()-f->at; if(f->fail>=0&&f->at+k>(size_t)f->fail) k=f->fail-f->at; memcpy(b,f->t.data()+f->at,k); f->at+=k; return k; }
int cf_close(void*c){ delete (CF*)c; return 0; } }
FILE*chunked_file(const string&t,const vector<size_t>&ch,long fail,int err){ CF*f=new CF; f->t=t; f->ch=ch; f->fail=fail; f->err=err; cookie_io_functions_t io={cf_read,nullptr,nullptr,cf_close}; FILE*r=fopencookie(f,"r",io); return r; }

namespace impl {
unsigned long long execs=0;
struct CB { Out*o; const function<int(size_t)>*cb; size_t n=0; };
static int on_seg(void*u,cypher_parse_segment_t*s){ if(alloc::yield) alloc::yield(2); alloc::Pause ps; CB*c=(CB*)u; c->o->segs.push_back(impl_segment(s,c->o->bad)); size_t i=c->n++; return c->cb&&*c->cb?(*c->cb)(i):0; }
struct CfgP { cypher_parser_config_t*p=nullptr; CfgP(const Cfg&c){ if(!(c.init==Pos{1,1,0})||c.ord||c.color||c.cols) p=impl_config(c); } ~CfgP(){ if(p) cypher_parser_config_free(p); } };
static const size_t UNSET=(size_t)-77;
static void fin(Out&o,int r,const struct cypher_input_position&l){ o.ret=r; o.lastset=l.offset!=UNSET; if(o.lastset) o.last=topos(l); }
static unsigned fl(int f){ return (f&FL_SINGLE?CYPHER_PARSE_SINGLE:0)|(f&FL_STMT?CYPHER_PARSE_ONLY_STATEMENTS:0); }
// exact-size heap copy, so that reads beyond the input are caught
struct Buf { char*p; size_t n; Buf(const string&t):n(t.size()){ p=(char*)malloc(n?n:1); memcpy(p,t.data(),n);} ~Buf(){ free(p);} };
Out parse(const string&t,int flags,const Cfg&c,const function<int(size_t)>&cb){ execs++; Out o; CB u{&o,&cb}; CfgP cp(c); Buf b(t); struct cypher_input_position l={0,0,UNSET}; errno=0; int r=cypher_uparse_each(b.p,b.n,on_seg,&u,&l,cp.p,fl(flags)); o.err=errno; fin(o,r,l); return o; }
Out fparse(const string&t,const vector<size_t>&ch,int flags,const Cfg&c,const function<int(size_t)>&cb){ execs++; Out o; CB u{&o,&cb}; CfgP cp(c); FILE*f=chunked_file(t,ch); struct cypher_input_position l={0,0,UNSET}; errno=0; int r=cypher_fparse_each(f,on_seg,&u,&l,cp.p,fl(flags)); o.err=errno; fclose(f); fin(o,r,l); return o; }
static Out allof(cypher_parse_result_t*r,const struct cypher_input_position&l,int err){ Out o; o.err=err; if(r){ int e=o.err; { alloc::Pause ps; o=impl_result(r); } o.err=e; cypher_parse_result_free(r); fin(o,0,l); } else fin(o,-1,l); return o; }
Out parse_all(const string&t,int flags,const Cfg&c){ execs++; CfgP cp(c); Buf b(t); struct cypher_input_position l={0,0,UNSET}; errno=0; cypher_parse_result_t*r=cypher_uparse(b.p,b.n,&l,cp.p,fl(flags)); return allof(r,l,errno); }
Out fparse_all(const string&t,const vector<size_t>&ch,int flags,const Cfg&c){ execs++; CfgP cp(c); FILE*f=chunked_file(t,ch); struct cypher_input_position l={0,0,UNSET}; errno=0; cypher_parse_result_t*r=cypher_fparse(f,&l,cp.p,fl(flags)); int e=errno; fclose(f); return allof(r,l,e); }
struct QCB { QOut*o; const function<int(size_t)>*cb; size_t n=0; };
static int on_q(void*u,const cypher_quick_parse_segment_t*s){ if(alloc::yield) alloc::yield(2); QCB*c=(QCB*)u; QSeg q; q.stmt=cypher_quick_parse_segment_is_statement(s); if(cypher_quick_parse_segment_is_command(s)==q.stmt&&c->o->bad.empty()) c->o->bad="segment is both or neither statement and command"; size_t n=0; const char*p=cypher_quick_parse_segment_get_text(s,&n); q.text.assign(p?p:"",p?n:0); struct cypher_input_range r=cypher_quick_parse_segment_get_range(s); q.r.s=topos(r.start); q.r.e=topos(r.end); q.next=topos(cypher_quick_parse_segment_get_next(s)); q.eof=cypher_quick_parse_segment_is_eof(s); c->o->segs.push_back(q); size_t i=c->n++; return c->cb&&*c->cb?(*c->cb)(i):0; }
QOut qparse(const string&t,int flags,const function<int(size_t)>&cb){ execs++; QOut o; QCB u{&o,&cb}; Buf b(t); o.ret=cypher_quick_uparse(b.p,b.n,on_q,&u,fl(flags)); return o; }
QOut qfparse(const string&t,const vector<size_t>&ch,int flags,const function<int(size_t)>&cb){ execs++; QOut o; QCB u{&o,&cb}; FILE*f=chunked_file(t,ch); o.ret=cypher_quick_fparse(f,on_q,&u,fl(flags)); fclose(f); return o; }
}
