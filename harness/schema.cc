#include "schema.h"
using namespace std;
typedef cypher_astnode_t*N_;
static const char*SCHEMA=
"statement options*statement_option body:query|schema_command\n"
"cypher_option version?string params*cypher_option_param\ncypher_option_param name:string value:string\nexplain_option\nprofile_option\n"
"create_node_props_index label:label props+prop_name\ndrop_node_props_index label:label props+prop_name\n"
"create_node_prop_constraint identifier:identifier label:label expression:expression unique!\ndrop_node_prop_constraint identifier:identifier label:label expression:expression unique!\n"
"create_rel_prop_constraint identifier:identifier reltype:reltype expression:expression unique!\ndrop_rel_prop_constraint identifier:identifier reltype:reltype expression:expression unique!\n"
"query options*query_option clauses+query_clause\nusing_periodic_commit limit?integer\nload_csv with_headers! url:expression identifier:identifier terminator?string\n"
"start points+start_point predicate?expression\n"
"node_index_lookup identifier:identifier index:index_name prop:prop_name lookup:string|parameter\nnode_index_query identifier:identifier index:index_name query:string|parameter\nnode_id_lookup identifier:identifier ids+integer\nall_nodes_scan identifier:identifier\n"
"rel_index_lookup identifier:identifier index:index_name prop:prop_name lookup:string|parameter\nrel_index_query identifier:identifier index:index_name query:string|parameter\nrel_id_lookup identifier:identifier ids+integer\nall_rels_scan identifier:identifier\n"
"match optional! pattern:pattern hints*match_hint predicate?expression\nusing_index identifier:identifier label:label prop:prop_name\nusing_join identifiers+identifier\nusing_scan identifier:identifier label:label\n"
"merge path:pattern_path actions*merge_action\non_match items+set_item\non_create items+set_item\ncreate unique! pattern:pattern\nset items+set_item\nset_property property:property_operator expression:expression\nset_all_properties identifier:identifier expression:expression\nmerge_properties identifier:identifier expression:expression\nset_labels identifier:identifier labels+label\n"
"delete detach! expressions+expression\nremove items+remove_item\nremove_labels identifier:identifier labels+label\nremove_property property:property_operator\nforeach identifier:identifier expression:expression clauses+query_clause\n"
"with distinct! include! projections*projection order?order_by skip?expression limit?expression predicate?expression\nunwind expression:expression alias:identifier\ncall proc:proc_name arguments*expression projections*projection predicate?expression\n"
"return distinct! include! projections*projection order?order_by skip?expression limit?expression\nprojection expression:expression alias?identifier\norder_by items+sort_item\nsort_item expression:expression ascending!\nunion all!\n"
"unary_operator opo argument:expression\nbinary_operator opo argument1:expression argument2:expression\ncomparison opsO arguments+expression\napply_operator func:function_name distinct! arguments*expression\napply_all_operator func:function_name distinct!\n"
"property_operator expression:expression prop:prop_name\nsubscript_operator expression:expression subscript:expression\nslice_operator expression:expression start?expression end?expression\n"
"map_projection expression:expression selectors*map_projection_selector\nmap_projection_literal prop:prop_name expression:expression\nmap_projection_property prop:prop_name\nmap_projection_identifier identifier:identifier\nmap_projection_all_properties\nlabels_operator expression:expression labels+label\n"
"list_comprehension identifier:identifier expression:expression predicate?expression eval?expression\nfilter identifier:identifier expression:expression predicate?expression eval~\nextract identifier:identifier expression:expression predicate~ eval?expression\nall identifier:identifier expression:expression predicate?expression eval~\nany identifier:identifier expression:expression predicate?expression eval~\nsingle identifier:identifier expression:expression predicate?expression eval~\nnone identifier:identifier expression:expression predicate?expression eval~\n"
"pattern_comprehension identifier?identifier pattern:pattern_path predicate?expression eval:expression\nreduce accumulator:identifier init:expression identifier:identifier expression:expression eval?expression\ncase expression?expression predicates*expression values*expression default?expression\n"
"collection elements*expression\nmap keys*prop_name values*expression\nidentifier name=\nparameter name=\nstring value=\ninteger value=\nfloat value=\ntrue\nfalse\nnull\nlabel name=\nreltype name=\nprop_name value=\nfunction_name value=\nindex_name value=\nproc_name value=\n"
"pattern paths+pattern_path\nnamed_path identifier:identifier path:pattern_path\nshortest_path single! path:pattern_path\npattern_path elements+node_pattern|rel_pattern\nnode_pattern identifier?identifier labels*label properties?map|parameter\nrel_pattern directiond identifier?identifier reltypes*reltype varlength?range properties?map|parameter\nrange start?integer end?integer\ncommand name:string arguments*string\nline_comment value=\nblock_comment value=\nerror value=\n";
static vector<vector<Field>> FS; static vector<bool> CONC; static vector<Field> NONE;
static void load(){ if(FS.size()) return; FS.resize(TY__COUNT); CONC.assign(TY__COUNT,false); string s=SCHEMA; size_t i=0; while(i<s.size()){ size_t e=s.find('\n',i); string l=s.substr(i,e-i); i=e+1; vector<string> w; size_t k=0; while(k<l.size()){ size_t q=l.find(' ',k); if(q==string::npos) q=l.size(); w.push_back(l.substr(k,q-k)); k=q+1; } int ty=ty_by_name(w[0]); if(ty<0||ty>=TY__COUNT) abort(); CONC[ty]=true; for(size_t j=1;j<w.size();j++){ Field f; size_t p=w[j].find_first_of(":?*+!=~"); if(p==string::npos){ p=w[j].size()-1; } f.name=w[j].substr(0,p); f.kind=w[j][p]; string t=w[j].substr(p+1); while(t.size()){ size_t b=t.find('|'); f.types.push_back(ty_by_name(t.substr(0,b))); t= b==string::npos?"":t.substr(b+1); } FS[ty].push_back(f); } } }
const vector<Field>&fields(int ty){ load(); return ty<0||ty>=TY__COUNT?NONE:FS[ty]; }
bool is_concrete(int ty){ load(); return ty>=0&&ty<TY__COUNT&&CONC[ty]; }
vector<int> concrete_of(const vector<int>&ts){ load(); vector<int> o; for(int t=0;t<TY__COUNT;t++) if(CONC[t]) for(int x:ts) if(ty_is(t,x)){ o.push_back(t); break; } return o; }
Sig::Sig(const string&s,int ty){ const vector<Field>&F=fields(ty); if(F.size()==1&&F[0].kind=='='){ key=F[0].name; string p=key+"=\""; if(s.compare(0,p.size(),p)==0&&s.size()>p.size()) v[key]=s.substr(p.size(),s.size()-p.size()-1); return; } size_t i=0; while(i<s.size()){ size_t e=s.find('=',i); size_t q=s.find(' ',e); if(q==string::npos) q=s.size(); v[s.substr(i,e-i)]=s.substr(e+1,q-e-1); i=q+1; } }
int Sig::ref(const string&k)const{ auto i=v.find(k); return i==v.end()||i->second.size()<2||i->second[0]!='@'?-1:atoi(i->second.c_str()+1); }
vector<string> Sig::words(const string&k)const{ vector<string> o; auto i=v.find(k); if(i==v.end()||i->second.size()<2) return o; string t=i->second.substr(1,i->second.size()-2); size_t a=0; while(a<t.size()){ size_t b=t.find(',',a); if(b==string::npos) b=t.size(); o.push_back(t.substr(a,b-a)); a=b+1; } return o; }
vector<int> Sig::refs(const string&k)const{ vector<int> o; for(auto&w:words(k)) o.push_back(w.size()>1&&w[0]=='@'?atoi(w.c_str()+1):-1); return o; }
string Sig::text(const string&k)const{ auto i=v.find(k); return i==v.end()?"":i->second; }
vector<int> operands(int ty,const string&sig){ Sig g(sig,ty); vector<int> o; for(auto&f:fields(ty)){ if(f.kind==':'||f.kind=='?'){ int r=g.ref(f.name); if(r>=0) o.push_back(r); } else if(f.kind=='*'||f.kind=='+') for(int r:g.refs(f.name)) o.push_back(r); } return o; }
string schema_check(const Seg&s){ load();
  for(size_t n=0;n<s.nodes.size();n++){ const TNode&t=s.nodes[n]; if(!is_concrete(t.type)) return fmt("node %zu has no concrete type",n); string nm=tyinfo[t.type].name; Sig g(t.sig,t.type); vector<int> used(t.kids.size(),0);
    auto ok=[&](int r,const Field&f)->string{ if(r<0||r>=(int)t.kids.size()) return fmt("%s of a %s node is not one of its children",f.name.c_str(),nm.c_str()); used[r]++; int ct=s.nodes[t.kids[r]].type; for(int x:f.types) if(ty_is(ct,x)) return ""; return fmt("%s of a %s node is a %s",f.name.c_str(),nm.c_str(),tyinfo[ct].name); };
    for(auto&f:FS[t.type]){ string r; if(f.kind==':'||f.kind=='?'){ if(!g.has(f.name)){ if(f.kind==':') return fmt("a %s node has no %s",nm.c_str(),f.name.c_str()); continue; } r=ok(g.ref(f.name),f); } else if(f.kind=='~'){ if(g.has(f.name)) return fmt("a %s node has a %s",nm.c_str(),f.name.c_str()); } else if(f.kind=='*'||f.kind=='+'){ vector<int> v=g.refs(f.name); if(f.kind=='+'&&v.empty()) return fmt("a %s node has no %s",nm.c_str(),f.name.c_str()); int last=-1; for(int x:v){ if(!(r=ok(x,f)).empty()) return r; if(x<=last) return fmt("%s of a %s node are not in input order",f.name.c_str(),nm.c_str()); last=x; } } else if(f.kind=='='){ if(t.sig.find("(null)")!=string::npos) return fmt("a %s node has no text",nm.c_str()); } else if(f.kind=='o'||f.kind=='O'||f.kind=='d'){ if(t.sig.find('?')!=string::npos) return fmt("a %s node has no known %s",nm.c_str(),f.name.c_str()); } if(!r.empty()) return r; }
    if(t.type==TY_pattern_path){ auto v=g.refs("elements"); if(v.size()%2==0) return "a path has an even number of elements"; for(size_t i=0;i<v.size();i++) if(s.nodes[t.kids[v[i]]].type!=(i%2?TY_rel_pattern:TY_node_pattern)) return "nodes and relationships of a path do not alternate"; }
    if(t.type==TY_comparison&&g.words("ops").size()+1!=g.refs("arguments").size()) return "operators and operands of a comparison do not match";
    if((t.type==TY_case&&g.refs("predicates").size()!=g.refs("values").size())||(t.type==TY_map&&g.refs("keys").size()!=g.refs("values").size())) return "pairs do not match";
    if(t.type==TY_case||t.type==TY_map){ auto a=g.refs(t.type==TY_case?"predicates":"keys"),b=g.refs("values"); for(size_t i=0;i<a.size();i++){ if(a[i]>b[i]) return "a pair is not in input order"; if(i&&b[i-1]>a[i]) return "pairs are not in input order"; } }
    if((t.type==TY_with||t.type==TY_return)&&!g.flag("include")&&g.refs("projections").empty()) return "a projection clause projects nothing";
    for(size_t i=0;i<used.size();i++){ int ct=s.nodes[t.kids[i]].type; bool extra=ct==TY_line_comment||ct==TY_block_comment||ct==TY_error; if(extra&&used[i]) return fmt("a %s is an operand of a %s node",tyinfo[ct].name,nm.c_str()); if(!extra&&used[i]!=1&&!(t.type==TY_range&&used[i]==2)) return fmt("child %zu of a %s node is used %d times",i,nm.c_str(),used[i]); } }
  return ""; }
struct OpI{ const char*n; const cypher_operator_t*const*o; const char*t; };
static const OpI OPS[]={ 
#define O(x,t) {#x,&CYPHER_OP_##x,t},
O(OR,"OR")O(XOR,"XOR")O(AND,"AND")O(NOT,"NOT")O(EQUAL,"=")O(NEQUAL,"<>")O(LT,"<")O(GT,">")O(LTE,"<=")O(GTE,">=")O(PLUS,"+")O(MINUS,"-")O(MULT,"*")O(DIV,"/")O(MOD,"%")O(POW,"^")O(UNARY_PLUS,"+")O(UNARY_MINUS,"-")O(REGEX,"=~")O(IN,"IN")O(STARTS_WITH,"STARTS WITH")O(ENDS_WITH,"ENDS WITH")O(CONTAINS,"CONTAINS")O(IS_NULL,"IS NULL")O(IS_NOT_NULL,"IS NOT NULL") };
#undef O
const cypher_operator_t*op_by_name(const string&n){ for(auto&o:OPS) if(n==o.n) return *o.o; return nullptr; }
const char*op_text(const string&n){ for(auto&o:OPS) if(n==o.n) return o.t; return "?"; }
const vector<string> unary_ops={"NOT","UNARY_PLUS","UNARY_MINUS","IS_NULL","IS_NOT_NULL"},comparison_ops={"LT","GT","LTE","GTE"},binary_ops={"OR","XOR","AND","EQUAL","NEQUAL","LT","GT","LTE","GTE","PLUS","MINUS","MULT","DIV","MOD","POW","REGEX","IN","STARTS_WITH","ENDS_WITH","CONTAINS"};
string detail(const Seg&s,int n,const vector<unsigned>&ord){ const TNode&t=s.nodes[n]; Sig g(t.sig,t.type);
  auto num=[&](int k)->string{ return k<0||k>=(int)t.kids.size()?"@?":"@"+to_string(ord[t.kids[k]]); };
  auto a=[&](const char*k){ return num(g.ref(k)); };
  auto join=[&](const vector<int>&v,const string&sep){ string o; for(size_t i=0;i<v.size();i++){ if(i) o+=sep; o+=num(v[i]); } return o; };
  auto l=[&](const char*k){ return join(g.refs(k),", "); }; auto lst=[&](const char*k){ return "["+l(k)+"]"; };
  auto has=[&](const char*k){ return g.has(k); }; auto fl=[&](const char*k){ return g.flag(k); };
  auto opt=[&](const char*pre,const char*k){ return has(k)?pre+a(k):string(); };
  struct J{ string o; void add(const string&x){ if(x.empty()) return; if(o.size()) o+=", "; o+=x; } } j;
  auto labels=[&](const char*k){ string o; for(int x:g.refs(k)) o+=":"+num(x); return o; };
  auto T=[&]{ return g.text(fields(t.type)[0].name); };
  switch(t.type){
  case TY_statement: if(g.refs("options").size()) j.add("options="+lst("options")); j.add("body="+a("body")); return j.o;
  case TY_cypher_option: if(has("version")) j.add("version="+a("version")); if(g.refs("params").size()) j.add("params="+lst("params")); return j.o;
  case TY_cypher_option_param: return a("name")+" = "+a("value");
  case TY_create_node_props_index: case TY_drop_node_props_index: return "ON=:"+a("label")+"("+l("props")+")";
  case TY_create_node_prop_constraint: case TY_drop_node_prop_constraint: return "ON=("+a("identifier")+":"+a("label")+"), expression="+a("expression")+(fl("unique")?", IS UNIQUE":"");
  case TY_create_rel_prop_constraint: case TY_drop_rel_prop_constraint: return "ON=("+a("identifier")+":"+a("reltype")+"), expression="+a("expression")+(fl("unique")?", IS UNIQUE":"");
  case TY_query: return "clauses="+lst("clauses");
  case TY_using_periodic_commit: return opt("limit=","limit");
  case TY_load_csv: if(fl("with_headers")) j.add("WITH HEADERS"); j.add("url="+a("url")); j.add("identifier="+a("identifier")); j.add(opt("field_terminator=","terminator")); return j.o;
  case TY_start: j.add("points="+lst("points")); j.add(opt("WHERE=","predicate")); return j.o;
  case TY_node_index_lookup: case TY_rel_index_lookup: return a("identifier")+" = "+(t.type==TY_rel_index_lookup?"rel":"node")+":"+a("index")+"("+a("prop")+" = "+a("lookup")+")";
  case TY_node_index_query: case TY_rel_index_query: return a("identifier")+" = "+(t.type==TY_rel_index_query?"rel":"node")+":"+a("index")+"("+a("query")+")";
  case TY_node_id_lookup: case TY_rel_id_lookup: return a("identifier")+" = "+(t.type==TY_rel_id_lookup?"rel":"node")+"("+l("ids")+")";
  case TY_all_nodes_scan: case TY_all_rels_scan: return "identifier="+a("identifier");
  case TY_match: if(fl("optional")) j.add("OPTIONAL"); j.add("pattern="+a("pattern")); if(g.refs("hints").size()) j.add("hints="+lst("hints")); j.add(opt("where=","predicate")); return j.o;
  case TY_using_index: return a("identifier")+":"+a("label")+"("+a("prop")+")";
  case TY_using_join: return "on="+lst("identifiers");
  case TY_using_scan: return a("identifier")+":"+a("label");
  case TY_merge: return "path="+a("path")+(g.refs("actions").size()?", action"+lst("actions"):""); // sic, see DESIGN.md
  case TY_on_match: case TY_on_create: case TY_set: case TY_remove: case TY_order_by: return "items="+lst("items");
  case TY_create: return (fl("unique")?"UNIQUE, ":"")+string("pattern=")+a("pattern");
  case TY_set_property: return a("property")+" = "+a("expression");
  case TY_set_all_properties: return a("identifier")+" = "+a("expression");
  case TY_merge_properties: return a("identifier")+" += "+a("expression");
  case TY_set_labels: case TY_remove_labels: return a("identifier")+labels("labels");
  case TY_labels_operator: return a("expression")+labels("labels");
  case TY_delete: return (fl("detach")?"DETACH, ":"")+string("expressions=")+lst("expressions");
  case TY_remove_property: return "prop="+a("property");
  case TY_foreach: return "["+a("identifier")+" IN "+a("expression")+" | "+l("clauses")+"]";
  case TY_with: case TY_return: if(fl("distinct")) j.add("DISTINCT"); if(fl("include")) j.add("*"); j.add("projections="+lst("projections")); j.add(opt("ORDER BY=","order")); j.add(opt("SKIP=","skip")); j.add(opt("LIMIT=","limit")); j.add(opt("WHERE=","predicate")); return j.o;
  case TY_unwind: return "expression="+a("expression")+", alias="+a("alias");
  case TY_call: j.add("name="+a("proc")); if(g.refs("arguments").size()) j.add("args="+lst("arguments")); if(g.refs("projections").size()) j.add("YIELD="+lst("projections")); j.add(opt("WHERE=","predicate")); return j.o;
  case TY_projection: j.add("expression="+a("expression")); j.add(opt("alias=","alias")); return j.o;
  case TY_sort_item: return "expression="+a("expression")+(fl("ascending")?", ASCENDING":", DESCENDING");
  case TY_union: return fl("all")?"ALL":"";
  case TY_unary_operator: return string(op_text(g.text("op")))+" "+a("argument");
  case TY_binary_operator: return a("argument1")+" "+op_text(g.text("op"))+" "+a("argument2");
  case TY_comparison: { auto o=g.words("ops"); auto r=g.refs("arguments"); string x; for(size_t i=0;i<r.size();i++){ if(i) x+=string(" ")+op_text(i-1<o.size()?o[i-1]:"")+" "; x+=num(r[i]); } return x; }
  case TY_apply_operator: return a("func")+"("+(fl("distinct")?"DISTINCT ":"")+l("arguments")+")";
  case TY_apply_all_operator: return a("func")+"("+(fl("distinct")?"DISTINCT ":"")+"*)";
  case TY_property_operator: return a("expression")+"."+a("prop");
  case TY_subscript_operator: return a("expression")+"["+a("subscript")+"]";
  case TY_slice_operator: return a("expression")+"["+opt("","start")+".."+opt("","end")+"]";
  case TY_map_projection: return a("expression")+"{"+l("selectors")+"}";
  case TY_map_projection_literal: return a("prop")+": "+a("expression");
  case TY_map_projection_property: return "."+a("prop");
  case TY_map_projection_identifier: return a("identifier");
  case TY_map_projection_all_properties: return ".*";
  case TY_list_comprehension: case TY_filter: case TY_extract: case TY_all: case TY_any: case TY_single: case TY_none: return "["+a("identifier")+" IN "+a("expression")+opt(" WHERE ","predicate")+opt(" | ","eval")+"]";
  case TY_pattern_comprehension: return "["+(has("identifier")?a("identifier")+" = ":"")+a("pattern")+opt(" WHERE ","predicate")+" | "+a("eval")+"]";
  case TY_reduce: return "["+a("accumulator")+"="+a("init")+", "+a("identifier")+" IN "+a("expression")+opt(" | ","eval")+"]";
  case TY_case: { j.add(opt("expression=","expression")); auto p=g.refs("predicates"),v=g.refs("values"); string x; for(size_t i=0;i<p.size();i++){ if(i) x+=", "; x+="("+num(p[i])+":"+num(v[i])+")"; } j.add("alternatives=["+x+"]"); j.add(opt("default=","default")); return j.o; }
  case TY_collection: return "["+l("elements")+"]";
  case TY_map: { auto p=g.refs("keys"),v=g.refs("values"); string x; for(size_t i=0;i<p.size();i++){ if(i) x+=", "; x+=num(p[i])+":"+num(v[i]); } return "{"+x+"}"; }
  case TY_identifier: case TY_prop_name: case TY_function_name: case TY_index_name: case TY_proc_name: return "`"+T()+"`";
  case TY_label: case TY_reltype: return ":`"+T()+"`";
  case TY_parameter: return "$`"+T()+"`"; case TY_string: return "\""+T()+"\""; case TY_integer: case TY_float: return T();
  case TY_line_comment: return "//"+T(); case TY_block_comment: return "/*"+T()+"*/"; case TY_error: return ">>"+T()+"<<";
  case TY_pattern: return "paths="+lst("paths");
  case TY_named_path: return a("identifier")+" = "+a("path");
  case TY_shortest_path: return string("single=")+(fl("single")?"true":"false")+", path="+a("path");
  case TY_pattern_path: { auto e=g.refs("elements"); string x; for(size_t i=0;i<e.size();i++){ if(i) x+="-"; x+= (i%2?"[":"(")+num(e[i])+(i%2?"]":")"); } return x; }
  case TY_node_pattern: return "("+opt("","identifier")+labels("labels")+(has("properties")?(true?" {":"{")+a("properties")+"}":"")+")";
  case TY_rel_pattern: { string d=g.text("direction"),x=d=="INBOUND"?"<-[":"-["; x+=opt("","identifier"); auto r=g.refs("reltypes"); for(size_t i=0;i<r.size();i++) x+=(i?"|:":":")+num(r[i]); x+=opt("*","varlength"); if(has("properties")) x+=" {"+a("properties")+"}"; return x+(d=="OUTBOUND"?"]->":"]-"); }
  case TY_range: return has("start")||has("end")? "*"+opt("","start")+".."+opt("","end"):"*";
  case TY_command: j.add("name="+a("name")); j.add("args="+lst("arguments")); return j.o;
  default: return ""; } }
struct cypher_input_range torange(const Range&r){ struct cypher_input_range x; x.start.line=r.s.line; x.start.column=r.s.col; x.start.offset=r.s.off; x.end.line=r.e.line; x.end.column=r.e.col; x.end.offset=r.e.off; return x; }
N_ construct(int ty,const Parts&p,vector<N_> ch,struct cypher_input_range r,bool pairs){
  // exact-size arrays, so that reads beyond them are caught
  struct Arr{ N_*p; unsigned n; Arr(const vector<N_>&v):n(v.size()){ p= n?(N_*)malloc(n*sizeof(N_)):nullptr; for(unsigned i=0;i<n;i++) p[i]=v[i]; } ~Arr(){ free(p); } };
  static const vector<N_> none; auto vec=[&](const char*k)->const vector<N_>&{ auto i=p.n.find(k); return i==p.n.end()?none:i->second; };
  auto N=[&](const char*k)->N_{ auto&v=vec(k); return v.empty()?nullptr:v[0]; }; auto B=[&](const char*k){ auto i=p.b.find(k); return i!=p.b.end()&&i->second; };
  Arr C(ch); 
#define CH C.p,C.n,r
#define L(v,k) Arr v(vec(k));
  switch(ty){
  case TY_statement: { L(o,"options") return cypher_ast_statement(o.p,o.n,N("body"),CH); }
  case TY_cypher_option: { L(o,"params") return cypher_ast_cypher_option(N("version"),o.p,o.n,CH); }
  case TY_cypher_option_param: return cypher_ast_cypher_option_param(N("name"),N("value"),CH);
  case TY_explain_option: return cypher_ast_explain_option(r); case TY_profile_option: return cypher_ast_profile_option(r);
  case TY_create_node_props_index: { L(o,"props") return cypher_ast_create_node_props_index(N("label"),o.p,o.n,CH); }
  case TY_drop_node_props_index: { L(o,"props") return cypher_ast_drop_node_props_index(N("label"),o.p,o.n,CH); }
  case TY_create_node_prop_constraint: return cypher_ast_create_node_prop_constraint(N("identifier"),N("label"),N("expression"),B("unique"),CH);
  case TY_drop_node_prop_constraint: return cypher_ast_drop_node_prop_constraint(N("identifier"),N("label"),N("expression"),B("unique"),CH);
  case TY_create_rel_prop_constraint: return cypher_ast_create_rel_prop_constraint(N("identifier"),N("reltype"),N("expression"),B("unique"),CH);
  case TY_drop_rel_prop_constraint: return cypher_ast_drop_rel_prop_constraint(N("identifier"),N("reltype"),N("expression"),B("unique"),CH);
  case TY_query: { L(o,"options") L(c,"clauses") return cypher_ast_query(o.p,o.n,c.p,c.n,CH); }
  case TY_using_periodic_commit: return cypher_ast_using_periodic_commit(N("limit"),CH);
  case TY_load_csv: return cypher_ast_load_csv(B("with_headers"),N("url"),N("identifier"),N("terminator"),CH);
  case TY_start: { L(o,"points") return cypher_ast_start(o.p,o.n,N("predicate"),CH); }
#define IDX(q) case TY_##q##_index_lookup: return cypher_ast_##q##_index_lookup(N("identifier"),N("index"),N("prop"),N("lookup"),CH); case TY_##q##_index_query: return cypher_ast_##q##_index_query(N("identifier"),N("index"),N("query"),CH); case TY_##q##_id_lookup: { L(o,"ids") return cypher_ast_##q##_id_lookup(N("identifier"),o.p,o.n,CH); } case TY_all_##q##s_scan: return cypher_ast_all_##q##s_scan(N("identifier"),CH);
  IDX(node) IDX(rel)
  case TY_match: { L(o,"hints") return cypher_ast_match(B("optional"),N("pattern"),o.p,o.n,N("predicate"),CH); }
  case TY_using_index: return cypher_ast_using_index(N("identifier"),N("label"),N("prop"),CH);
  case TY_using_join: { L(o,"identifiers") return cypher_ast_using_join(o.p,o.n,CH); }
  case TY_using_scan: return cypher_ast_using_scan(N("identifier"),N("label"),CH);
  case TY_merge: { L(o,"actions") return cypher_ast_merge(N("path"),o.p,o.n,CH); }
#define ITEMS(t) case TY_##t: { L(o,"items") return cypher_ast_##t(o.p,o.n,CH); }
  ITEMS(on_match) ITEMS(on_create) ITEMS(set) ITEMS(remove) ITEMS(order_by)
  case TY_create: return cypher_ast_create(B("unique"),N("pattern"),CH);
  case TY_set_property: return cypher_ast_set_property(N("property"),N("expression"),CH);
  case TY_set_all_properties: return cypher_ast_set_all_properties(N("identifier"),N("expression"),CH);
  case TY_merge_properties: return cypher_ast_merge_properties(N("identifier"),N("expression"),CH);
  case TY_set_labels: { L(o,"labels") return cypher_ast_set_labels(N("identifier"),o.p,o.n,CH); }
  case TY_delete: { L(o,"expressions") return cypher_ast_delete(B("detach"),o.p,o.n,CH); }
  case TY_remove_labels: { L(o,"labels") return cypher_ast_remove_labels(N("identifier"),o.p,o.n,CH); }
  case TY_remove_property: return cypher_ast_remove_property(N("property"),CH);
  case TY_foreach: { L(o,"clauses") return cypher_ast_foreach(N("identifier"),N("expression"),o.p,o.n,CH); }
  case TY_with: { L(o,"projections") return cypher_ast_with(B("distinct"),B("include"),o.p,o.n,N("order"),N("skip"),N("limit"),N("predicate"),CH); }
  case TY_return: { L(o,"projections") return cypher_ast_return(B("distinct"),B("include"),o.p,o.n,N("order"),N("skip"),N("limit"),CH); }
  case TY_unwind: return cypher_ast_unwind(N("expression"),N("alias"),CH);
  case TY_call: { L(o,"arguments") L(q,"projections") return cypher_ast_call(N("proc"),o.p,o.n,q.p,q.n,N("predicate"),CH); }
  case TY_projection: return cypher_ast_projection(N("expression"),N("alias"),CH);
  case TY_sort_item: return cypher_ast_sort_item(N("expression"),B("ascending"),CH);
  case TY_union: return cypher_ast_union(B("all"),CH);
  case TY_unary_operator: return cypher_ast_unary_operator(op_by_name(p.op),N("argument"),CH);
  case TY_binary_operator: return cypher_ast_binary_operator(op_by_name(p.op),N("argument1"),N("argument2"),CH);
  case TY_comparison: { L(o,"arguments") const cypher_operator_t**x=(const cypher_operator_t**)malloc(p.ops.size()*sizeof*x); for(size_t i=0;i<p.ops.size();i++) x[i]=op_by_name(p.ops[i]); N_ q=cypher_ast_comparison(p.ops.size(),x,o.p,CH); free(x); return q; }
  case TY_apply_operator: { L(o,"arguments") return cypher_ast_apply_operator(N("func"),B("distinct"),o.p,o.n,CH); }
  case TY_apply_all_operator: return cypher_ast_apply_all_operator(N("func"),B("distinct"),CH);
  case TY_property_operator: return cypher_ast_property_operator(N("expression"),N("prop"),CH);
  case TY_subscript_operator: return cypher_ast_subscript_operator(N("expression"),N("subscript"),CH);
  case TY_slice_operator: return cypher_ast_slice_operator(N("expression"),N("start"),N("end"),CH);
  case TY_map_projection: { L(o,"selectors") return cypher_ast_map_projection(N("expression"),o.p,o.n,CH); }
  case TY_map_projection_literal: return cypher_ast_map_projection_literal(N("prop"),N("expression"),CH);
  case TY_map_projection_property: return cypher_ast_map_projection_property(N("prop"),CH);
  case TY_map_projection_identifier: return cypher_ast_map_projection_identifier(N("identifier"),CH);
  case TY_map_projection_all_properties: return cypher_ast_map_projection_all_properties(CH);
  case TY_labels_operator: { L(o,"labels") return cypher_ast_labels_operator(N("expression"),o.p,o.n,CH); }
  case TY_list_comprehension: return cypher_ast_list_comprehension(N("identifier"),N("expression"),N("predicate"),N("eval"),CH);
#define LC(t) case TY_##t: return cypher_ast_##t(N("identifier"),N("expression"),N("predicate"),CH);
  LC(filter) LC(all) LC(any) LC(single) LC(none)
  case TY_extract: return cypher_ast_extract(N("identifier"),N("expression"),N("eval"),CH);
  case TY_pattern_comprehension: return cypher_ast_pattern_comprehension(N("identifier"),N("pattern"),N("predicate"),N("eval"),CH);
  case TY_reduce: return cypher_ast_reduce(N("accumulator"),N("init"),N("identifier"),N("expression"),N("eval"),CH);
  case TY_case: { auto&a=vec("predicates");auto&b=vec("values"); vector<N_> q; for(size_t i=0;i<a.size();i++){ q.push_back(a[i]); q.push_back(b[i]); } Arr o(q); return cypher_ast_case(N("expression"),o.p,a.size(),N("default"),CH); }
  case TY_collection: { L(o,"elements") return cypher_ast_collection(o.p,o.n,CH); }
  case TY_map: { if(pairs){ auto&a=vec("keys");auto&b=vec("values"); vector<N_> q; for(size_t i=0;i<a.size();i++){ q.push_back(a[i]); q.push_back(b[i]); } Arr o(q); return cypher_ast_pair_map(o.p,a.size(),CH); } L(a,"keys") L(b,"values") return cypher_ast_map(a.p,b.p,a.n,CH); }
#define TX(t) case TY_##t: { char*s=(char*)malloc(p.s.size()?p.s.size():1); memcpy(s,p.s.data(),p.s.size()); N_ q=cypher_ast_##t(s,p.s.size(),r); free(s); return q; }
  TX(identifier) TX(parameter) TX(string) TX(integer) TX(float) TX(label) TX(reltype) TX(prop_name) TX(function_name) TX(index_name) TX(proc_name) TX(line_comment) TX(block_comment) TX(error)
  case TY_true: return cypher_ast_true(r); case TY_false: return cypher_ast_false(r); case TY_null: return cypher_ast_null(r);
  case TY_pattern: { L(o,"paths") return cypher_ast_pattern(o.p,o.n,CH); }
  case TY_named_path: return cypher_ast_named_path(N("identifier"),N("path"),CH);
  case TY_shortest_path: return cypher_ast_shortest_path(B("single"),N("path"),CH);
  case TY_pattern_path: { L(o,"elements") return cypher_ast_pattern_path(o.p,o.n,CH); }
  case TY_node_pattern: { L(o,"labels") return cypher_ast_node_pattern(N("identifier"),o.p,o.n,N("properties"),CH); }
  case TY_rel_pattern: { L(o,"reltypes") return cypher_ast_rel_pattern((enum cypher_rel_direction)p.dir,N("identifier"),o.p,o.n,N("properties"),N("varlength"),CH); }
  case TY_range: return cypher_ast_range(N("start"),N("end"),CH);
  case TY_command: { L(o,"arguments") return cypher_ast_command(N("name"),o.p,o.n,CH); }
  default: return nullptr; } }
N_ rebuild(const Seg&s,int n){ const TNode&t=s.nodes[n]; Sig g(t.sig,t.type); vector<N_> ch; auto drop=[&]{ for(N_ c:ch) cypher_ast_free(c); }; for(int k:t.kids){ N_ c=rebuild(s,k); if(!c){ drop(); return nullptr; } ch.push_back(c); }
  Parts p; for(auto&f:fields(t.type)) switch(f.kind){ case ':': case '?': { int r=g.ref(f.name); if(r>=0) p.n[f.name]={ch[r]}; break; } case '*': case '+': for(int r:g.refs(f.name)) p.n[f.name].push_back(ch[r]); break; case '!': p.b[f.name]=g.flag(f.name); break; case '=': p.s=g.text(f.name); break; case 'o': p.op=g.text("op"); break; case 'O': p.ops=g.words("ops"); break; case 'd': p.dir= g.text("direction")=="INBOUND"?CYPHER_REL_INBOUND:g.text("direction")=="OUTBOUND"?CYPHER_REL_OUTBOUND:CYPHER_REL_BIDIRECTIONAL; break; }
  N_ q=construct(t.type,p,ch,torange(t.r)); if(!q) drop(); return q; }
