// The model: an executable PEG (reference grammar in model/*.peg) with the
// deferred-action, furthest-failure and block semantics of the library.
#include "core.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <bitset>
#include <algorithm>
using namespace std;

namespace {
enum K { SEQ, ALT, STAR, PLUS, OPT, AND, NOT, STR, CLS, DOT, REF, ACT, BEGIN_, END_, PRED, BUILTIN };
enum B { B_START, B_END, B_REPL, B_MERGE, B_EMPTY, B_NONE, B_LINE, B_ERROR };
enum P { P_OP, P_CHK, P_PUSH, P_PUSHTOP, P_POP };
struct Arg { int kind; int v; string s; };        // kind: 0 var,1 null,2 bool,3 number,4 string,5 word,6 op_pop
struct Stmt { int target; string fn; vector<Arg> args; int fnid; }; // target: -2 none, -1 $$, k var
struct Ex { K k; vector<int> kids; string s; bitset<256> c; int a=0, b=0; int erract=-1; string errlabel; int altbase=-1; string act; vector<Stmt> st; int minlen=0; };
struct Rule { string name; int body=-1; vector<string> vars; bool defined=false; int cost=1<<28; };
struct Op { string name; int prec; int assoc; };   // 0 left 1 right 2 unary
const Op OPS[]={ {"OR",1,0},{"XOR",2,0},{"AND",3,0},{"NOT",4,2},{"EQUAL",5,0},{"NEQUAL",5,0},{"LT",6,0},{"GT",6,0},{"LTE",6,0},{"GTE",6,0},
 {"PLUS",7,0},{"MINUS",7,0},{"MULT",8,0},{"DIV",8,0},{"MOD",8,0},{"POW",9,1},{"UNARY_PLUS",10,2},{"UNARY_MINUS",10,2},
 {"REGEX",11,0},{"IN",11,0},{"STARTS_WITH",11,0},{"ENDS_WITH",11,0},{"CONTAINS",11,0},{"IS_NULL",11,2},{"IS_NOT_NULL",11,2},
 {"SUBSCRIPT",12,0},{"MAP_PROJECTION",12,0},{"PROPERTY",13,0},{"LABEL",13,0} };
int op_id(const string&n){ for(size_t i=0;i<sizeof(OPS)/sizeof(*OPS);i++) if(n==OPS[i].name) return i; fprintf(stderr,"no op %s\n",n.c_str()); exit(2); }

// constructors: fn, node type, fields (name=source): nK node argument, bK flag
// argument, seq the accumulated sequence, str string buffer, blk block text
struct Ctor { const char*fn,*type,*fields; };
const Ctor CTORS[]={
 {"cypher_option","cypher_option","version=n0 params=seq"},
 {"cypher_option_param","cypher_option_param","name=n0 value=n1"},
 {"profile_option","profile_option",""},{"explain_option","explain_option",""},
 {"statement","statement","options=seq body=n0"},
 {"create_index","create_node_props_index","label=n0 props=seq"},
 {"drop_index","drop_node_props_index","label=n0 props=seq"},
 {"create_node_prop_constraint","create_node_prop_constraint","identifier=n0 label=n1 expression=n2 unique=b3"},
 {"drop_node_prop_constraint","drop_node_prop_constraint","identifier=n0 label=n1 expression=n2 unique=b3"},
 {"create_rel_prop_constraint","create_rel_prop_constraint","identifier=n0 reltype=n1 expression=n2 unique=b3"},
 {"drop_rel_prop_constraint","drop_rel_prop_constraint","identifier=n0 reltype=n1 expression=n2 unique=b3"},
 {"query","query","*query"},
 {"using_periodic_commit","using_periodic_commit","limit=n0"},
 {"load_csv","load_csv","with_headers=b0 url=n1 identifier=n2 terminator=n3"},
 {"start_clause","start","points=seq predicate=n0"},
 {"node_index_lookup","node_index_lookup","identifier=n0 index=n1 prop=n2 lookup=n3"},
 {"node_index_query","node_index_query","identifier=n0 index=n1 query=n2"},
 {"node_id_lookup","node_id_lookup","identifier=n0 ids=seq"},
 {"all_nodes_scan","all_nodes_scan","identifier=n0"},
 {"rel_index_lookup","rel_index_lookup","identifier=n0 index=n1 prop=n2 lookup=n3"},
 {"rel_index_query","rel_index_query","identifier=n0 index=n1 query=n2"},
 {"rel_id_lookup","rel_id_lookup","identifier=n0 ids=seq"},
 {"all_rels_scan","all_rels_scan","identifier=n0"},
 {"match_clause","match","optional=b0 pattern=n1 hints=seq predicate=n2"},
 {"using_index","using_index","identifier=n0 label=n1 prop=n2"},
 {"using_join","using_join","identifiers=seq"},
 {"using_scan","using_scan","identifier=n0 label=n1"},
 {"merge_clause","merge","path=n0 actions=seq"},
 {"on_match","on_match","items=seq"},{"on_create","on_create","items=seq"},
 {"create_clause","create","unique=b0 pattern=n1"},
 {"set_clause","set","items=seq"},
 {"set_property","set_property","property=n0 expression=n1"},
 {"set_all_properties","set_all_properties","identifier=n0 expression=n1"},
 {"merge_properties","merge_properties","identifier=n0 expression=n1"},
 {"set_labels","set_labels","identifier=n0 labels=seq"},
 {"delete","delete","detach=b0 expressions=seq"},
 {"remove_clause","remove","items=seq"},
 {"remove_property","remove_property","property=n0"},
 {"remove_labels","remove_labels","identifier=n0 labels=seq"},
 {"foreach_clause","foreach","identifier=n0 expression=n1 clauses=seq"},
 {"with_clause","with","distinct=b0 include=b1 projections=seq order=n2 skip=n3 limit=n4 predicate=n5"},
 {"return_clause","return","distinct=b0 include=b1 projections=seq order=n2 skip=n3 limit=n4"},
 {"unwind_clause","unwind","expression=n0 alias=n1"},
 {"call_clause","call","*call"},
 {"projection","projection","expression=n0 alias=n1"},
 {"order_by","order_by","items=seq"},
 {"sort_item","sort_item","expression=n0 ascending=b1"},
 {"union_clause","union","all=b0"},
 {"unary_operator","unary_operator","op=o0 argument=n1"},
 {"binary_operator","binary_operator","op=o0 argument1=n1 argument2=n2"},
 {"comparison_operator","comparison","*comparison"},
 {"apply_operator","apply_operator","func=n0 distinct=b1 arguments=seq"},
 {"apply_all_operator","apply_all_operator","func=n0 distinct=b1"},
 {"property_operator","property_operator","expression=n0 prop=n1"},
 {"subscript_operator","subscript_operator","expression=n0 subscript=n1"},
 {"slice_operator","slice_operator","expression=n0 start=n1 end=n2"},
 {"map_projection","map_projection","expression=n0 selectors=seq"},
 {"map_projection_literal","map_projection_literal","prop=n0 expression=n1"},
 {"map_projection_property","map_projection_property","prop=n0"},
 {"map_projection_identifier","map_projection_identifier","identifier=n0"},
 {"map_projection_all_properties","map_projection_all_properties",""},
 {"labels_operator","labels_operator","expression=n0 labels=seq"},
 {"list_comprehension","list_comprehension","identifier=n0 expression=n1 predicate=n2 eval=n3"},
 {"pattern_comprehension","pattern_comprehension","identifier=n0 pattern=n1 predicate=n2 eval=n3"},
 {"case_expression","case","*case"},
 {"filter","filter","identifier=n0 expression=n1 predicate=n2 eval=-"},
 {"extract","extract","identifier=n0 expression=n1 predicate=- eval=n2"},
 {"reduce","reduce","accumulator=n0 init=n1 identifier=n2 expression=n3 eval=n4"},
 {"all_predicate","all","identifier=n0 expression=n1 predicate=n2 eval=-"},
 {"any_predicate","any","identifier=n0 expression=n1 predicate=n2 eval=-"},
 {"single_predicate","single","identifier=n0 expression=n1 predicate=n2 eval=-"},
 {"none_predicate","none","identifier=n0 expression=n1 predicate=n2 eval=-"},
 {"collection_literal","collection","elements=seq"},
 {"map_literal","map","*map"},
 {"strbuf_identifier","identifier","name=str"},{"block_identifier","identifier","name=trim"},
 {"strbuf_parameter","parameter","name=str"},
 {"strbuf_integer","integer","value=str"},{"strbuf_float","float","value=str"},
 {"true_literal","true",""},{"false_literal","false",""},{"null_literal","null",""},
 {"strbuf_label","label","name=str"},{"strbuf_reltype","reltype","name=str"},
 {"strbuf_prop_name","prop_name","value=str"},{"strbuf_function_name","function_name","value=str"},
 {"strbuf_index_name","index_name","value=str"},{"strbuf_proc_name","proc_name","value=str"},
 {"pattern","pattern","paths=seq"},
 {"named_path","named_path","identifier=n0 path=n1"},
 {"shortest_path","shortest_path","single=b0 path=n1"},
 {"pattern_path","pattern_path","elements=seq"},
 {"node_pattern","node_pattern","identifier=n0 labels=seq properties=n1"},
 {"rel_pattern","rel_pattern","direction=w0 identifier=n1 reltypes=seq varlength=n2 properties=n3"},
 {"simple_rel_pattern","rel_pattern","direction=w0 identifier=- reltypes=seq varlength=- properties=-"},
 {"range","range","start=n0 end=n1"},
 {"command","command","name=n0 arguments=seq"},
 {"block_string","string","value=blk"},{"strbuf_string","string","value=str"},
 {"line_comment","line_comment","value=blk"},{"block_comment","block_comment","value=blk"},
 {"skip","error","value=blk"},
};
const int NCTOR=sizeof(CTORS)/sizeof(*CTORS);
struct CtorC { int type; vector<pair<string,string>> f; string special; };
vector<CtorC> ctorc;
enum { F_SEQADD=1000,F_SBRESET,F_SBAPPEND,F_SBAPPENDBLK,F_OPPUSH,F_FINISHED,F_RESULT,F_EOF,F_COPY,F_ALIAS,F_QSEG,F_NULL };

struct Grammar {
  vector<Ex> ex; vector<Rule> rules; map<string,int> idx; int nalts=0; vector<string> altname;
  string src; size_t p=0; int cur=-1;
  int rule(string n){ for(auto&c:n) if(c=='-') c='_'; auto it=idx.find(n); if(it!=idx.end()) return it->second; rules.push_back({n}); idx[n]=rules.size()-1; return rules.size()-1; }
  int mk(K k){ ex.push_back(Ex()); ex.back().k=k; return ex.size()-1; }
  void ws(){ for(;;){ while(p<src.size()&&isspace((unsigned char)src[p])) p++; if(p<src.size()&&src[p]=='#'){ while(p<src.size()&&src[p]!='\n') p++; } else break; } }
  static bool idc(char c){ return isalnum((unsigned char)c)||c=='_'||c=='-'; }
  [[noreturn]] void fail(const char*m){ fprintf(stderr,"peg load: %s at ...%s\n",m,src.substr(p,60).c_str()); exit(2); }
  bool atdef(){ size_t q=p; if(q>=src.size()||!idc(src[q])) return false; while(q<src.size()&&idc(src[q])) q++; while(q<src.size()&&isspace((unsigned char)src[q])) q++; return q<src.size()&&src[q]=='='; }
  int esc1(){ // after backslash
    char c=src[p++];
    switch(c){case 'a':return 7;case 'b':return 8;case 'f':return 12;case 'n':return 10;case 'r':return 13;case 't':return 9;case 'v':return 11;case 'e':return 27;}
    if(c>='0'&&c<='7'){ int v=c-'0'; for(int i=0;i<2&&p<src.size()&&src[p]>='0'&&src[p]<='7';i++) v=v*8+src[p++]-'0'; return v; }
    return (unsigned char)c; }
  void load(const string&file){
    ifstream f(file); stringstream ss; ss<<f.rdbuf(); src=ss.str(); if(src.empty()){fprintf(stderr,"cannot read %s\n",file.c_str());exit(2);} p=0;
    for(;;){ ws(); if(p>=src.size()) break; size_t q=p; while(p<src.size()&&idc(src[p])) p++; if(q==p) fail("rule name"); string n=src.substr(q,p-q); ws(); if(src[p]!='=') fail("="); p++; cur=rule(n); int b=alt(); rules[cur].body=b; rules[cur].defined=true; }
    auto bi=[&](const char*n,B b){ int r=rule(n); int e=mk(BUILTIN); ex[e].a=b; rules[r].body=e; rules[r].defined=true; };
    bi("_block_start_",B_START);bi("_block_end_",B_END);bi("_block_replace_",B_REPL);bi("_block_merge_",B_MERGE);bi("_empty_",B_EMPTY);bi("_none_",B_NONE);bi("_cut_",B_EMPTY);bi("_line_start_",B_LINE);bi("_error_",B_ERROR);
    { int r=rule("_null_"); int e=mk(ACT); Stmt s; s.target=-1; s.fnid=F_NULL; ex[e].st.push_back(s); rules[r].body=e; rules[r].defined=true; }
    for(auto&r:rules) if(!r.defined&&r.name!="__entry_points"){ fprintf(stderr,"undefined rule %s\n",r.name.c_str()); exit(2);}    
    // minimal derivation size, for the generator
    bool ch=true; while(ch){ ch=false; for(auto&r:rules){ int c=cost(r.body); if(c<r.cost){ r.cost=c; ch=true; } } }
  }
  int cost(int e){ Ex&x=ex[e]; long c=0; switch(x.k){
    case SEQ: for(int k:x.kids) c+=cost(k); break;
    case ALT: { c=1<<28; for(int k:x.kids) c=min<long>(c,cost(k)); break; }
    case PLUS: c=cost(x.kids[0]); break;
    case STR: c=x.s.size(); break; case CLS: case DOT: c=1; break;
    case REF: c=1+(long)rules[x.a].cost; break;
    case BUILTIN: c= x.a==B_NONE? 1<<28:0; break;
    default: c=0; }
    return c>(1<<28)?(1<<28):(int)c; }
  int alt(){ vector<int> v; v.push_back(seq()); ws(); while(p<src.size()&&src[p]=='|'){ p++; v.push_back(seq()); ws(); }
    if(v.size()==1) return v[0]; int e=mk(ALT); ex[e].kids=v; ex[e].altbase=nalts; nalts+=v.size(); for(size_t i=0;i<v.size();i++) altname.push_back(rules[cur].name+"#"+to_string(ex[e].altbase)+"."+to_string(i)); return e; }
  int seq(){ vector<int> v; for(;;){ ws(); if(p>=src.size()) break; char c=src[p]; if(c=='|'||c==')') break; if(atdef()) break;
      int e=suffix(); v.push_back(e); }
    int e=mk(SEQ); ex[e].kids=v; return e; }
  string braces(){ ws(); if(src[p]!='{') fail("{"); size_t q=++p; int d=1; bool str=false; while(d){ char c=src[p]; if(str){ if(c=='\\') p++; else if(c=='"') str=false; } else if(c=='"') str=true; else if(c=='{') d++; else if(c=='}') d--; p++; } return src.substr(q,p-1-q); }
  int suffix(){
    int e; char c=src[p];
    if(c=='&'){ p++; ws(); if(src[p]=='{'){ string s=braces(); e=pred(s); } else { int k=suffixed(); e=mk(AND); ex[e].kids={k}; } }
    else if(c=='!'){ p++; ws(); int k=suffixed(); e=mk(NOT); ex[e].kids={k}; }
    else e=suffixed();
    ws(); if(p+1<src.size()&&src[p]=='~'){ p++; string s=braces(); size_t a=s.find("ERR(\""); if(a!=string::npos){ size_t b=s.rfind("\")"); string l=s.substr(a+5,b-a-5),o; for(size_t i=0;i<l.size();i++){ if(l[i]=='\\'){ i++; if(isdigit((unsigned char)l[i])){ o+=(char)strtol(l.substr(i,3).c_str(),0,8); i+=2; } else o+=l[i]; } else o+=l[i]; } ex[e].erract=1; ex[e].errlabel=o; }
      else if(s.find("PREC_POP")!=string::npos) ex[e].erract=2; else fail("error action"); }
    return e; }
  int suffixed(){ int e=primary(); if(p<src.size()){ char c=src[p]; size_t q=p; while(q<src.size()&&(src[q]==' '||src[q]=='\n')) q++; if(q<src.size()&&(src[q]=='*'||src[q]=='+'||src[q]=='?')) { c=src[q]; p=q+1; int w=mk(c=='*'?STAR:c=='+'?PLUS:OPT); ex[w].kids={e}; return w; } (void)c; } return e; }
  int var(const string&n){ auto&v=rules[cur].vars; for(size_t i=0;i<v.size();i++) if(v[i]==n) return i; v.push_back(n); return v.size()-1; }
  int primary(){ ws(); char c=src[p];
    if(c=='('){ p++; int e=alt(); ws(); if(src[p]!=')') fail(")"); p++; int w=mk(SEQ); ex[w].kids={e}; return w; }
    if(c=='\''||c=='"'){ p++; string s; while(src[p]!=c){ if(src[p]=='\\'){ p++; s+=(char)esc1(); } else s+=src[p++]; } p++; int e=mk(STR); ex[e].s=s; return e; }
    if(c=='['){ p++; bool neg=false; if(src[p]=='^'){neg=true;p++;} bitset<256> b; int prev=-1; while(src[p]!=']'){ int ch; if(src[p]=='-'&&prev>=0&&src[p+1]!=']'){ p++; if(src[p]=='\\'){p++;ch=esc1();} else ch=(unsigned char)src[p++]; for(int i=prev;i<=ch;i++) b.set(i); prev=-1; continue; } if(src[p]=='\\'){ p++; ch=esc1(); } else ch=(unsigned char)src[p++]; b.set(ch); prev=ch; } p++; if(neg) b.flip(); int e=mk(CLS); ex[e].c=b; return e; }
    if(c=='.'){ p++; return mk(DOT); }
    if(c=='<'){ p++; return mk(BEGIN_); }
    if(c=='>'){ p++; return mk(END_); }
    if(c=='{'){ string s=braces(); int e=mk(ACT); ex[e].act=s; vector<Stmt> st=action(s); ex[e].st=st; return e; }
    if(idc(c)){ size_t q=p; while(p<src.size()&&idc(src[p])) p++; string n=src.substr(q,p-q); if(p<src.size()&&src[p]==':'){ int v=var(n); p++; q=p; while(p<src.size()&&idc(src[p])) p++; string r=src.substr(q,p-q); int e=mk(REF); int rr=rule(r); ex[e].a=rr; ex[e].b=v+1; return e; }
      int e=mk(REF); int rr=rule(n); ex[e].a=rr; return e; }
    fail("primary"); }
  int pred(const string&s){ int e=mk(PRED); string t; for(char c:s) if(!isspace((unsigned char)c)) t+=c;
    if(t.compare(0,3,"OP(")==0){ ex[e].a=P_OP; ex[e].b=op_id(t.substr(3,t.size()-4)); }
    else if(t=="PREC_CHK()") ex[e].a=P_CHK; else if(t=="PREC_PUSH()") ex[e].a=P_PUSH; else if(t=="PREC_PUSH_TOP()") ex[e].a=P_PUSHTOP; else if(t=="PREC_POP()") ex[e].a=P_POP; else fail("predicate"); return e; }
  vector<Stmt> action(const string&s){ vector<Stmt> out; size_t i=0; 
    while(i<s.size()){ while(i<s.size()&&isspace((unsigned char)s[i])) i++; if(i>=s.size()) break;
      string t; bool str=false; while(i<s.size()&&(str||s[i]!=';')){ if(str&&s[i]=='\\'){ t+=s[i++]; } else if(s[i]=='"') str=!str; t+=s[i++]; } i++;
      while(!t.empty()&&isspace((unsigned char)t.back())) t.pop_back();
      Stmt st; st.target=-2; st.fnid=-1; string rhs=t;
      size_t eq=string::npos; { bool q=false; for(size_t j=0;j<t.size();j++){ if(t[j]=='"') q=!q; if(!q&&t[j]=='('&&eq==string::npos) break; if(!q&&t[j]=='='){ eq=j; break; } } }
      if(eq!=string::npos){ string l=t.substr(0,eq); while(!l.empty()&&isspace((unsigned char)l.back())) l.pop_back(); rhs=t.substr(eq+1); while(!rhs.empty()&&isspace((unsigned char)rhs[0])) rhs.erase(0,1);
        if(l=="$$") st.target=-1; else if(l=="yy->result"){ st.target=-2; st.fnid=F_RESULT; st.args.push_back(arg(rhs)); out.push_back(st); continue; } else if(l=="yy->eof"){ st.fnid=F_EOF; out.push_back(st); continue; } else st.target=var(l); }
      size_t par=rhs.find('(');
      if(par==string::npos){ if(rhs=="NULL"){ st.fnid=F_NULL; } else { st.fnid=F_COPY; st.args.push_back(arg(rhs)); } out.push_back(st); continue; }
      st.fn=rhs.substr(0,par); string in=rhs.substr(par+1,rhs.rfind(')')-par-1);
      // split arguments
      { string a; int d=0; bool q=false; for(size_t j=0;j<=in.size();j++){ if(j==in.size()||(!q&&d==0&&in[j]==',')){ while(!a.empty()&&isspace((unsigned char)a[0])) a.erase(0,1); while(!a.empty()&&isspace((unsigned char)a.back())) a.pop_back(); if(!a.empty()) st.args.push_back(arg(a)); a.clear(); continue; } if(q&&in[j]=='\\'){ a+=in[j++]; a+=in[j]; continue; } if(in[j]=='"') q=!q; if(!q&&in[j]=='(') d++; if(!q&&in[j]==')') d--; a+=in[j]; } }
      const string&f=st.fn;
      if(f=="sequence_add") st.fnid=F_SEQADD; else if(f=="strbuf_reset") st.fnid=F_SBRESET; else if(f=="strbuf_append") st.fnid=F_SBAPPEND; else if(f=="strbuf_append_block") st.fnid=F_SBAPPENDBLK; else if(f=="op_push") st.fnid=F_OPPUSH; else if(f=="finished") st.fnid=F_FINISHED; else if(f=="alias_unless_identifier") st.fnid=F_ALIAS; else if(f=="segment") st.fnid=F_QSEG;
      else { for(int k=0;k<NCTOR;k++) if(f==CTORS[k].fn) st.fnid=k; if(st.fnid<0){ fprintf(stderr,"unknown action %s\n",f.c_str()); exit(2);} }
      out.push_back(st); }
    return out; }
  Arg arg(string a){ Arg r; r.v=0; if(a=="NULL") r.kind=1; else if(a=="true"||a=="false"){ r.kind=2; r.v=a=="true"; } else if(isdigit((unsigned char)a[0])){ r.kind=3; r.v=atoi(a.c_str()); } else if(a[0]=='"'){ r.kind=4; string o; for(size_t i=1;i+1<a.size();i++){ if(a[i]=='\\'){ i++; switch(a[i]){case 'a':o+='\a';break;case 'b':o+='\b';break;case 'f':o+='\f';break;case 'n':o+='\n';break;case 'r':o+='\r';break;case 't':o+='\t';break;case 'v':o+='\v';break;default:o+=a[i];} } else o+=a[i]; } r.s=o; }
    else if(a=="op_pop()") r.kind=6; else if(a=="yy") r.kind=5; else { bool known=false; for(auto&v:rules[cur].vars) if(v==a) known=true; if(known||a.size()==1){ r.kind=0; r.v=var(a); } else { r.kind=5; r.s=a; } } return r; }
};
Grammar G,Q;

struct Blk { long bs,be; long rs,re; vector<int> seq,kids; };
struct Nd { int type; long s,e; vector<int> kids; vector<pair<string,string>> dummy; string sig; };
struct Thunk { int kind; int a; long pos; };  // 0 act(ex) 1 push 2 pop 3 set 4 block

struct Machine {
  const Grammar&g; const string&t; long base; // text, segment start (absolute index)
  long pos=0; vector<Thunk> th; int depth=0;
  vector<int> vals; int dollar=-1;
  vector<int> opstack; int op=-1; vector<int> prec;
  vector<Blk> blocks; Blk prev; bool hasprev=false; string sb;
  vector<Nd> nd; int result=-1; bool eof=false; long consumed=0; bool finished=false;
  // errors
  bool quick; struct E{ long pos; string msg; }; vector<E> errs; long lastpos=-1; int lastchar=0; vector<string> labels; long lasterr=-1; const Cfg*cfg=nullptr;
  bool qseg_set=false,qstmt=false; long qs=0,qe=0; 
  Machine(const Grammar&gr,const string&tx,long b,bool q):g(gr),t(tx),base(b),quick(q){}
  bool more(){ return base+pos<(long)t.size(); }
  unsigned char ch(){ return t[base+pos]; }
  static string chardesc(int c){ switch(c){case 7:return "'\\a'";case 8:return "'\\b'";case 12:return "'\\f'";case 10:return "'\\n'";case 13:return "'\\r'";case 9:return "'\\t'";case 11:return "'\\v'";case '\'':return "'\\''";case 0:return "at end of input";} return string("'")+(char)c+"'"; }
  void note(const string&l){ if(pos<lastpos||(!errs.empty()&&pos<=lasterr)) return; if(labels.empty()||pos>lastpos){ lastpos=pos; lastchar=more()?ch():0; labels.clear(); } for(auto&x:labels) if(x==l) return; labels.push_back(l); }
  void reify(){ if(labels.empty()) return; static const char*C[6]={"","","","","",""}; static const char*A[6]={"{E","E}","{T","T}","{M","M}"}; const char**c=cfg&&cfg->color?A:C;
    string m=string(c[0])+"Invalid input"+c[1]+" "+c[2]+chardesc(lastchar)+c[3]+": "+c[4]+"expected"; for(size_t i=0;i<labels.size();i++){ m+=" "+labels[i]; if(i+2<labels.size()) m+=","; else if(i+1<labels.size()) m+=" or"; } m+=c[5];
    errs.push_back({lastpos,m}); lasterr=lastpos; lastpos=-1; labels.clear(); }
  bool run(int r){ return rule(r); }
  bool rule(int r){
    const Rule&R=g.rules[r]; long p0=pos; size_t t0=th.size(); if(++depth>20000) { fprintf(stderr,"model too deep\n"); exit(2);} model::steps++; if(model::covered_rules.size()<g.rules.size()) model::covered_rules.insert((quick?100000:0)+r);
    if(!R.vars.empty()) th.push_back({1,(int)R.vars.size(),0});
    bool ok=match(R.body,r);
    if(ok){ if(!R.vars.empty()) th.push_back({2,(int)R.vars.size(),0}); }
    else { pos=p0; th.resize(t0); }
    depth--; return ok; }
  bool fire(const Ex&x){ if(x.erract==1) { if(!quick) note(x.errlabel); } else if(x.erract==2) prec.pop_back(); return false; }
  bool match(int e,int r){ const Ex&x=g.ex[e]; bool ok=match1(x,e,r); if(!ok&&x.erract>=0) fire(x); return ok; }
  bool match1(const Ex&x,int e,int r){
    switch(x.k){
    case SEQ: for(int k:x.kids) if(!match(k,r)) return false; return true;
    case ALT: { long p0=pos; size_t t0=th.size(); for(size_t i=0;i<x.kids.size();i++){ if(i){ pos=p0; th.resize(t0); } if(match(x.kids[i],r)){ if(!quick&&(int)model::covered_alts.size()<g.nalts) model::covered_alts.insert(x.altbase+i); return true; } } return false; }
    case STAR: for(;;){ long p0=pos; size_t t0=th.size(); if(!match(x.kids[0],r)){ pos=p0; th.resize(t0); return true; } if(pos==p0){ fprintf(stderr,"model: empty loop\n"); exit(2);} }
    case PLUS: if(!match(x.kids[0],r)) return false; for(;;){ long p0=pos; size_t t0=th.size(); if(!match(x.kids[0],r)){ pos=p0; th.resize(t0); return true; } }
    case OPT: { long p0=pos; size_t t0=th.size(); if(!match(x.kids[0],r)){ pos=p0; th.resize(t0);} return true; }
    case AND: { long p0=pos; size_t t0=th.size(); if(!match(x.kids[0],r)) return false; pos=p0; th.resize(t0); return true; }
    case NOT: { long p0=pos; size_t t0=th.size(); if(match(x.kids[0],r)) return false; pos=p0; th.resize(t0); return true; }
    case STR: { if(x.s.size()==1){ if(more()&&ch()==(unsigned char)x.s[0]){ pos++; return true; } return false; } long p0=pos; for(char c:x.s){ if(!more()) return false; if(ch()!=(unsigned char)c){ pos=p0; return false; } pos++; } return true; }
    case CLS: if(more()&&x.c[ch()]){ pos++; return true; } return false;
    case DOT: if(more()){ pos++; return true; } return false;
    case REF: if(!rule(x.a)) return false; if(x.b) th.push_back({3,x.b-1,0}); return true;
    case ACT: th.push_back({0,e,pos}); return true;
    case BEGIN_: th.push_back({4,B_START,pos}); return true;
    case END_: th.push_back({4,B_END,pos}); return true;
    case PRED: switch(x.a){ case P_OP: op=x.b; return true; case P_CHK: return OPS[op].prec>=prec.back(); case P_PUSH: prec.push_back(OPS[op].assoc==0?OPS[op].prec+1:OPS[op].prec); return true; case P_PUSHTOP: prec.push_back(0); return true; case P_POP: prec.pop_back(); return true; } return true;
    case BUILTIN: switch(x.a){ case B_NONE: return false; case B_EMPTY: case B_LINE: return true; case B_ERROR: reify(); return true; default: th.push_back({4,x.a,pos}); return true; }
    }
    return false; }
  // ---- deferred actions
  void done(){
    vector<int> fr; // frame sizes
    size_t n=th.size(); size_t top=0; 
    for(size_t i=0;i<n;i++){ Thunk&k=th[i]; switch(k.kind){
      case 1: vals.resize(top+k.a,-1); top+=k.a; fr.push_back(k.a); break;
      case 2: top-=k.a; vals.resize(top); fr.pop_back(); break;
      case 3: vals[top-fr.back()+k.a]=dollar; break;
      case 4: block(k.a,k.pos); break;
      case 0: for(const Stmt&s:g.ex[k.a].st) exec(s,top-(fr.empty()?0:fr.back())); break; } }
  }
  void block(int b,long p){ switch(b){
    case B_START: { Blk x; x.bs=x.be=x.rs=x.re=p; blocks.push_back(x); hasprev=false; break; }
    case B_END: prev=blocks.back(); blocks.pop_back(); prev.be=prev.re=p; hasprev=true; break;
    case B_REPL: { prev=blocks.back(); blocks.pop_back(); prev.be=prev.re=p; hasprev=true; Blk x; x.bs=x.be=p; x.rs=prev.rs; x.re=prev.rs; blocks.push_back(x); break; }
    case B_MERGE: { prev=blocks.back(); blocks.pop_back(); prev.be=prev.re=p; hasprev=true; auto&k=blocks.back().kids; k.insert(k.end(),prev.kids.begin(),prev.kids.end()); prev.kids.clear(); break; } } }
  string ref(int n,const vector<int>&kids){ if(n<0) return "-"; for(size_t i=0;i<kids.size();i++) if(kids[i]==n) return "@"+to_string(i); return "!"; }
  string lst(const vector<int>&v,size_t a,size_t b,const vector<int>&kids,size_t step=1){ string s="["; for(size_t i=a;i<b;i+=step){ if(i>a) s+=","; s+=ref(v[i],kids);} return s+"]"; }
  int val(const Arg&a,size_t fp){ if(a.kind==0) return vals[fp+a.v]; return -1; }
  void exec(const Stmt&s,size_t fp){
    int res=-1; bool setres=true;
    switch(s.fnid){
    case F_NULL: res=-1; break;
    case F_COPY: res=val(s.args[0],fp); break;
    case F_RESULT: result=val(s.args[0],fp); return;
    case F_EOF: eof=true; return;
    case F_FINISHED: finished=true; consumed=pos; return;
    case F_SEQADD: blocks.back().seq.push_back(val(s.args[0],fp)); return;
    case F_SBRESET: sb.clear(); return;
    case F_SBAPPEND: sb+=s.args[0].s; return;
    case F_SBAPPENDBLK: sb+=t.substr(base+prev.bs,prev.be-prev.bs); return;
    case F_OPPUSH: opstack.push_back(op_id(s.args[0].s)); return;
    case F_ALIAS: { int e=val(s.args[0],fp); res=vals[fp+s.target]; if(!ty_is(nd[e].type,TY_identifier)) { static int ci=-1; if(ci<0) for(int i=0;i<NCTOR;i++) if(!strcmp(CTORS[i].fn,"block_identifier")) ci=i; Stmt q; q.target=-2; q.fnid=ci; res=ctor(q,fp); } break; }
    case F_QSEG: qseg_set=true; qstmt=s.args[0].v; qs=prev.bs; qe=prev.be; consumed=pos; return;
    default: res=ctor(s,fp); }
    if(setres){ if(s.target==-1) dollar=res; else if(s.target>=0) vals[fp+s.target]=res; }
  }
  int ctor(const Stmt&s,size_t fp){
    model::covered_ctors.insert(s.fnid);
    const CtorC&c=ctorc[s.fnid]; Nd n; n.type=c.type; n.s=prev.rs; n.e=prev.re; n.kids=prev.kids; vector<int> seq=prev.seq; string g2;
    auto add=[&](const string&k,const string&v){ if(!n.sig.empty()) n.sig+=' '; n.sig+=k+"="+v; };
    if(c.special.empty()) for(auto&f:c.f){ const string&w=f.second; 
      if(w[0]=='n'&&isdigit(w[1])) add(f.first,ref(val(s.args[w[1]-'0'],fp),n.kids));
      else if(w[0]=='b'&&isdigit(w[1])) add(f.first,s.args[w[1]-'0'].v?"true":"false");
      else if(w[0]=='w'&&isdigit(w[1])) add(f.first,s.args[w[1]-'0'].s);
      else if(w[0]=='o'&&isdigit(w[1])){ int o=opstack.back(); opstack.pop_back(); add(f.first,OPS[o].name); }
      else if(w=="-") add(f.first,"-");
      else if(w=="seq") add(f.first,lst(seq,0,seq.size(),n.kids));
      else if(w=="str") add(f.first,"\""+sb+"\"");
      else if(w=="blk") add(f.first,"\""+t.substr(base+prev.bs,prev.be-prev.bs)+"\"");
      else if(w=="trim"){ long a=base+prev.bs,b=base+prev.be; auto sp=[](char c){return c==' '||(c>=9&&c<=13);}; while(a<b&&sp(t[a])) a++; while(b>a&&sp(t[b-1])) b--; add(f.first,"\""+t.substr(a,b-a)+"\""); }
    } else if(c.special=="query"){ size_t k=0; while(k<seq.size()&&ty_is(nd[seq[k]].type,TY_query_option)) k++; add("options",lst(seq,0,k,n.kids)); add("clauses",lst(seq,k,seq.size(),n.kids)); }
    else if(c.special=="call"){ size_t k=0; while(k<seq.size()&&!ty_is(nd[seq[k]].type,TY_projection)) k++; add("proc",ref(val(s.args[0],fp),n.kids)); add("arguments",lst(seq,0,k,n.kids)); add("projections",lst(seq,k,seq.size(),n.kids)); add("predicate",ref(val(s.args[1],fp),n.kids)); }
    else if(c.special=="comparison"){ size_t m=seq.size()-1; vector<int> o(opstack.end()-m,opstack.end()); opstack.resize(opstack.size()-m); string a="["; for(size_t i=0;i<o.size();i++){ if(i) a+=","; a+=OPS[o[i]].name; } add("ops",a+"]"); add("arguments",lst(seq,0,seq.size(),n.kids)); }
    else if(c.special=="case"){ add("expression",ref(val(s.args[0],fp),n.kids)); string a="[",b="["; for(size_t i=0;i+1<seq.size();i+=2){ if(i){a+=",";b+=",";} a+=ref(seq[i],n.kids); b+=ref(seq[i+1],n.kids);} add("predicates",a+"]"); add("values",b+"]"); add("default",ref(val(s.args[1],fp),n.kids)); }
    else if(c.special=="map"){ string a="[",b="["; for(size_t i=0;i+1<seq.size();i+=2){ if(i){a+=",";b+=",";} a+=ref(seq[i],n.kids); b+=ref(seq[i+1],n.kids);} add("keys",a+"]"); add("values",b+"]"); }
    nd.push_back(n); int id=nd.size()-1; hasprev=false; blocks.back().kids.push_back(id); prev=Blk(); return id; }
};
} // namespace

namespace model {
unsigned long long steps=0; set<int> covered_ctors,covered_rules,covered_alts;
int n_alts(){ return G.nalts; } int n_rules(){ return G.rules.size(); }
void load(const string&dir){
  for(int i=0;i<NCTOR;i++){ CtorC c; c.type=ty_by_name(CTORS[i].type); string f=CTORS[i].fields; if(f[0]=='*') c.special=f.substr(1); else { stringstream ss(f); string w; while(ss>>w){ size_t e=w.find('='); c.f.push_back({w.substr(0,e),w.substr(e+1)}); } } ctorc.push_back(c); }
  G.load(dir+"/cypher.peg"); Q.load(dir+"/quick.peg"); }

static void ctx_of(const string&t,size_t base,size_t limit,size_t pos,string&out,size_t&off);
Out parse(const string&text,int flags,const Cfg&cfg,const function<int(size_t)>&cb){
  Out o; static int rd=G.rule("directive"), rs=G.rule("statement"); int rule=(flags&FL_STMT)?rs:rd; long base=0; 
  for(size_t si=0;;si++){
    Machine m(G,text,base,false); m.cfg=&cfg; Blk top; top.bs=top.be=top.rs=top.re=0; m.blocks.push_back(top);
    if(!m.run(rule)){ o.ret=-1; return o; }
    m.done();
    if(m.blocks.size()!=1||!m.opstack.empty()||!m.prec.empty()) { fprintf(stderr,"model: unbalanced on %s\n",esc(text).c_str()); exit(2); }
    if(m.consumed==0) break;
    auto P=[&](long off){ return pos_at(text,base+off,cfg.init); };
    Seg s; s.r.s=P(0); s.r.e=P(m.consumed); s.eof=m.eof; o.last=s.r.e; o.lastset=true;
    for(auto&e:m.errs){ Err x; x.pos=P(e.pos); x.msg=e.msg; ctx_of(text,base,text.size(),base+e.pos,x.ctx,x.ctxoff); s.errs.push_back(x); }
    function<void(int,int)> put=[&](int id,int par){ int my=s.nodes.size(); s.nodes.push_back(TNode()); if(id==m.result) s.dir=my; { TNode&n=s.nodes[my]; n.type=m.nd[id].type; n.r.s=P(m.nd[id].s); n.r.e=P(m.nd[id].e); n.parent=par; n.sig=m.nd[id].sig; } if(par>=0) s.nodes[par].kids.push_back(my); else s.roots.push_back(my); for(int k:m.nd[id].kids) put(k,my); };
    for(int k:m.blocks[0].kids) put(k,-1);
    s.nnodes=s.nodes.size();
    o.segs.push_back(s);
    int r=cb?cb(si):0;
    if(r>0) break; if(r<0){ o.ret=r; return o; }
    if(s.eof||(flags&FL_SINGLE)) break;
    base+=m.consumed;
  }
  return o; }

// the context window: the part of the line around the error, grown alternately to
// the left and to the right until 80 characters; cut ends are marked with "..."
static void ctx_of(const string&t,size_t base,size_t limit,size_t pos,string&out,size_t&off){
  const char*buf=t.data()+base; long n=limit-base, p=pos-base;
  auto nl=[&](long i){ return buf[i]=='\n'||buf[i]=='\r'; };
  long e=p<n?p:n-1; while(e>0&&(nl(e)||buf[e]==0)) e--;
  long l=e,r=e; bool lend=false,rend=false;
  while(!(lend&&rend)){
    if(!lend){ if(l==0||nl(l-1)) lend=true; else { l--; if(r-l==80) break; } }
    if(!rend){ if(r==n||nl(r)) rend=true; else { r++; if(r-l==80) break; } } }
  lend=lend||l==0||nl(l-1); rend=rend||r==n||nl(r); out.assign(buf+l,r-l); if(!lend) out.replace(0,3,"..."); if(!rend) out.replace(out.size()-3,3,"...");
  off=p-l; }

QOut qparse(const string&text,int flags,const function<int(size_t)>&cb){
  QOut o; static int rd=Q.rule("directive"), rs=Q.rule("statement"); int rule=(flags&FL_STMT)?rs:rd; long base=0; Pos init{1,1,0};
  for(size_t si=0;;){
    Machine m(Q,text,base,true); Blk top; top.bs=top.be=0; m.blocks.push_back(top);
    if(!m.run(rule)){ o.ret=-1; return o; }
    m.done();
    (void)flags;
    QSeg s; s.stmt=m.qstmt; s.text=text.substr(base+m.qs,m.qe-m.qs); s.r.s=pos_at(text,base+m.qs,init); s.r.e=pos_at(text,base+m.qe,init); s.next=pos_at(text,base+m.pos,init); s.eof=m.eof;
    if(!(m.qe==0&&m.eof)){ o.segs.push_back(s); int r=cb?cb(si):0; si++; if(r>0) break; if(r<0){ o.ret=r; return o; } }
    if(m.eof||(flags&FL_SINGLE)) break;
    base+=m.pos;
  }
  return o; }

// ---- sentence derivation -----------------------------------------------------
static bool gen(int e,int r,Choices&c,string&o,size_t maxlen,int depth){
  if(o.size()>maxlen||depth>400) return false;
  const Ex&x=G.ex[e];
  switch(x.k){
  case SEQ: for(int k:x.kids) if(!gen(k,r,c,o,maxlen,depth+1)) return false; return true;
  case ALT: { // cheapest alternative first, then in order
    vector<int> ord(x.kids.size()); for(size_t i=0;i<ord.size();i++) ord[i]=i; int best=0; for(size_t i=1;i<ord.size();i++) if(G.cost(x.kids[i])<G.cost(x.kids[best])) best=i; swap(ord[0],ord[best]); sort(ord.begin()+1,ord.end());
    int w=c.pick(ord.size(),x.altbase); return gen(x.kids[ord[w]],r,c,o,maxlen,depth+1); }
  case STAR: { int n=c.pick(3,-e); for(int i=0;i<n;i++) if(!gen(x.kids[0],r,c,o,maxlen,depth+1)) return false; return true; }
  case PLUS: { int n=1+c.pick(2,-e); for(int i=0;i<n;i++) if(!gen(x.kids[0],r,c,o,maxlen,depth+1)) return false; return true; }
  case OPT: { int n=c.pick(2,-e); return n?gen(x.kids[0],r,c,o,maxlen,depth+1):true; }
  case AND: case NOT: case PRED: case ACT: case BEGIN_: case END_: return true;
  case STR: o+=x.s; return true;
  case CLS: { string cand; for(char ch:string("aA0_1$ ")) if(x.c[(unsigned char)ch]) cand+=ch; bool kw=x.c.count()==2; if(cand.empty()) for(int i=0;i<256;i++) if(x.c[i]){ cand+=(char)i; break; } if(kw&&G.rules[r].name!="float_string"){ for(int i='A';i<='Z';i++) if(x.c[i]){ o+=(char)(i|0x80); return true; } } if(cand.size()>2) cand.resize(2); int w=cand.size()>1?c.pick(cand.size(),-e):0; o+=cand[w]; return true; }
  case DOT: o+='x'; return true;
  case REF: { const string&n=G.rules[x.a].name; if(n=="_"){ o+='\x01'; return true; } if(n=="__"){ o+='\x03'; return true; } if(n=="WB"||n=="EOF") { o+='\x02'; return n=="EOF"?true:true; } if(n=="EOL"){ o+='\n'; return true; }
      if(n=="line_end"){ o+='\n'; return true; } if(n=="SEMICOLON"){ o+=';'; return true; }
      return gen(G.rules[x.a].body,x.a,c,o,maxlen,depth+1); }
  case BUILTIN: return x.a!=B_NONE;
  }
  return false; }
bool derive(const string&rule,Choices&c,string&out,size_t maxlen){ out.clear(); auto it=G.idx.find(rule); if(it==G.idx.end()){ fprintf(stderr,"derive: no rule %s\n",rule.c_str()); exit(2);} return gen(G.rules[it->second].body,it->second,c,out,maxlen,0); }
} // namespace model
