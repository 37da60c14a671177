// P08: grouping of operator expressions, against a precedence climber of its own.
#include "util.h"
#include "walk.h"
using namespace std;
typedef const cypher_astnode_t*NP;
namespace {
struct Op{ const char*tok,*text; int prec; char kind; const cypher_operator_t*const*op; }; // kind: l left, r right, c comparison chain
const Op BIN[]={ {"OR","OR",1,'l',&CYPHER_OP_OR},{"XOR","XOR",2,'l',&CYPHER_OP_XOR},{"AND","AND",3,'l',&CYPHER_OP_AND},{"=","=",5,'l',&CYPHER_OP_EQUAL},{"<>","<>",5,'l',&CYPHER_OP_NEQUAL},{"<","<",6,'c',&CYPHER_OP_LT},{">",">",6,'c',&CYPHER_OP_GT},{"<=","<=",6,'c',&CYPHER_OP_LTE},{">=",">=",6,'c',&CYPHER_OP_GTE},{"+","+",7,'l',&CYPHER_OP_PLUS},{"-","-",7,'l',&CYPHER_OP_MINUS},{"*","*",8,'l',&CYPHER_OP_MULT},{"/","/",8,'l',&CYPHER_OP_DIV},{"%","%",8,'l',&CYPHER_OP_MOD},{"^","^",9,'r',&CYPHER_OP_POW},{"=~","=~",11,'l',&CYPHER_OP_REGEX},{"IN","IN",11,'l',&CYPHER_OP_IN},{"CONTAINS","CONTAINS",11,'l',&CYPHER_OP_CONTAINS},{"STARTS","STARTS WITH",11,'l',&CYPHER_OP_STARTS_WITH},{"ENDS","ENDS WITH",11,'l',&CYPHER_OP_ENDS_WITH} };
const Op PRE[]={ {"NOT","NOT",4,'p',&CYPHER_OP_NOT},{"-","-",10,'p',&CYPHER_OP_UNARY_MINUS},{"+","+",10,'p',&CYPHER_OP_UNARY_PLUS} };
const Op POST[]={ {"ISNULL","IS NULL",11,'u',&CYPHER_OP_IS_NULL},{"NOTNULL","IS NOT NULL",11,'u',&CYPHER_OP_IS_NOT_NULL},{".p",".p",13,'.',0},{"[0]","[0]",12,'[',0},{"[0..1]","[0..1]",12,'s',0},{"[..1]","[..1]",12,'s',0},{"[0..]","[0..]",12,'s',0},{"[..]","[..]",12,'s',0},{":L",":L",13,':',0},{"{.p}","{.p}",12,'{',0},{"{.*,q}","{.*,q}",12,'{',0} };
const Op*find(const Op*a,size_t n,const string&t){ for(size_t i=0;i<n;i++) if(t==a[i].tok) return a+i; return nullptr; }
#define N_OF(a) (sizeof(a)/sizeof*(a))
struct Pratt{ vector<string> t; size_t i=0; int nodes=0;
  string cur()const{ return i<t.size()?t[i]:""; }
  string climb(int min){ string l; if(const Op*p=find(PRE,N_OF(PRE),cur())){ i++; nodes++; l="("+string(p->text)+" "+climb(p->prec)+")"; if(p->op==&CYPHER_OP_UNARY_MINUS||p->op==&CYPHER_OP_UNARY_PLUS) l="(u"+l.substr(1); }
    else if(cur()=="("){ i++; l=climb(0); i++; } else { l=cur(); i++; nodes++; }
    for(;;){ string c=cur(); if(c.empty()||c==")") return l;
      if(const Op*p=find(POST,N_OF(POST),c)){ if(p->prec<min) return l; i++; nodes++; if(p->kind=='u') l="("+l+" "+p->text+")"; else if(p->kind=='.'){ l="("+l+" .p)"; nodes++; } else if(p->kind==':'){ l="("+l+" :L"; nodes++; while(cur()==":L"){ i++; nodes++; l+=" :L"; } l+=")"; } else if(p->kind=='{'){ l="("+l+" "+c+")"; nodes+=c=="{.p}"?2:3; } else { l="("+l+" "+c+")"; for(char ch:c) if(isdigit(ch)) nodes++; } continue; }
      const Op*p=find(BIN,N_OF(BIN),c); if(!p||p->prec<min) return l;
      if(p->kind=='c'){ nodes++; string x="("+l; while((p=find(BIN,N_OF(BIN),cur()))&&p->kind=='c'){ i++; x+=string(" ")+p->text+" "+climb(7); } l=x+")"; continue; }
      i++; nodes++; string r=climb(p->kind=='l'?p->prec+1:p->prec); l="("+l+" "+p->text+" "+r+")"; } } };
string ops(const cypher_operator_t*o,bool un){ for(auto&x:BIN) if(*x.op==o) return x.text; for(auto&x:PRE) if(*x.op==o) return un&&x.kind=='p'&&x.prec==10?string("u")+x.text:x.text; for(auto&x:POST) if(x.op&&*x.op==o) return x.text; return "?"; }
string str(NP n){ if(!n) return "nothing"; switch(impl_type(n)){
  case TY_identifier: return cypher_ast_identifier_get_name(n); case TY_integer: return cypher_ast_integer_get_valuestr(n);
  case TY_unary_operator: { auto*o=cypher_ast_unary_operator_get_operator(n); string a=str(cypher_ast_unary_operator_get_argument(n)); return o==CYPHER_OP_IS_NULL||o==CYPHER_OP_IS_NOT_NULL?"("+a+" "+ops(o,true)+")":"("+ops(o,true)+" "+a+")"; }
  case TY_binary_operator: return "("+str(cypher_ast_binary_operator_get_argument1(n))+" "+ops(cypher_ast_binary_operator_get_operator(n),false)+" "+str(cypher_ast_binary_operator_get_argument2(n))+")";
  case TY_comparison: { unsigned k=cypher_ast_comparison_get_length(n); string s="("+str(cypher_ast_comparison_get_argument(n,0)); for(unsigned i=0;i<k;i++) s+=" "+ops(cypher_ast_comparison_get_operator(n,i),false)+" "+str(cypher_ast_comparison_get_argument(n,i+1)); return s+")"; }
  case TY_property_operator: return "("+str(cypher_ast_property_operator_get_expression(n))+" ."+cypher_ast_prop_name_get_value(cypher_ast_property_operator_get_prop_name(n))+")";
  case TY_subscript_operator: return "("+str(cypher_ast_subscript_operator_get_expression(n))+" ["+str(cypher_ast_subscript_operator_get_subscript(n))+"])";
  case TY_slice_operator: { NP s=cypher_ast_slice_operator_get_start(n),e=cypher_ast_slice_operator_get_end(n); return "("+str(cypher_ast_slice_operator_get_expression(n))+" ["+(s?str(s):"")+".."+(e?str(e):"")+"])"; }
  case TY_labels_operator: { string s="("+str(cypher_ast_labels_operator_get_expression(n)); for(unsigned i=0;i<cypher_ast_labels_operator_nlabels(n);i++) s+=string(" :")+cypher_ast_label_get_name(cypher_ast_labels_operator_get_label(n,i)); return s+")"; }
  case TY_map_projection: { string s="("+str(cypher_ast_map_projection_get_expression(n))+" {"; for(unsigned i=0;i<cypher_ast_map_projection_nselectors(n);i++){ if(i) s+=","; s+=str(cypher_ast_map_projection_get_selector(n,i)); } return s+"})"; }
  case TY_map_projection_property: return string(".")+cypher_ast_prop_name_get_value(cypher_ast_map_projection_property_get_prop_name(n)); case TY_map_projection_identifier: return str(cypher_ast_map_projection_identifier_get_identifier(n)); case TY_map_projection_all_properties: return ".*";
  case TY_map_projection_literal: return string(cypher_ast_prop_name_get_value(cypher_ast_map_projection_literal_get_prop_name(n)))+":"+str(cypher_ast_map_projection_literal_get_expression(n));
  case TY_collection: { string s="COLL["; for(unsigned i=0;i<cypher_ast_collection_length(n);i++){ if(i) s+=","; s+=str(cypher_ast_collection_get(n,i)); } return s+"]"; }
  case TY_apply_operator: { string s=cypher_ast_function_name_get_value(cypher_ast_apply_operator_get_func_name(n)); s+="("; for(unsigned i=0;i<cypher_ast_apply_operator_narguments(n);i++){ if(i) s+=","; s+=str(cypher_ast_apply_operator_get_argument(n,i)); } return s+")"; }
  case TY_map: { string s="{"; for(unsigned i=0;i<cypher_ast_map_nentries(n);i++){ if(i) s+=","; s+=string(cypher_ast_prop_name_get_value(cypher_ast_map_get_key(n,i)))+":"+str(cypher_ast_map_get_value(n,i)); } return s+"}"; }
  case TY_case: { string s="CASE "; if(NP e=cypher_ast_case_get_expression(n)) s+=str(e)+" "; for(unsigned i=0;i<cypher_ast_case_nalternatives(n);i++) s+="WHEN "+str(cypher_ast_case_get_predicate(n,i))+" THEN "+str(cypher_ast_case_get_value(n,i))+" "; if(NP d=cypher_ast_case_get_default(n)) s+="ELSE "+str(d)+" "; return s+"END"; }
  default: { string s=string("<")+tyinfo[impl_type(n)].name; for(unsigned i=0;i<cypher_astnode_nchildren(n);i++) s+=" "+str(cypher_astnode_get_child(n,i)); return s+">"; } } }
int count(NP n){ int k=1; for(unsigned i=0;i<cypher_astnode_nchildren(n);i++) k+=count(cypher_astnode_get_child(n,i)); return k; }
// the expression on its own, and as a part of another one ('@' stands for it)
struct Wrap{ const char*text,*want; int nodes; };
const Wrap WRAPS[]={ {"@","@",0},{"(@)","@",0},{"q ^ (@) ^ r","(q ^ (@ ^ r))",4},{"q - [1,@] - r","((q - COLL[1,@]) - r)",6},{"q OR f(@) AND r","(q OR (f(@) AND r))",6},{"NOT {k:@} = r","(NOT ({k:@} = r))",5},{"q < CASE WHEN @ THEN @ ELSE @ END < r","(q < CASE WHEN @ THEN @ ELSE @ END < r)",4},{"- a[@] . p","(u- ((a [@]) .p))",5},{"q * a[@..@] * r","((q * (a [@..@])) * r)",6},{"q =~ a{.*,k:@} = r","((q =~ (a {.*,k:@})) = r)",9},{"CASE @ WHEN @ THEN 1 END IS NULL","(CASE @ WHEN @ THEN 1 END IS NULL)",3} };
string subst(const string&t,const string&e){ string o; for(char c:t) if(c=='@') o+=e; else o+=c; return o; }
}
static string p08(const Case&c){ Pratt p; size_t i=0; const string&in=c.in; while(i<=in.size()){ size_t j=in.find(' ',i); if(j==string::npos) j=in.size(); if(j>i) p.t.push_back(in.substr(i,j-i)); i=j+1; }
  string want=p.climb(0); if(p.i!=p.t.size()) return ""; // not an expression
  string text; for(auto&t:p.t){ const Op*o; string s=t; if((o=find(BIN,N_OF(BIN),t))||(o=find(PRE,N_OF(PRE),t))||(o=find(POST,N_OF(POST),t))) s=o->text; if(text.size()) text+=' '; text+=s; }
  const Wrap&w=WRAPS[atoi(c.p[0].c_str())]; text=subst(w.text,text); string full=subst(w.want,want); int times=0; for(const char*q=w.text;*q;q++) times+=*q=='@'; int nodes=p.nodes*times+w.nodes; text="RETURN "+text+" AS z;";
  cypher_parse_result_t*x=cypher_uparse(text.data(),text.size(),0,0,0); impl::execs++; if(!x) return "no result"; string r; if(cypher_parse_result_nerrors(x)) r=string("an expression is rejected: ")+cypher_parse_error_message(cypher_parse_result_get_error(x,0)); else { NP st=cypher_parse_result_get_directive(x,0); NP q=st?cypher_ast_statement_get_body(st):0; NP rt=q?cypher_ast_query_get_clause(q,0):0; NP pr=rt?cypher_ast_return_get_projection(rt,0):0; NP e=pr?cypher_ast_projection_get_expression(pr):0; string got=str(e); if(got!=full) r="grouped as "+got+", expected "+full; else if(count(e)!=nodes) r=fmt("%d nodes, expected %d, for ",count(e),nodes)+full; }
  cypher_parse_result_free(x); if(!r.empty()) r=text+": "+r; tally("states"); tally("expressions"); if(p.t.size()>3) tally("nontrivial"); tally_max("longest_tokens",p.t.size()); return r; }
// A text with ( a ) - - ( b ) may be a pattern instead.
static bool maybe_pattern(const vector<string>&t){ for(size_t i=0;i+3<t.size();i++) if(t[i]==")"){ size_t j=i+1; if(t[j]=="<") j++; if(j+2<t.size()&&t[j]=="-"&&t[j+1]=="-"&&(t[j+2]=="("||t[j+2]==">")) return true; } return false; }
namespace { struct Deco{ vector<const char*> pre[8],post[8]; int open[8]={0},close[8]={0}; vector<const char*> gpost[8]; }; }
// n operands, the given operators; all ways to add at most k prefix operators, postfix operators and groups
static void decorate(Gen&g,const vector<string>&op,int k,const vector<const char*>&pre,const vector<const char*>&post,int wrap){ int n=op.size()+1; Deco d; auto out=[&]{ vector<string> t; for(int i=0;i<n;i++){ if(i) t.push_back(op[i-1]); for(int q=0;q<d.open[i];q++) t.push_back("("); for(auto*s:d.pre[i]) t.push_back(s); t.push_back(string(1,char('a'+i))); for(auto*s:d.post[i]) t.push_back(s); for(int q=0;q<d.close[i];q++) t.push_back(")"); for(auto*s:d.gpost[i]) t.push_back(s); } if(maybe_pattern(t)) return; string s; for(auto&x:t){ if(s.size()) s+=' '; s+=x; } g.emit(s,{to_string(wrap)}); };
  // decorations are added in a fixed order, so that no set is made twice
  struct D{ int kind,i,j; const char*s; }; vector<D> all; for(int i=0;i<n;i++){ for(auto*s:pre) all.push_back({0,i,0,s}); for(auto*s:post) all.push_back({1,i,0,s}); } for(int i=0;i<n;i++) for(int j=i;j<n;j++) if(!(i==0&&j==n-1&&n>2)){ if(i==j) continue; all.push_back({2,i,j,0}); } if(n>1) for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) for(auto*s:post) all.push_back({3,i,j,s}); 
  function<void(size_t,int)> go=[&](size_t from,int left){ out(); if(!left) return; for(size_t x=from;x<all.size();x++){ D&e=all[x]; 
      if(e.kind==0) d.pre[e.i].push_back(e.s); else if(e.kind==1) d.post[e.i].push_back(e.s); else { // groups must nest
        bool ok=true; for(int a=0;a<n&&ok;a++){ } d.open[e.i]++; d.close[e.j]++; if(e.kind==3) d.gpost[e.j].push_back(e.s); 
        // crossing groups: depth pairs are matched by order, any balanced placement is an expression of its own; only balance matters
        int dep=0; for(int a=0;a<n;a++){ dep+=d.open[a]; dep-=d.close[a]; if(dep<0) ok=false; } if(!ok){ d.open[e.i]--; d.close[e.j]--; if(e.kind==3) d.gpost[e.j].pop_back(); continue; } }
      go(e.kind<=1?x:x+1,left-1);
      if(e.kind==0) d.pre[e.i].pop_back(); else if(e.kind==1) d.post[e.i].pop_back(); else { d.open[e.i]--; d.close[e.j]--; if(e.kind==3) d.gpost[e.j].pop_back(); } } };
  go(0,k); }
static void g08(Gen&g){ vector<string> all; for(auto&o:BIN) all.push_back(o.tok); const vector<string> rep={"OR","XOR","AND","=","<",">=","+","*","^","IN"}; const vector<const char*> pre={"NOT","-","+"}; vector<const char*> post; for(auto&o:POST) post.push_back(o.tok); const vector<const char*> pre2={"NOT","-"},post2={"ISNULL",".p","[0]",":L","{.p}"};
  auto seqs=[&](const vector<string>&A,int len,const function<void(const vector<string>&)>&f){ vector<string> v(len); function<void(int)> go=[&](int i){ if(i==len){ f(v); return; } for(auto&a:A){ v[i]=a; go(i+1); } }; go(0); };
  g.begin("one operand",fmt("one operand with every combination of up to %d prefix and postfix operators and groups",g.t(4,5))); decorate(g,{},g.t(4,5),pre,post,0);
  g.begin("two operands",fmt("every binary operator with every combination of up to %d of every prefix operator, postfix operator and group",g.t(3,4))); seqs(all,1,[&](const vector<string>&v){ decorate(g,v,g.t(3,3),pre,post,0); if(g.thorough) decorate(g,v,4,pre2,post2,0); });
  g.begin("three operands",fmt("every pair of binary operators with up to %d of every prefix and postfix operator and group",g.t(1,2))); seqs(all,2,[&](const vector<string>&v){ decorate(g,v,g.t(1,2),pre,post,0); });
  g.begin("three operands of each class",fmt("every pair of one binary operator per class of precedence with up to %d of one prefix and postfix operator per class",g.t(2,3))); seqs(rep,2,[&](const vector<string>&v){ decorate(g,v,g.t(2,3),pre2,post2,0); });
  g.begin("four operands","every triple of binary operators"+string(g.thorough?" with up to 1 of every prefix and postfix operator and group":"")); seqs(all,3,[&](const vector<string>&v){ decorate(g,v,g.t(0,1),pre,post2,0); });
  g.begin("four operands of each class","every triple of one binary operator per class with up to 1 decoration (thorough 2)"); seqs(rep,3,[&](const vector<string>&v){ decorate(g,v,g.t(1,2),pre2,g.thorough?vector<const char*>{"ISNULL",".p"}:post2,0); });
  g.begin("five operands",g.thorough?"every sequence of four binary operators, and with one decoration for one operator per class":"every sequence of four binary operators, one per class"); if(g.thorough){ seqs(all,4,[&](const vector<string>&v){ decorate(g,v,0,{},{},0); }); } seqs(rep,4,[&](const vector<string>&v){ decorate(g,v,g.t(0,1),{"NOT"},{"ISNULL"},0); });
  if(g.thorough){ g.begin("six operands","every sequence of five binary operators, one per class"); seqs(rep,5,[&](const vector<string>&v){ decorate(g,v,0,{},{},0); }); }
  g.begin("within others","every pair of operators, one per class, with up to one decoration, as a part of each of 10 other expressions"); for(size_t w=1;w<N_OF(WRAPS);w++){ seqs(rep,g.t(1,2),[&](const vector<string>&v){ decorate(g,v,1,pre2,post2,w); }); seqs(all,2,[&](const vector<string>&v){ decorate(g,v,0,{},{},w); }); decorate(g,{},2,pre,post,w); }
  g.begin("long chains",fmt("one operator repeated up to %d times, and alternating with every other",g.t(40,150))); for(auto&a:all) for(auto&b:all) for(int n: a==b?vector<int>{7,16,17,33,g.t(40,150)}:vector<int>{5,g.t(8,20)}){ string s="a"; for(int i=0;i<n;i++) s+=" "+(i%2?b:a)+" "+string(1,char('b'+i%24)); g.emit(s,{"0"}); }
  for(const char*p:{"NOT","-","+"}) for(int n=2;n<g.t(40,150);n+=n<10?1:7){ string s; for(int i=0;i<n;i++) s+=string(p)+" "; g.emit(s+"a",{"0"}); g.emit(s+"a ^ b",{"0"}); } for(auto*p:post) for(int n=2;n<g.t(40,150);n+=n<10?1:7){ string s="a"; for(int i=0;i<n;i++) s+=string(" ")+p; g.emit(s,{"0"}); g.emit("b * - "+s,{"0"}); } for(int n=1;n<g.t(14,30);n++){ string s=string(n,' '),o; for(int i=0;i<n;i++) o+="( "; o+="a + b"; for(int i=0;i<n;i++) o+=" )"; if(n<=g.t(10,12)){ g.emit(o,{"0"}); g.emit("c ^ "+o+" ^ d",{"0"}); } } }
static Reg r08({"P08","model_checking",g08,p08,"a case is a sequence of operands, operators and parentheses, parsed alone or within another expression; non-trivial: more than three tokens","the precedences are those documented with the operators in the public header's source; sequences that also read as a pattern, ( a ) - - ( b ), are left out; NOT between two operands is left out",20});
