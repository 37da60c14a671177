#include "trees.h"
#include "enums.h"
using namespace std;
static int deflt(const vector<int>&ts){ for(int t:ts){ switch(t){ case TY_expression: return TY_identifier; case TY_query_clause: return TY_union; case TY_start_point: return TY_all_nodes_scan; case TY_match_hint: return TY_using_join; case TY_merge_action: return TY_on_match; case TY_set_item: return TY_merge_properties; case TY_remove_item: return TY_remove_labels; case TY_statement_option: return TY_explain_option; case TY_query_option: return TY_using_periodic_commit; case TY_schema_command: return TY_create_node_props_index; case TY_map_projection_selector: return TY_map_projection_all_properties; } if(is_concrete(t)) return t; } return -1; }
bool is_leaf_text(int ty){ auto&f=fields(ty); return f.size()==1&&f[0].kind=='='; }
Spec spec_min(int ty,bool full){ Spec s; s.ty=ty; for(auto&f:fields(ty)) switch(f.kind){ case ':': s.n[f.name]=1; break; case '?': s.n[f.name]=full; break; case '*': s.n[f.name]=full?2:0; break; case '+': s.n[f.name]=full?2:1; break; case '!': s.n[f.name]=full; break; case 'o': s.op=ty==TY_unary_operator?(full?"IS_NOT_NULL":"NOT"):(full?"STARTS_WITH":"PLUS"); break; case 'O': s.ops=full?vector<string>{"LT","GTE"}:vector<string>{"LT"}; break; case 'd': s.n[f.name]=full?1:0; break; }
  if(ty==TY_comparison) s.n["arguments"]=s.ops.size()+1; if(ty==TY_pattern_path) s.n["elements"]=full?3:1; if((ty==TY_with||ty==TY_return)&&!full) s.n["projections"]=1; return s; }
int spec_build(const Spec&s,Seg&o,int parent,unsigned&ctr){ int me=o.nodes.size(); o.nodes.push_back(TNode()); { unsigned c=ctr++; TNode&t=o.nodes[me]; t.type=s.ty; t.parent=parent; t.r.s=Pos{c+1,2*c+3,(size_t)c*7}; t.r.e=Pos{c+2,3*c+1,(size_t)c*7+c%5}; }
  auto&F=fields(s.ty); if(is_leaf_text(s.ty)){ string v=s.text; if(v.empty()) v="v"+to_string(me); else if(v=="\x7f") v=""; o.nodes[me].sig=F[0].name+"=\""+v+"\""; return me; }
  // the slots, in schema order, then the children in the order asked for
  struct Slot{ string f; int i; int ty; const Spec*sub; }; vector<Slot> sl; for(auto&f:F){ if(!strchr(":?*+",f.kind)) continue; auto it=s.n.find(f.name); int k=it==s.n.end()?0:it->second; for(int i=0;i<k;i++){ auto q=s.sub.find(f.name+to_string(i)); if(q==s.sub.end()) q=s.sub.find(f.name); Slot x{f.name,i,deflt(f.types),q==s.sub.end()?nullptr:&q->second}; if(s.ty==TY_pattern_path){ x.ty=i%2?TY_rel_pattern:TY_node_pattern; if(x.sub&&x.sub->ty!=x.ty) x.sub=nullptr; } if(x.sub) x.ty=x.sub->ty; sl.push_back(x); } }
  if(s.ty==TY_map||s.ty==TY_case){ // pairs alternate
    string a=s.ty==TY_map?"keys":"predicates"; vector<Slot> pre,ks,vs,post; for(auto&x:sl){ if(x.f==a) ks.push_back(x); else if(x.f=="values") vs.push_back(x); else if(x.f=="expression") pre.push_back(x); else post.push_back(x); } sl=pre; for(size_t i=0;i<ks.size();i++){ sl.push_back(ks[i]); sl.push_back(vs[i]); } for(auto&x:post) sl.push_back(x); }
  int n=sl.size(); vector<int> child(n,-1); vector<int> seq; // seq: slot index, or -2-k for an extra child
  for(int i=0;i<n;i++) seq.push_back(i);
  bool fixed_=s.ty==TY_explain_option||s.ty==TY_profile_option||s.ty==TY_true||s.ty==TY_false||s.ty==TY_null;
  if(s.order==1) reverse(seq.begin(),seq.end());
  if(s.order==2&&!fixed_){ vector<int> q; for(int i:seq){ q.push_back(-2); q.push_back(i); } q.push_back(-3); seq=q; }
  if(s.order==3){ bool one=false; vector<int> q; for(int i:seq){ bool dup=false; for(int j=0;j<i&&!one;j++) if(sl[j].ty==sl[i].ty&&sl[j].f!=sl[i].f&&!sl[j].sub&&!sl[i].sub){ dup=one=true; break; } if(!dup) q.push_back(i); } seq=q; }
  if(s.order==4&&!fixed_){ seq.insert(seq.begin(),-4); seq.push_back(-4); seq.push_back(-5); }
  if(s.order==5&&n>1){ rotate(seq.begin(),seq.begin()+n/2,seq.end()); }
  for(size_t i=0;i<seq.size();i++){ Spec c; int q=seq[i]; if(q>=0) c=sl[q].sub?*sl[q].sub:spec_min(sl[q].ty); else c=spec_min(q==-2?TY_block_comment:q==-3?TY_line_comment:q==-4?TY_error:TY_identifier); int k=spec_build(c,o,me,ctr); o.nodes[me].kids.push_back(k); if(q>=0) child[q]=i; }
  for(int i=0;i<n;i++) if(child[i]<0) for(int j=0;j<i;j++) if(sl[j].ty==sl[i].ty&&child[j]>=0){ child[i]=child[j]; break; }
  string g; for(auto&f:F){ if(g.size()) g+=' '; g+=f.name+"="; auto it=s.n.find(f.name); int k=it==s.n.end()?0:it->second; auto at=[&](int i)->string{ for(int q=0;q<n;q++) if(sl[q].f==f.name&&sl[q].i==i) return "@"+to_string(child[q]); return "-"; }; switch(f.kind){ case ':': case '?': g+= k?at(0):"-"; break; case '~': g+="-"; break; case '*': case '+': g+='['; for(int i=0;i<k;i++){ if(i) g+=','; g+=at(i); } g+=']'; break; case '!': g+= k?"true":"false"; break; case 'o': g+=s.op; break; case 'O': g+='['; for(size_t i=0;i<s.ops.size();i++){ if(i) g+=','; g+=s.ops[i]; } g+=']'; break; case 'd': g+= k==0?"INBOUND":k==1?"OUTBOUND":"BIDIRECTIONAL"; break; } }
  o.nodes[me].sig=g; return me; }
string spec_enc(const Spec&s){ string o=to_string(s.ty)+"("; for(auto&x:s.n) o+=x.first+":"+to_string(x.second)+";"; if(s.op.size()) o+="#o:"+s.op+";"; if(s.ops.size()){ o+="#O:"; for(auto&x:s.ops) o+=x+"/"; o+=";"; } if(s.text.size()) o+="#t:"+tohex(s.text)+";"; if(s.order) o+="#r:"+to_string(s.order)+";"; for(auto&x:s.sub) o+="#s:"+x.first+"="+spec_enc(x.second)+";"; return o+")"; }
static Spec dec(const string&e,size_t&i){ Spec s; s.ty=atoi(e.c_str()+i); i=e.find('(',i)+1; while(e[i]!=')'){ size_t c=e.find(':',i); string k=e.substr(i,c-i); i=c+1; if(k=="#s"){ size_t q=e.find('=',i); string f=e.substr(i,q-i); i=q+1; s.sub[f]=dec(e,i); i++; continue; } size_t q=e.find(';',i); string v=e.substr(i,q-i); i=q+1; if(k=="#o") s.op=v; else if(k=="#O"){ size_t a=0; while(a<v.size()){ size_t b=v.find('/',a); s.ops.push_back(v.substr(a,b-a)); a=b+1; } } else if(k=="#t") s.text=fromhex(v); else if(k=="#r") s.order=atoi(v.c_str()); else s.n[k]=atoi(v.c_str()); } i++; return s; }
Spec spec_dec(const string&e){ size_t i=0; return dec(e,i); }
vector<string> leaf_texts(bool th){ vector<string> v={"\x7f"}; static const char*A[]={"a","'","\"","`","\\","\n","\t","\r"," ","\xc3\xa9","%s","0"}; for(auto a:A){ v.push_back(a); for(auto b:A) v.push_back(string(a)+b); } for(int n:{31,32,33,63,64,65,127,128,255,256,257,1015,1016,1020,1021,1022,1023,1024,1025,2047,2048,4095,4096,5000}) v.push_back(string(n,'x')); if(th) for(int n=1;n<1100;n++) v.push_back(string(n,'y')); return v; }
void spec_all(int ty,bool th,const function<void(const Spec&)>&f){ auto&F=fields(ty);
  if(is_leaf_text(ty)){ for(auto&t:leaf_texts(th)){ Spec s=spec_min(ty); s.text=t; f(s); } return; }
  function<void(size_t,Spec)> go=[&](size_t i,Spec s){ if(i==F.size()){ if((ty==TY_with||ty==TY_return)&&!s.n["include"]&&!s.n["projections"]) return; if(ty==TY_comparison) s.n["arguments"]=s.ops.size()+1; if(ty==TY_map) s.n["values"]=s.n["keys"]; if(ty==TY_case) s.n["values"]=s.n["predicates"]; for(int r=0;r<6;r++){ s.order=r; f(s); } return; }
    const Field&d=F[i]; int lo=0,hi=0; switch(d.kind){ case ':': lo=hi=1; break; case '?': case '!': hi=1; break; case '*': hi=th?4:3; break; case '+': lo=1; hi=th?4:3; break; case 'd': hi=2; break; case 'o': for(auto&o:ty==TY_unary_operator?unary_ops:binary_ops){ Spec t=s; t.op=o; go(i+1,t); } return; case 'O': for(auto&a:comparison_ops){ Spec t=s; t.ops={a}; go(i+1,t); for(auto&b:comparison_ops){ t.ops={a,b}; go(i+1,t); for(auto&c:comparison_ops){ t.ops={a,b,c}; go(i+1,t); } } } return; default: go(i+1,s); return; }
    if((d.name=="values"&&(ty==TY_map||ty==TY_case))||(ty==TY_comparison)){ go(i+1,s); return; }
    if(ty==TY_pattern_path){ for(int k:{1,3,5,7}){ s.n[d.name]=k; go(i+1,s); } return; }
    for(int k=lo;k<=hi;k++){ s.n[d.name]=k; go(i+1,s); } };
  go(0,Spec(spec_min(ty))); }
void spec_nested(int ty,bool th,const function<void(const Spec&)>&f){ for(bool full:{false,true}){ Spec b=spec_min(ty,true); for(auto&d:fields(ty)){ if(!strchr(":?*+",d.kind)) continue; for(int c:concrete_of(d.types)){ Spec s=b; s.sub[d.name]=spec_min(c,full); f(s); if(b.n[d.name]>1){ s=b; s.sub[d.name+"1"]=spec_min(c,full); f(s); }
    if(th||full) for(auto&e:fields(c)){ if(!strchr(":?*+",e.kind)) continue; vector<int> cc=concrete_of(e.types); for(size_t k=0;k<cc.size();k++){ if(!th&&k%9!=(size_t)(ty+c)%9) continue; Spec s2=b; Spec q=spec_min(c,true); q.sub[e.name]=spec_min(cc[k],full); s2.sub[d.name]=q; f(s2); } } } } } }
void gen_trees(Gen&g){ g.begin("forms","every node type through its constructor: every combination of flags, operators, directions, absent and present operands and list lengths up to 3 (thorough 4), in six arrangements of the children (in order, reversed, rotated, with comments, with other children, operands shared)"); for(int t=0;t<TY__COUNT;t++) if(is_concrete(t)) spec_all(t,g.thorough,[&](const Spec&s){ g.emit("",{"T",spec_enc(s)}); });
  g.begin("nested","every operand of every node type holding every permitted type of node, minimal and with all parts, and those holding every permitted type in turn (quick: every ninth of these)"); for(int t=0;t<TY__COUNT;t++) if(is_concrete(t)) spec_nested(t,g.thorough,[&](const Spec&s){ g.emit("",{"T",spec_enc(s)}); });
  g.begin("long lists","lists of up to 2000 elements"); for(int t=0;t<TY__COUNT;t++) if(is_concrete(t)) for(auto&d:fields(t)) if(d.kind=='*'||d.kind=='+') for(int n:{10,64,255,256,257,500,2000}){ if(n>500&&!g.thorough&&t%4) continue; Spec s=spec_min(t,true); int k=n; if(t==TY_pattern_path) k|=1; s.n[d.name]=k; if(t==TY_map) s.n["keys"]=s.n["values"]=k; if(t==TY_case){ s.n["predicates"]=s.n["values"]=k; } if(t==TY_comparison){ s.ops.assign(k,"LTE"); s.n["arguments"]=k+1; } g.emit("",{"T",spec_enc(s)}); } }

const struct cypher_parser_colorization byte_colors={ {"\x01","\x02"},{"\x03","\x04"},{"\x05","\x06"},{"\x0e","\x0f"},{"\x10","\x11"},{"\x12","\x13"},{"\x14","\x15"},{"\x16","\x17"},{"\x18","\x19"} };
string strip_colors(const string&s,string*bad){ string o; vector<char> st; for(unsigned char c:s){ if(c<0x20&&c!='\n'){ bool open=c<=6?c%2==1:(c>=0x0e?c%2==0:true); if(open) st.push_back(c); else { if(st.empty()||st.back()!=c-1){ if(bad->empty()) *bad="colour codes do not match up"; } else st.pop_back(); } continue; } o+=c; } if(st.size()&&bad->empty()) *bad="a colour is left open"; return o; }
string render(const function<int(FILE*)>&f,int*rc){ char*b=nullptr; size_t n=0; FILE*s=open_memstream(&b,&n); *rc=f(s); fclose(s); string o(b,n); free(b); return o; }
static string escd(const string&d){ string o; for(char c:d) switch(c){ case '\a': o+="\\a"; break; case '\b': o+="\\b"; break; case '\f': o+="\\f"; break; case '\n': o+="\\n"; break; case '\r': o+="\\r"; break; case '\t': o+="\\t"; break; case '\v': o+="\\v"; break; default: o+=c; } return o; }
string read_render(const string&out,vector<Entry>&v,size_t*longest){ size_t i=0; size_t off=0; while(i<out.size()){ size_t e=out.find('\n',i); if(e==string::npos) return "the last line is not ended"; string l=out.substr(i,e-i); i=e+1; if(longest) *longest=max(*longest,l.size());
    size_t p=0; while(p<l.size()&&l[p]==' ') p++; 
    if(off&&p>=off&&v.size()){ v.back().detail+=l.substr(off); continue; }
    Entry x; auto num=[&](unsigned long&n){ if(p>=l.size()||!isdigit(l[p])) return false; n=0; while(p<l.size()&&isdigit(l[p])) n=n*10+(l[p++]-'0'); return true; }; unsigned long a,b,c; if(p>=l.size()||l[p++]!='@'||!num(a)) return "a line without a node number: ["+l+"]"; size_t q=p; while(p<l.size()&&l[p]==' ') p++; if(p-q<2) return "number and range run together: ["+l+"]"; if(!num(b)||l.compare(p,2,"..")) return "a line without a range: ["+l+"]"; p+=2; if(!num(c)) return "a line without a range: ["+l+"]"; q=p; while(p<l.size()&&l[p]==' ') p++; if(p-q<2) return "range and type run together: ["+l+"]"; while(l.compare(p,2,"> ")==0){ x.depth++; p+=2; } q=l.find("  ",p); x.type= q==string::npos?l.substr(p):l.substr(p,q-p); off=0; if(q!=string::npos){ p=q; while(p<l.size()&&l[p]==' ') p++; off=p; x.detail=l.substr(p); } x.ord=a; x.s=b; x.e=c; v.push_back(x); }
  return ""; }
void expected_render(const Seg&s,const vector<int>&roots,const vector<unsigned>&ord,vector<Entry>&v){ function<void(int,int)> go=[&](int n,int d){ const TNode&t=s.nodes[n]; Entry x; x.ord=ord[n]; x.s=t.r.s.off; x.e=t.r.e.off; x.depth=d; const char*ts=t.type<TY__COUNT?tyinfo[t.type].str:"?"; x.type=ts?ts:"?"; x.detail=escd(detail(s,n,ord)); v.push_back(x); for(int k:t.kids) go(k,d+1); }; for(int r:roots) go(r,0); }
string cmp_render(const vector<Entry>&w,const vector<Entry>&g,bool ord){ for(size_t i=0;i<w.size()&&i<g.size();i++){ const Entry&a=w[i],&b=g[i]; if(ord&&a.ord!=b.ord) return fmt("entry %zu is numbered %u, not %u",i,b.ord,a.ord); if(a.type!=b.type) return fmt("entry %zu is [%s], not [%s]",i,b.type.c_str(),a.type.c_str()); if(a.s!=b.s||a.e!=b.e) return fmt("entry %zu has range %zu..%zu, not %zu..%zu",i,b.s,b.e,a.s,a.e); if(a.depth!=b.depth) return fmt("entry %zu at depth %d, not %d",i,b.depth,a.depth); 
    // leading blanks of a detail are indistinguishable from padding
    auto lst=[](const string&x){ size_t q=x.find_first_not_of(' '); return q==string::npos?string():x.substr(q); }; if(lst(a.detail)!=lst(b.detail)) return fmt("entry %zu (%s) is [%s], expected [%s]",i,a.type.c_str(),esc(b.detail).c_str(),esc(a.detail).c_str()); }
  if(w.size()!=g.size()) return fmt("%zu entries, expected %zu",g.size(),w.size()); return ""; }
