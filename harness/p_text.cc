// Properties of the outcome of a parse as a function of its input text.
#include "util.h"
#include "walk.h"
#include <algorithm>
using namespace std;
using enums::contexts;
static const char*MODEL_ASSUME="the reference grammar under model/ states the language; inputs beyond the stated bounds are not explored";
static int fl(const Case&c){ return c.p.empty()?0:atoi(c.p[0].c_str()); }
static const vector<string> INS={"'","(","[","{"," ",";","/*","//","\n","RETURN ","x","`","*",".","1","\"",")","}","]",",",":","-","\\"};
static const vector<string> INS_Q={"'","(",";"," ","x","/*","\n","RETURN ","`","."};
static void each_seed(const function<void(const string&)>&f,bool valid=true,bool bad=true,bool multi=true){ if(valid) for(auto&s:enums::seeds()) f(s); if(multi) for(auto&s:enums::multi_seeds()) f(s); if(bad) for(auto&s:enums::bad_seeds()) f(s); }
static void g_seeds(Gen&g,bool stmt=true){ g.begin("texts","every listed text of the language, of erroneous input and of several statements, with and without the statements-only flag"); each_seed([&](const string&s){ g.emit(s); if(stmt) g.emit(s,{"2"}); }); }
static void g_edits(Gen&g,int quick,bool stmt=false){ g.begin("edits","every single token deletion, duplication, swap, truncation, insertion and replacement in the listed texts"); each_seed([&](const string&s){ enums::edits(s,g.thorough?INS:INS_Q,[&](const string&t){ g.emit(t); if(stmt) g.emit(t,{"2"}); }, g.thorough||quick); });
  if(g.thorough){ g.begin("edits2","every pair of token edits in the listed texts of at most 9 tokens"); each_seed([&](const string&s){ if(enums::tokens(s).size()<=9) enums::edits(s,INS_Q,[&](const string&t){ enums::edits(t,INS_Q,[&](const string&u){ g.emit(u); },false); },false); }); } }
static void g_derive(Gen&g,int dq,int dt,bool tight=true,bool spaced=true){ int d=g.t(dq,dt); g.begin("derived",fmt("every sentence of each of the %zu rule contexts with at most %d deviations from the shortest derivation (length up to 120; at most 400000 derivations per context)",contexts.size(),d)); for(auto&c:contexts) enums::sentences(c,d,120,[&](const string&m){ if(tight) g.emit(enums::layout(m,0)); if(spaced) g.emit(enums::layout(m,1)); },400000); }
static void g_pairs(Gen&g){ g.begin("pairs","all ordered pairs of the listed texts"); auto&S=enums::seeds(); auto&B=enums::bad_seeds(); vector<string> v(S.begin(),S.end()); v.insert(v.end(),B.begin(),B.end()); for(size_t i=0;i<v.size();i++) for(size_t j=0;j<v.size();j++) g.emit(v[i]+"\n"+v[j]); }

// ---- P04 segmentation ----------------------------------------------------------
// independent splitter: ends of the segments of a text in which statements start at statement
// boundaries and contain no syntax error
static bool split_ref(const string&t,bool commands,vector<pair<size_t,bool>>&ends){ // (end offset, ended by the end of input)
  size_t i=0,n=t.size(); auto ws=[&](size_t k){ return t[k]==' '||t[k]=='\t'||t[k]=='\n'||(t[k]=='\r'&&k+1<n&&t[k+1]=='\n'); };
  auto comment=[&](size_t&k){ if(k+1<n&&t[k]=='/'&&t[k+1]=='/'){ while(k<n&&t[k]!='\n'&&!(t[k]=='\r'&&k+1<n&&t[k+1]=='\n')) k++; if(k<n) k+= t[k]=='\r'?2:1; return true; } if(k+1<n&&t[k]=='/'&&t[k+1]=='*'){ size_t e=t.find("*/",k+2); if(e==string::npos) return false; k=e+2; return true; } return false; };
  while(i<n){ size_t k=i; for(;;){ if(k<n&&ws(k)) k++; else if(!comment(k)) break; }
    if(k>=n){ ends.push_back({n,true}); return true; }
    if(t[k]==';'){ ends.push_back({k+1,false}); i=k+1; continue; }
    bool cmd=commands&&t[k]==':'; 
    for(;;){ if(k>=n){ ends.push_back({n,true}); return true; } char c=t[k];
      if(c==';'){ k++; ends.push_back({k,false}); break; }
      if(cmd&&c=='\\'){ // a continued line or an escape
        size_t q=k+1; bool cont=false; size_t z=q; for(;;){ if(z<n&&(t[z]==' '||t[z]=='\t')) z++; else if(z+1<n&&t[z]=='/'&&t[z+1]=='*'){ size_t e=t.find("*/",z+2); if(e==string::npos||t.substr(z,e-z).find('\n')!=string::npos) break; z=e+2; } else break; } if(z<n&&(t[z]=='\n'||(t[z]=='\r'&&z+1<n&&t[z+1]=='\n'))){ cont=true; z+= t[z]=='\r'?2:1; } else if(z+1<n&&t[z]=='/'&&t[z+1]=='/'){ cont=true; comment(z); } if(cont){ k=z; continue; } k+=2; continue; }
      if(cmd&&c=='\n'){ k++; ends.push_back({k,false}); break; }
      if(cmd&&c=='\r'&&k+1<n&&t[k+1]=='\n'){ k+=2; ends.push_back({k,false}); break; }
      if(cmd&&c=='/'&&k+1<n&&t[k+1]=='/'){ size_t z=k; comment(z); ends.push_back({z,z>=n&&t[n-1]!='\n'}); k=z; break; }
      if(c=='\''||c=='"'){ size_t z=k+1; while(z<n&&t[z]!=c){ if(t[z]=='\\'&&z+1<n) z++; z++; } if(z>=n) return false; k=z+1; continue; }
      if(c=='`'&&!cmd){ size_t z=t.find('`',k+1); if(z==string::npos) return false; k=z+1; continue; }
      if(c=='/'&&k+1<n&&(t[k+1]=='*'||t[k+1]=='/')){ if(!comment(k)) return false; continue; }
      k++; }
    i=k; }
  return true; }
static string p04(const Case&c){ int f=fl(c); Out b=impl::parse(c.in,f); if(!b.bad.empty()) return b.bad; string r=invariants(c.in,b,Pos{1,1,0},f); if(!r.empty()) return r;
  Out a=model::parse(c.in,f); if(!(r=diff(a,b,C_RET|C_SEG|C_RANGE|C_EOF|C_DIR|C_LAST)).empty()) return r;
  if(clean(b)&&!odd_option(b)){ vector<pair<size_t,bool>> e; if(split_ref(c.in,!(f&FL_STMT),e)){ tally("split_by_independent_scanner"); if(e.size()!=b.segs.size()) return fmt("%zu segments, an independent scan for separators finds %zu",b.segs.size(),e.size()); for(size_t i=0;i<e.size();i++){ if(b.segs[i].r.e.off!=e[i].first) return fmt("segment %zu ends at %zu, its separator ends at %zu",i,b.segs[i].r.e.off,e[i].first); if(i+1<e.size()&&b.segs[i].eof) return "early end of input"; } } }
  if(a.segs.size()>1) tally("nontrivial"); tally_max("segments_max",a.segs.size()); return ""; }
static void big_texts(bool all,const function<void(const string&)>&f);
static void g04(Gen&g){ g.begin("big","texts with 255..257 and 65535..65537 lines, columns or bytes before and within each kind of token"); big_texts(false,[&](const string&s){ g.emit(s); }); g_seeds(g); g_edits(g,1,true);
  g.begin("separators",fmt("all sequences of up to %d fragments from an alphabet of statements, commands, separators, quotes, comments and line ends",g.t(4,5))); enums::strings({"RETURN 1","RETURN ';'","RETURN `;`",":a",":b ';' c","foo",";","\n","// ;\n","/* ; */"," ","'"},g.t(4,5),[&](const string&s){ g.emit(s); g.emit(s,{"2"}); },1);
  g.begin("command chars",fmt("all commands ':a' followed by up to %d characters of a structural alphabet",g.t(5,7))); enums::strings({"x"," ","\\",";","\n","'","/","*","\r"},g.t(4,5),[&](const string&s){ g.emit(":a"+s); g.emit(":a"+s+"\nRETURN 1;"); },1);
  g_pairs(g);
  g.begin("many","texts of 1..40 statements, in each of 4 forms"); for(int n=1;n<=40;n++) for(auto*u:{"RETURN 1;",":a\n","x;","MATCH (n)\nRETURN n;\n"}){ string s; for(int i=0;i<n;i++) s+=u; g.emit(s); g.emit(s+"RETURN 2"); } }
static Reg r04({"P04","model_checking",g04,p04,"a case is an input text (and flags), compared with the reference model and an independent scan for separators; non-trivial: more than one segment",MODEL_ASSUME,10});

// ---- P05 positions -------------------------------------------------------------
static string p05(const Case&c){ int f=fl(c); Out b=impl::parse(c.in,f); if(!b.bad.empty()) return b.bad; string r=invariants(c.in,b,Pos{1,1,0},f); if(!r.empty()) return r; Out a=model::parse(c.in,f); 
  for(auto&s:b.segs) for(auto&n:s.nodes){ string x=c.in.substr(n.r.s.off,n.r.e.off-n.r.s.off); tally("node_ranges"); auto q=n.sig.find('"'); string v= q==string::npos?"":n.sig.substr(q+1,n.sig.size()-q-2);
      if((n.type==TY_integer||n.type==TY_float||n.type==TY_line_comment||n.type==TY_block_comment||n.type==TY_error)&&x!=v) return fmt("range of %s covers [%s], its value is [%s]",tyinfo[n.type].name,esc(x).c_str(),esc(v).c_str());
      if((n.type==TY_identifier||n.type==TY_prop_name)&&x!=v&&x!="`"+v+"`"&&!(x.find(v)==0&&x.find_first_not_of(" \t\r\n",v.size())==string::npos)&&x.find(v)==string::npos) return fmt("range of %s covers [%s], its value is [%s]",tyinfo[n.type].name,esc(x).c_str(),esc(v).c_str()); }
  if(c.in.find('\n')!=string::npos) tally("nontrivial");
  return diff(a,b,C_RET|C_SEG|C_RANGE|C_NRANGE|C_ERRPOS|C_LAST|C_TREE); }
// texts with more lines, columns and bytes than 8, 16 bits count; f gets each
static void big_texts(bool all,const function<void(const string&)>&f){ for(size_t n:{255,256,257,65535,65537}){ if(!all&&n==65535) continue; string nl(n,'\n'),sp(n,' '),as(n,'a'); if(n<300) f("RETURN '"+nl+"' AS b, c;\n x"); if(all||n<300){ f("RETURN `"+nl+"` AS b, c; x"); f("RETURN '"+as+"' AS b, c; x"); f(":a '"+as+"' b\nx"); f("x"+sp+";RETURN 1 x"); f("x"+nl+"RETURN 1 x"); } f(nl+"RETURN 1, a;\nfoo\n("); f(sp+"RETURN 1, a; foo ("); f("RETURN /*"+nl+"*/ b, c ; x\nRETURN 1"); f("RETURN "+as+", c; x ;"); f("RETURN 1 //"+as+"\n, c; x ;"); } if(!all) return; string st; for(int i=0;i<7300;i++) st+="RETURN 1;"; f(st+"\nRETURN x y"); }
static void g05(Gen&g){ g_seeds(g); g_edits(g,0); g_derive(g,2,3);
  g.begin("big","texts with 255..257 and 65535..65537 lines, columns or bytes before and within each kind of token"); big_texts(true,[&](const string&s){ g.emit(s); });
  g.begin("line breaks","the listed texts with every blank, and every set of token gaps at one place, replaced by each of \\n, \\r\\n, \\t, \\r, two line breaks and comments with line breaks"); each_seed([&](const string&s){ vector<string> v=enums::tokens(s); for(size_t i=0;i<=v.size();i++) for(string x:{"\n","\r\n","\n\n","/*\n*/","// x\n","/*\r\n\n*/","\r"}){ string o; for(size_t k=0;k<v.size();k++){ if(k==i) o+=x; o+=v[k]; } if(i==v.size()) o+=x; g.emit(o); } });
  g.begin("breaks inside",fmt("strings, names and comments holding every sequence of up to %d of a b \\n \\r\\n \\r quote",g.t(3,5))); enums::strings({"a","\n","\r\n","\r","\\n","\\"},g.t(3,5),[&](const string&s){ for(auto*q:{"'","\"","`"}) g.emit(string("RETURN ")+q+s+q+" AS b, c ;\n x"); g.emit("RETURN /*"+s+"*/ 1, a"); g.emit("RETURN 1 //"+s+"\n, a ;x"); g.emit(":a '"+s+"' b\nRETURN x"); g.emit("!"+s+"\nRETURN x"); }); }
static Reg r05({"P05","model_checking",g05,p05,"a case is an input text; every position of the outcome is recomputed from the text by counting line feeds, and ranges are compared with the reference model; non-trivial: texts with line breaks",MODEL_ASSUME,10});

// ---- P07 statements and clauses ---------------------------------------------------
static string p07(const Case&c){ int f=fl(c); Out a=model::parse(c.in,f),b=impl::parse(c.in,f); if(clean(a)&&!clean(b)) { for(auto&s:b.segs) for(auto&e:s.errs) return "a valid text is rejected: "+e.msg; return "a valid text fails"; } if(clean(a)) tally("nontrivial"); size_t n=0; for(auto&s:a.segs) n+=s.nodes.size(); tally_max("nodes_max",n); return diff(a,b,C_RET|C_SEG|C_TREE|C_SIG|C_DIR); }
// every form of list in the language with each of the given numbers of elements
void list_texts(const vector<int>&ns,const function<void(const string&)>&f){ static const char*L[][4]={{"RETURN ","a",", ",";"},{"RETURN [","1",", ","];"},{"RETURN f(","x",", ",");"},{"RETURN {","a: 1",", ","};"},{"MATCH ","(a)",", "," RETURN 1;"},{"MATCH (a)","-->(b)","",";"},{"MATCH (a",":L","",");"},{"MATCH ()-[:A","|:B","","]-();"},{"RETURN 1 ORDER BY ","a",", ",";"},{"WITH ","a AS b",", "," RETURN 1;"},{"SET ","a.b = 1",", ",";"},{"SET a",":L","",";"},{"REMOVE ","a.b",", ",";"},{"REMOVE a",":L","",";"},{"DELETE ","a",", ",";"},{"RETURN CASE ","WHEN a THEN b "," ","END;"},{"RETURN n{",".a",", ","};"},{"RETURN n",":L","",";"},{"RETURN a"," < b","",";"},{"RETURN a",".b","",";"},{"RETURN 1 "," UNION RETURN 2 "," ",";"},{"FOREACH (x IN y | ","DELETE z "," ",");"},{"MERGE (n) ","ON MATCH SET n.x = 1 "," ",";"},{"MATCH (n) ","USING SCAN n:L "," ",";"},{"MATCH (n) USING JOIN ON ","a",", ",";"},{"CALL f(","a",", ",");"},{"CALL f() YIELD ","a AS b",", ",";"},{"START n=node(","1",", ",") RETURN n;"},{"START ","n=node(1)",", "," RETURN n;"},{"CREATE INDEX ON :L(","p",", ",");"},{"CYPHER ","a=b "," ","RETURN 1;"},{"EXPLAIN ","PROFILE "," ","RETURN 1;"},{":a ","b"," ","\n"},{"RETURN a","[0]","",";"},{"RETURN ","a."," ","f();"},{"CALL ","a."," ","f();"},{"RETURN 1"," + 2"," ",";"},{"RETURN ","NOT "," ","a;"},{"RETURN ","("," ",";"},{"USING PERIODIC COMMIT ","USING PERIODIC COMMIT "," ","RETURN 1;"},{"","MATCH (n) "," ","RETURN 1;"}};
  for(auto&l:L) for(int n:ns){ string s=l[0]; for(int i=0;i<n;i++){ if(i) s+=l[2]; s+=l[1]; } s+=l[3]; f(s); } }
static void g07(Gen&g){ g_seeds(g); g_derive(g,2,3);
  g.begin("lists","every list form with 1..20 elements, and with 31..34, 63..66, 127..129, 255..257"); { vector<int> ns; for(int i=1;i<=20;i++) ns.push_back(i); for(int i:{31,32,33,34,63,64,65,66,127,128,129,255,256,257}) ns.push_back(i); list_texts(ns,[&](const string&s){ g.emit(s); }); }
  g.begin("combine",g.thorough?"each expression of a list at each hole of each clause, ordered triples of clauses":"each expression of a list at each hole of each clause, ordered pairs of clauses"); static const char*CL[]={"MATCH (n)","OPTIONAL MATCH (n) WHERE n.x","RETURN 1","RETURN DISTINCT *","UNWIND x AS y","MERGE (n) ON CREATE SET n.a=1","CREATE (n)","CREATE UNIQUE (n)","SET n.a=1","SET n:L","DELETE n","DETACH DELETE n","REMOVE n.a","WITH n","WITH *","FOREACH (x IN y | SET x.a=1)","CALL f()","CALL f YIELD x","LOAD CSV FROM 'x' AS y","START n=node(1)","UNION","UNION ALL","RETURN a ORDER BY b SKIP 1 LIMIT 2","MATCH p=(a)-[r:X*1..2]->(b) USING INDEX a:L(p)"};
  for(auto*a:CL) for(auto*b:CL){ g.emit(string(a)+" "+b+";"); if(g.thorough) for(auto*d:CL) g.emit(string(a)+" "+b+"\n"+d); }
  static const char*EX[]={"a","1","1.5","'s'","$p","{p}","true","null","[1]","{a:1}","a.b","a[1]","a[1..2]","f(x)","count(*)","a+b","NOT a","a IS NULL","a<b<=c","(a)-->(b)","shortestPath((a)-->(b))","[x IN y WHERE z | w]","[(a)-->(b) | c]","CASE a WHEN b THEN c ELSE d END","CASE WHEN b THEN c END","filter(x IN y WHERE z)","reduce(a=0, x IN y | z)","all(x IN y WHERE z)","none(x IN y)","single(x IN y)","any(x IN y)","extract(x IN y | z)","a{.b, c: d, e, .*}","n:L:M","(a)","a IN b","a STARTS WITH b","-a^b"};
  static const char*H[]={"RETURN @;","RETURN @ AS x, @;","WITH @ AS x RETURN x;","MATCH (n) WHERE @ RETURN n;","UNWIND @ AS x;","RETURN [@, @];","RETURN {a: @, b: @};","RETURN f(@, @);","RETURN f(DISTINCT @);","RETURN a[@];","RETURN a[@..@];","RETURN a[..@];","RETURN a[@..];","RETURN CASE @ WHEN @ THEN @ ELSE @ END;","RETURN [x IN @ WHERE @ | @];","RETURN [(a)-->(b) WHERE @ | @];","RETURN filter(x IN @ WHERE @);","RETURN extract(x IN @ | @);","RETURN reduce(a = @, x IN @ | @);","RETURN all(x IN @ WHERE @);","SET a.b = @, c = @, d += @;","SET (@).b = 1;","DELETE @, @;","REMOVE (@).x;","FOREACH (x IN @ | SET x.a = @);","CALL f(@, @) YIELD x WHERE @;","LOAD CSV FROM @ AS x RETURN x;","RETURN 1 ORDER BY @ DESC, @ SKIP @ LIMIT @;","MATCH (a {x: @})-[{y: @}]->(b) RETURN 1;","CREATE CONSTRAINT ON (n:L) ASSERT @;","CREATE CONSTRAINT ON (n:L) ASSERT @ IS UNIQUE;","DROP CONSTRAINT ON ()-[r:L]-() ASSERT @;","START n=node(1) WHERE @ RETURN n;","MERGE (n) ON MATCH SET n.x = @ ON CREATE SET n.y = @;","RETURN (@);","RETURN a{x: @};","RETURN (@){.x};","RETURN (@):L;","RETURN (@).x[@];"};
  for(auto*h:H){ for(auto*e:EX){ string s; for(const char*p=h;*p;p++) if(*p=='@') s+=e; else s+=*p; g.emit(s); if(g.thorough) for(auto*e2:EX){ string t; int k=0; for(const char*p=h;*p;p++) if(*p=='@') t+= (k++%2)?e2:e; else t+=*p; g.emit(t); } } } }
static Reg r07({"P07","model_checking",g07,p07,"a case is a text derived from the reference grammar (or composed from clauses, holes and expressions); the complete tree with all operands is compared with the reference model; non-trivial: texts of the language",MODEL_ASSUME,10});

// ---- P09 literals and names ----------------------------------------------------------
static string unescape(const string&s){ string o; for(size_t i=0;i<s.size();i++){ if(s[i]=='\\'&&i+1<s.size()){ static const string k="abfnrtv\\'\"?",v="\a\b\f\n\r\t\v\\'\"?"; size_t p=k.find(s[i+1]); if(p!=string::npos){ o+=v[p]; i++; continue; } } o+=s[i]; } return o; }
static string p09(const Case&c){ Out b=impl::parse(c.in,0); Out a=model::parse(c.in,0); if(c.p.size()==2&&clean(a)){ // independent decoding: p0 type, p1 value
    int want=ty_by_name(c.p[0]); bool found=false; string all; for(auto&s:b.segs) for(auto&n:s.nodes) if(n.type==want){ size_t q=n.sig.find('"'); string v=n.sig.substr(q+1,n.sig.size()-q-2); all+=" ["+esc(v)+"]"; if(v==c.p[1]) found=true; } tally("decoded_independently"); if(!found) return "no "+c.p[0]+" with value ["+esc(c.p[1])+"], but"+all; }
  if(clean(a)) tally("nontrivial"); return diff(a,b,C_RET|C_SEG|C_TREE|C_SIG); }
static void g09(Gen&g){ g_seeds(g,false);
  int n=g.t(4,5); g.begin("strings",fmt("all quoted strings of up to %d elements over ordinary characters, every escape, both quotes, line breaks",n)); static const vector<string> SA={"a"," ","\\n","\\\\","\\'","\\\"","\\x","'","\"","\n","`",";"};
  enums::strings(SA,n,[&](const string&s){ for(char q:{'\'','"'}){ string t=string("RETURN ")+q+s+q+" ;"; bool plain=true; for(size_t i=0;i<s.size();i++){ if(s[i]=='\\'&&i+1<s.size()&&string("abfnrtv\\'\"?").find(s[i+1])!=string::npos){ i++; continue; } if(s[i]==q) plain=false; } if(s.size()&&s.back()=='\\') { size_t k=s.size(); int bs=0; while(k&&s[k-1]=='\\'){ bs++; k--; } if(bs%2) plain=false; } if(plain) g.emit(t,{"string",unescape(s)}); else g.emit(t); } });
  g.begin("escapes","each of the 256 byte values alone, after a backslash, and after a character, in strings, names, comments and commands"); for(int i=1;i<256;i++){ string ch(1,(char)i); for(auto*q:{"'","\""}) { g.emit(string("RETURN ")+q+ch+q+";"); g.emit(string("RETURN ")+q+"\\"+ch+q+";"); g.emit(string("RETURN ")+q+"z"+ch+"y"+q+";"); } if(ch!="`") g.emit("RETURN `"+ch+"`;",{"identifier",ch}); g.emit("RETURN 1 /*"+ch+"*/;"); g.emit("RETURN 1 //"+ch+"\n;"); g.emit(":a"+ch+"b\n"); g.emit(":a \\"+ch+" b\n"); g.emit("RETURN a"+ch+"b;"); g.emit("RETURN 1"+ch+"2;"); g.emit("!"+ch+"\n;"); g.emit(ch); }
  g.begin("names",fmt("all identifiers of up to %d characters over letters, digits, _ and $, and all backtick names over a structural alphabet, at every place a name can stand",g.t(3,4))); static const char*NP[][2]={{"RETURN @;","identifier"},{"RETURN 1 AS @;","identifier"},{"RETURN n:@;","label"},{"MATCH (:@) RETURN 1;","label"},{"MATCH ()-[:@]-() RETURN 1;","reltype"},{"MATCH ()-[:A|@]-() RETURN 1;","reltype"},{"RETURN a.@;","prop_name"},{"RETURN {@: 1};","prop_name"},{"RETURN @();","function_name"},{"CALL @;","proc_name"},{"RETURN $@;","parameter"},{"RETURN {@};","parameter"},{"START n=node:@('x') RETURN 1;","index_name"},{"CREATE INDEX ON :L(@);","prop_name"},{"RETURN a{.@};","prop_name"},{"RETURN a{@};","identifier"},{"MATCH @=(a) RETURN 1;","identifier"}};
  auto at=[&](const char*pl,const string&s){ string t; for(const char*p=pl;*p;p++) if(*p=='@') t+=s; else t+=*p; return t; };
  for(auto&pl:NP){ enums::strings({"a","Z","_","0","$"},g.t(3,4),[&](const string&s){ if(isdigit(s[0])||s[0]=='$') g.emit(at(pl[0],s)); else g.emit(at(pl[0],s),{pl[1],s}); },1); enums::strings({"a"," ",".","'","\n",";","\\","/*"},g.t(3,4),[&](const string&s){ g.emit(at(pl[0],"`"+s+"`"),{pl[1],s}); },0); }
  g.begin("dotted names","function and procedure names of up to 4 parts, plain and backticked, with every layout around the dots"); enums::strings({"a","`b c`","d1"},4,[&](const string&){} ); for(auto*lay:{""," ","\n","/*x*/"," // y\n "}) for(int k=1;k<=4;k++) for(int m=0;m<(1<<k);m++){ string w,v; for(int i=0;i<k;i++){ if(i){ w+=string(lay)+"."+lay; v+="."; } w+= (m>>i&1)?"`x y`":"ab"; v+=(m>>i&1)?"x y":"ab"; } g.emit("RETURN "+w+"();",{"function_name",v}); g.emit("CALL "+w+"();",{"proc_name",v}); g.emit("CALL "+w+";",{"proc_name",v}); }
  g.begin("numbers",fmt("all strings of up to %d characters over 0 1 9 a x e E . + - _",g.t(4,6))); enums::strings({"0","1","9","a","x","e","E",".","+","-","_"},g.t(4,6),[&](const string&s){ g.emit("RETURN "+s+";"); },1);
  g.begin("parameters","numbered and named parameters"); for(auto*s:{"1","12","10","0","01","1a","a1","_"}) for(auto*f:{"RETURN $@;","RETURN {@};","RETURN $ @;","RETURN { @ };","MATCH (n {@}) RETURN 1;"}) g.emit(at(f,s));
  g.begin("command arguments",fmt("all commands with up to %d elements of an alphabet of characters, quotes, escapes and blanks",g.t(5,6))); enums::strings({"a"," ","\\n","\\;","'","\"","\\'","\\","b"},g.t(4,5),[&](const string&s){ g.emit(":c "+s+"\n"); },1);
  g.begin("comments",fmt("all comment texts of up to %d elements",g.t(4,6))); enums::strings({"a","*","/","\n"," ","'","\r"},g.t(4,6),[&](const string&s){ g.emit("RETURN /*"+s+"*/ 1;"); g.emit("RETURN 1 //"+s+"\n;"); g.emit("//"+s); });
  g.begin("alias","source text as the alias of an unnamed projection: expressions with all layouts inside and around"); for(auto*e:{"a.b","count(*)","1+ 2","[ 1 ]","'x'","a /*c*/ + b","(a)","n { .x }","a\n+\tb","f(x )","-1","a . b"}) for(auto*l:{""," ","\n","\t ","/*c*/"," //x\n","\r\n"}) for(auto*r:{""," ","\n","\t ","/*c*/"," //x\n"," \r\n"}) for(auto*z:{";",", b;",""," ORDER BY x;"," SKIP 1;"}) g.emit(string("RETURN ")+l+e+r+z);
  g.begin("long","values of every length 0..40, around 64, 128, 256, 512, 1024, 2048, 4096 of 10000, 65535, 65536, 65537 and 131073 characters"); vector<int> ls; for(int i=0;i<=40;i++) ls.push_back(i); for(int b:{64,128,256,512,1024,2048,4096}) for(int d=-2;d<=2;d++) ls.push_back(b+d); for(int k:{10000,65535,65536,65537,131073}) ls.push_back(k); for(int k:ls){ string v(k,'q'); for(int i=0;i<k;i++) v[i]='a'+i%23; g.emit("RETURN '"+v+"';",{"string",v}); if(k){ g.emit("RETURN "+v+";",{"identifier",v}); g.emit("RETURN `"+v+"`;",{"identifier",v}); g.emit(":x "+v+"\n",{"string",v}); g.emit("RETURN 1"+v+";",{"integer","1"+v}); } g.emit("RETURN 1/*"+v+"*/;",{"block_comment",v}); g.emit("RETURN '"+v+"\\n"+v+"';",{"string",v+"\n"+v}); g.emit("!"+v+";"); string e; for(int i=0;i<k&&i<600;i++) e+="\\n"; g.emit("RETURN '"+e+"';",{"string",unescape(e)}); }
  g.begin("long at every place","names, numbers, option values, whole options and unnamed projections of 255..257, 10000, 65535..65537 and 131073 characters, at every place such a value can stand"); for(int k:{255,256,257,10000,65535,65536,65537,131073}){ string v(k,'q'),d(k,'7'); for(int j=0;j<k;j++) v[j]='a'+j%23,d[j]='1'+j%9;
    for(auto&pl:NP){ g.emit(at(pl[0],v),{pl[1],v}); g.emit(at(pl[0],"`"+v+"`"),{pl[1],v}); } g.emit("RETURN "+v+"."+v+"(1);",{"function_name",v+"."+v}); g.emit("CALL "+v+"."+v+"();",{"proc_name",v+"."+v});
    g.emit("CYPHER "+v+"=x RETURN 1;",{"string",v}); g.emit("CYPHER x="+v+" RETURN 1;",{"string",v}); g.emit("CYPHER "+d+".1 RETURN 1;",{"string",d+".1"}); g.emit("CYPHER 1."+d+" x=y RETURN 1;",{"string","1."+d}); g.emit("RETURN 1."+d+";",{"float","1."+d}); g.emit("RETURN "+d+".5;",{"float",d+".5"}); g.emit("RETURN 0x"+d+";",{"integer","0x"+d}); g.emit("RETURN 0"+string(k,'7')+";",{"integer","0"+string(k,'7')}); g.emit("RETURN $"+d+";",{"parameter",d}); g.emit("START n=node("+d+") RETURN n;",{"integer",d}); g.emit("MATCH (a)-[*"+d+".."+d+"]->(b) RETURN 1;",{"integer",d}); g.emit("RETURN a."+v+";",{"identifier","a."+v}); g.emit("RETURN 1 + "+v+" ;",{"identifier","1 + "+v}); g.emit("WITH 1+/*"+v+"*/2, 3 RETURN 1;"); g.emit("LOAD CSV FROM 'x' AS y FIELDTERMINATOR '"+v+"' RETURN 1;",{"string",v}); g.emit("USING PERIODIC COMMIT "+d+" LOAD CSV FROM '"+v+"' AS y RETURN 1;",{"integer",d}); g.emit("RETURN 1 //"+v+"\n;",{"line_comment",v}); g.emit("//"+v+"\nRETURN 1;",{"line_comment",v}); g.emit(":"+v+" 1\n",{"string",v}); g.emit(":x '"+v+"'\n",{"string",v}); g.emit(":x 1 //"+v+"\n",{"line_comment",v}); }
  g.begin("doubled escapes","strings of up to 6 backslashes followed by each quote and letter"); for(int k=0;k<=6;k++) for(auto*z:{"n","'","\"","a","x",""}) for(char q:{'\'','"'}) g.emit(string("RETURN ")+q+string(k,'\\')+z+q+" AS r;"); }
static Reg r09({"P09","model_checking",g09,p09,"a case is a text with one literal, name, comment or argument; all reported values are compared with the reference model and, where marked, with an independent decoding; non-trivial: texts of the language",MODEL_ASSUME,10});

// ---- P10 errors ------------------------------------------------------------------------
// with configured colours, only the messages change, by the codes around their parts
static const string LONGC(3000,'#');
static const struct cypher_parser_colorization COLS[]={
  {{"",""},{"<e>","</error>"},{"<tk>","</t>"},{"<message>","</>"},{"",""},{"",""},{"",""},{"",""},{"",""}},
  {{"n","o"},{"","1"},{"22",""},{"","4444"},{"a","b"},{"c","d"},{"e","f"},{"g","h"},{"i","j"}},
  {{"n","o"},{"%s%d",""},{"","%n%%"},{"%s",""},{"a","b"},{"c","d"},{"e","f"},{"g","h"},{"i","j"}},
  {{"",""},{LONGC.c_str(),"!"},{"",""},{"",""},{"",""},{"",""},{"",""},{"",""},{"",""}},
  {{"",""},{"",""},{"",""},{LONGC.c_str(),""},{"",""},{"",""},{"",""},{"",""},{"",""}},
  {{"",""},{"",""},{"","x"},{"",LONGC.c_str()},{"",""},{"",""},{"",""},{"",""},{"",""}} };
static const size_t NCOLS=sizeof COLS/sizeof*COLS+2;
static string coloured(const string&t,int f,const Out&plain,size_t k){ const struct cypher_parser_colorization*C=k<NCOLS-2?&COLS[k]:k<NCOLS-1?cypher_parser_ansi_colorization:cypher_parser_no_colorization; Cfg cf; cf.cols=C; Out want=plain; static const string A="Invalid input ",X=": expected";
  for(auto&s:want.segs) for(auto&e:s.errs){ size_t x=e.msg.find(X,A.size()); if(e.msg.compare(0,A.size(),A)||x==string::npos) return "the message ["+esc(e.msg)+"] is not of the form 'Invalid input …: expected …'"; string tok=e.msg.substr(A.size(),x-A.size()),rest=e.msg.substr(x+2); e.msg=string(C->error[0])+"Invalid input"+C->error[1]+" "+C->error_token[0]+tok+C->error_token[1]+": "+C->error_message[0]+rest+C->error_message[1]; }
  Out b=impl::parse(t,f,cf); if(!b.bad.empty()) return b.bad; tally("coloured"); string r=diff(want,b,C_ALL); return r.empty()?r:fmt("with colour scheme %zu: ",k)+r; }
static string p10(const Case&c){ int f=fl(c); Out b=impl::parse(c.in,f),a=model::parse(c.in,f); if(!b.bad.empty()) return b.bad; if(a.ret!=b.ret) return fmt("return value %d, expected %d",b.ret,a.ret); if(!clean(a)) tally("nontrivial"); string r=errdiff(a,b); if(!r.empty()) return r; 
  for(auto&s:b.segs) for(size_t i=0;i<s.errs.size();i++){ const Err&e=s.errs[i]; size_t p=e.pos.off; string d= p>=c.in.size()?"at end of input":""; if(p<c.in.size()&&c.in[p]>=32&&c.in[p]!='\'') d=string("'")+c.in[p]+"'"; if(d.size()&&e.msg.find(d+":")==string::npos) return "the message ["+esc(e.msg)+"] does not name "+esc(d); if(i&&!(s.errs[i-1].pos.off<p)) return "two errors at one point"; }
  if(b.ret==0) for(auto&s:b.segs) if(s.errs.size()){ size_t h=c.in.size(); for(unsigned char ch:c.in) h=h*31+ch; if(c.g=="colours"){ string r; for(size_t k=0;k<NCOLS&&r.empty();k++) r=coloured(c.in,f,b,k); return r; } return h%4?"":coloured(c.in,f,b,h/4%NCOLS); }
  return ""; }
static void g10(Gen&g){ g_seeds(g); g_edits(g,1); g_derive(g,1,2,true,false);
  g.begin("truncations","every prefix of every listed text, alone and followed by a statement"); each_seed([&](const string&s){ for(size_t i=0;i<=s.size();i++){ g.emit(s.substr(0,i)); g.emit(s.substr(0,i)+"\nRETURN 1;"); } });
  g.begin("bad character","every byte inserted at, and substituted for, each position of a short statement, and control, printable and other bytes at each position of a set of statements"); static const char*B[]={"RETURN 1;","MATCH (n:A {b: 'c'})-[r*1..2]->() WHERE n.x RETURN DISTINCT n AS m ORDER BY m;","CREATE INDEX ON :A(b);",":cmd a 'b';","MERGE (a) ON MATCH SET a.b=1;","USING PERIODIC COMMIT 1 LOAD CSV FROM 'x' AS y RETURN y[0..1];","CALL a.b(1) YIELD c;","RETURN CASE a WHEN b THEN c END, [x IN y|z], f(DISTINCT a);"}; for(auto*s:B){ string t=s; for(size_t i=0;i<=t.size();i++) for(int ch=1;ch<256;ch++){ bool all=g.thorough||t.size()<10; string x=t; x.insert(i,1,(char)ch); if(all||ch<32||(ch<128&&(ch+i)%2==0)||(ch+i)%8==0) g.emit(x); if(i<t.size()&&(all||(ch+i)%(ch<128?3:12)==0)){ x=t; x[i]=ch; g.emit(x); } } }
  g.begin("short",fmt("all token strings of up to %d tokens",g.t(4,5))); enums::strings({"RETURN ","MATCH ","(","a",")","1",",",";"," AS ","=","[","]"},g.t(4,5),[&](const string&s){ g.emit(s); });
  g.begin("far","erroneous texts and truncations after a comment of 300, 33000, 65600 or 131100 characters"); for(int n:{300,33000,65600,131100}){ string c="/*"+string(n,'*')+"*/"; for(auto&s:enums::bad_seeds()) g.emit(c+s); int k=0; each_seed([&](const string&s){ for(size_t i=1;i<s.size();i++) if((k++)%(n<1000?1:g.t(40,10))==0) g.emit(c+s.substr(0,i)+"\n;RETURN 1;"); }); }
  g.begin("colours","the truncations of every listed text with each of eight colour schemes: codes of different lengths, empty, with format characters, longer than the message, the ANSI scheme and none"); each_seed([&](const string&s){ for(size_t i=0;i<=s.size();i+=g.t(3,1)) g.emit(s.substr(0,i)+(i%2?"\nRETURN 1;":"")); });
  g.begin("many errors","1..70, 255..257 and 600 errors in one statement and in as many statements"); for(int n=1;n<=70;n++) for(auto*u:{"a RETURN 1 ","a;","MATCH ( RETURN b c "}){ string t; for(int i=0;i<n;i++) t+=u; g.emit(t); g.emit(t+";RETURN 1;"); } for(int n:{127,128,129,255,256,257,600}) for(auto*u:{"a RETURN 1 ","a;","MATCH ( RETURN b c "}){ string t; for(int i=0;i<n;i++) t+=u; g.emit(t+";RETURN 1;"); }
  g.begin("keyword prefixes","every prefix of every keyword sequence, at statement and clause start and within a clause"); for(auto*k:{"MATCH","OPTIONAL MATCH","RETURN","UNWIND","MERGE","CREATE UNIQUE","CREATE INDEX ON","CREATE CONSTRAINT ON","DROP INDEX ON","DROP CONSTRAINT ON","SET","DETACH DELETE","DELETE","REMOVE","WITH","FOREACH","CALL","LOAD CSV FROM","LOAD CSV WITH HEADERS FROM","START","UNION ALL","USING PERIODIC COMMIT","CYPHER","PROFILE","EXPLAIN","USING INDEX","USING JOIN ON","USING SCAN","ON MATCH SET","ON CREATE SET","WHERE","ORDER BY","SKIP","LIMIT","IS NULL","IS NOT NULL","STARTS WITH","ENDS WITH","CONTAINS","XOR","YIELD","AS","ASCENDING","DESC"}) for(size_t i=1;i<=strlen(k);i++) for(auto*p:{"","RETURN 1 ","MATCH (n) ","MERGE (n) ","RETURN n "}) for(auto*z:{"","x"," ;",";"," RETURN 1;"}) g.emit(string(p)+string(k).substr(0,i)+z); }
static Reg r10({"P10","model_checking",g10,p10,"a case is an input text; the errors are compared with the reference model's furthest-failure semantics; non-trivial: texts outside the language",MODEL_ASSUME,10});

// ---- P11 contexts -------------------------------------------------------------------------
static string ctxcheck(const string&t,const Out&o,bool stream){ for(auto&s:o.segs) for(auto&e:s.errs){ long p=e.pos.off,n=e.ctx.size(); long a=p-(long)e.ctxoff; bool cl=e.ctx.compare(0,3,"...")==0&&n>=3, cr=n>=3&&e.ctx.compare(n-3,3,"...")==0; tally("contexts");
    if(n>80+6) return fmt("context of %ld characters",n);
    if(a<0) return fmt("context offset %zu beyond the start of the input",e.ctxoff);
    // as literal text or with cut ends
    long lo=0,hi=n; auto match=[&](long l,long h){ for(long k=l;k<h;k++) if(a+k>=(long)t.size()||t[a+k]!=e.ctx[k]) return false; return true; };
    if(!match(0,n)){ if(cl) lo=3; if(cr) hi=n-3; if(hi<lo) hi=lo; if(!match(lo,hi)) return "context ["+esc(e.ctx)+fmt("] with offset %zu does not show the text around offset %ld",e.ctxoff,p); if(cl&&a<=0) return "cut mark at the start of the input"; 
      if((long)e.ctxoff<lo||((long)e.ctxoff>=hi&&(long)e.ctxoff<n)) return "the offset points at a cut mark"; }
    for(long k=lo;k<hi;k++) if(e.ctx[k]=='\n') return "context spans lines";
    bool inside=(long)e.ctxoff<n; if(inside&&(p>=(long)t.size()||e.ctx[e.ctxoff]!=t[p])) return fmt("context offset %zu designates another character",e.ctxoff);
    if(!inside&&p<(long)t.size()&&t[p]!='\n'&&t[p]!='\r'&&t[p]!=0) return fmt("the offending character is not within the context [%s] (offset %zu)",esc(e.ctx).c_str(),e.ctxoff);
    // a whole line is shown when it is short
    if(p<(long)t.size()&&t[p]!='\n'&&t[p]!='\r'){ long ls=p,le=p; while(ls>(long)s.r.s.off&&t[ls-1]!='\n'&&t[ls-1]!='\r') ls--; while(le<(long)t.size()&&t[le]!='\n'&&t[le]!='\r') le++; if(le-ls<70){ if(lo==0&&!cl&&a!=ls) return "the context does not start where its line (or segment) starts"; if(cl&&lo==3) return "a short line is cut"; if(!stream&&cr&&hi==n-3) return "a short line is cut"; if(!stream&&hi==n&&a+n!=le) return "the context does not reach the end of its line"; } }
  } return ""; }
static string p11(const Case&c){ Out a=model::parse(c.in,0),b=impl::parse(c.in,0); if(!clean(a)) tally("nontrivial"); string r=ctxcheck(c.in,b,false); if(!r.empty()) return r; if(!(r=diff(a,b,C_ERRN|C_ERRPOS|C_CTX)).empty()) return r; 
  for(vector<size_t> ch:{vector<size_t>{1},vector<size_t>{7},vector<size_t>{100000}}){ Out s=impl::fparse(c.in,ch,0); if(!(r=ctxcheck(c.in,s,true)).empty()) return fmt("from a stream read %zu bytes at a time: ",ch[0])+r; } return ""; }
static void g11(Gen&g){ g_seeds(g,false); g_edits(g,0);
  g.begin("line length","an error at every column of lines of 70..95 (thorough: 1..170) characters, with nothing, a line, or a statement before, and nothing, a line, spaces or a statement after"); vector<string> pre={"","RETURN 1;\n","RETURN 1; ","\n\n","// some line\n","RETURN\n"}, post={"","\n","\nRETURN 2;",";RETURN 3;\n","   ","\r\n"};
  int lo=g.t(76,1),hi=g.t(86,170); for(int len=lo;len<=hi;len+=1) for(int col=0;col<=len;col+=g.t(1,len<70?3:1)) { string l="RETURN "; while((int)l.size()<len) l+= "abcdefghij"[l.size()%10]; l.resize(len); l.insert(col,"!"); for(size_t i=0;i<pre.size();i++) for(size_t j=0;j<post.size();j++) if(g.thorough? (i==0||j==0||(len+col)%7==0) : (i==(size_t)(len+col)%6||j==(size_t)(col)%6)) g.emit(pre[i]+l+post[j]); }
  g.begin("wide","an error at columns 0..400 step 7 of a line of up to 2500 characters (across read boundaries)"); for(int len:{200,500,1000,1023,1024,1025,1500,2048,2500}) for(int col=0;col<=len;col+= (col<120||col>len-100)?g.t(9,3):g.t(97,31)){ string l="RETURN "; while((int)l.size()<len) l+= "abcdefghij"[l.size()%10]; l.insert(col,"!"); g.emit(l); g.emit(l+"\nRETURN 1;"); g.emit("RETURN 5;\n"+l+" ;"); g.emit("MATCH (n)\n"+l+"\n"); }
  g.begin("ends",fmt("texts that end, or whose line ends, at the error: every sequence of up to %d fragments",g.t(5,6))); enums::strings({"\n","\r\n"," ","RETURN","!",";","\r","(","x"},g.t(4,5),[&](const string&s){ g.emit(s); }); }
static Reg r11({"P11","model_checking",g11,p11,"a case is an input text with errors; each context is aligned with the input text, from a buffer and from streams, and compared with the reference model; non-trivial: texts with an error",MODEL_ASSUME,10});

// ---- P12 recovery ------------------------------------------------------------------------
static bool closed(const Out&o,const string&t){ return o.ret==0&&o.segs.size()&&!o.segs.back().eof&&o.segs.back().r.e.off==t.size(); }
static string p12(const Case&c){
  if(c.p.empty()||c.p[0]!="parts"){ Out a=model::parse(c.in,0),b=impl::parse(c.in,0); if(!b.bad.empty()) return b.bad; if(!clean(a)) tally("nontrivial"); for(auto&s:b.segs) for(auto&n:s.nodes) if(n.type==TY_error){ tally("error_nodes"); string v=n.sig.substr(7,n.sig.size()-8),x=c.in.substr(n.r.s.off,n.r.e.off-n.r.s.off); if(v!=x) return "error node holds ["+esc(v)+"], the skipped text is ["+esc(x)+"]"; }
    return diff(a,b,C_RET|C_SEG|C_RANGE|C_TREE|C_NRANGE|C_SIG|C_ERRN|C_ERRPOS|C_DIR|C_EOF); }
  // concatenation: p1.. are the parts
  for(size_t i=1;i+1<c.p.size();i++){ string later; for(size_t k=i+1;k<c.p.size();k++) later+=c.p[k]; const string&t=c.p[i]; bool open=false; for(char q:{'\'','"','`'}) if(count(t.begin(),t.end(),q)%2&&later.find(q)!=string::npos) open=true; size_t o=t.rfind("/*"); if(o!=string::npos&&t.find("*/",o+2)==string::npos&&later.find("*/")!=string::npos) open=true; if(open){ tally("left_open"); return ""; } }
  Out want; want.ret=0; want.lastset=true; Pos at{1,1,0}; string all; for(size_t i=1;i<c.p.size();i++){ const string&t=c.p[i]; Out o=impl::parse(t,0); if(!o.bad.empty()) return o.bad; if(i+1<c.p.size()){ if(!closed(o,t)) return ""; for(auto&x:o.segs) for(auto&e:x.errs) if(e.pos.off>=t.size()){ tally("left_open"); return ""; } } tally("parts"); Out s=shifted(o,at); for(auto&x:s.segs) want.segs.push_back(x); all+=t; if(s.segs.size()) at=s.segs.back().r.e; want.last=at; }
  tally("nontrivial"); Out b=impl::parse(all,0); string r=diff(want,b,C_ALL&~C_CTX); return r.empty()?r:"next to other statements: "+r; }
static void g12(Gen&g){ g.begin("big","texts with 255..257 and 65535..65537 lines, columns or bytes before and within each kind of token"); big_texts(false,[&](const string&s){ g.emit(s); }); g_seeds(g,false); g_edits(g,1);
  vector<string> good={"RETURN 1;","MATCH (n {a: 'x;y'})\nWHERE n.x RETURN n;",":cmd a\n","CREATE INDEX ON :A(b);\n",";","/* c */RETURN `a;b` // d\n;"}; vector<string> bad; for(auto&s:enums::bad_seeds()){ bad.push_back(s+";"); bad.push_back(s+"\n;"); }
  g.begin("isolation","each good statement, each erroneous one (and every single edit of some), each good one, in one text against the three parsed alone"); for(auto&a:good) for(auto&b:bad) for(auto&d:good) g.emit("",{"parts",a,b,d}); 
  for(auto*s:{"RETURN a.b[1] AS x;","MATCH (n:A)-[r]->(m) WHERE n.x = 'y' RETURN n;","CREATE (n {a: 1});",":cmd 'x' y;","CALL f(1) YIELD x;"}) enums::edits(s,INS_Q,[&](const string&t){ for(size_t k=0;k<good.size();k+=g.t(2,1)) g.emit("",{"parts",good[k],t+"\n;",good[(k+1)%good.size()]}); g.emit("",{"parts",t+";",good[0]}); },true);
  g.begin("many errors","1..70, 255..257 and 600 errors in one statement and in as many statements"); for(int n=1;n<=70;n++) for(auto*u:{"a RETURN 1 ","a;","MATCH ( RETURN b c "}){ string t; for(int i=0;i<n;i++) t+=u; g.emit(t); g.emit(t+";RETURN 1;"); } for(int n:{127,128,129,255,256,257,600}) for(auto*u:{"a RETURN 1 ","a;","MATCH ( RETURN b c "}){ string t; for(int i=0;i<n;i++) t+=u; g.emit(t+";RETURN 1;"); }
  g.begin("bad pairs","all ordered pairs of erroneous statements followed by a good one"); for(auto&a:bad) for(auto&b:bad) if(g.thorough||(a.size()*31+b.size())%3==0) g.emit("",{"parts",a,b,"RETURN 1;"});
  g.begin("clauses","an erroneous fragment before, between and after each pair of clauses, with every separation"); static const char*CL[]={"MATCH (n)","RETURN n","UNWIND x AS y","MERGE (n)","CREATE (n)","SET n.a=1","DELETE n","REMOVE n.a","WITH n","FOREACH (x IN y | SET x.a=1)","CALL f()","LOAD CSV FROM 'x' AS y","START n=node(1)","OPTIONAL MATCH (n)","UNION","DROP INDEX ON :A(b)","EXPLAIN RETURN 1"}; for(auto*a:CL) for(auto*b:CL) for(auto*e:{"!","foo","WHERE","n)","'","RETURNx","1 MATCHx"}) for(auto*w:{" ","\n","/*c*/"}){ if(!g.thorough&&(strlen(a)+2*strlen(b)+strlen(e))%3) continue; g.emit(string(a)+" "+e+w+b+";RETURN 9;"); g.emit(string(a)+w+b+" "+e+";RETURN 9;"); g.emit(string(e)+w+a+" "+b); }
  g.begin("skips",fmt("an error followed by every sequence of up to %d fragments that may or may not end the skipped text",g.t(3,4))); enums::strings({"RETURN","MATCH","(n)"," ","\n","x",";","/* ; RETURN */","// ; RETURN\n","'","`",":a","CYPHER","1","\t"},g.t(3,4),[&](const string&s){ g.emit("!"+s); g.emit("RETURN !"+s); g.emit("RETURN 1 "+s); },1); }
static Reg r12({"P12","model_checking",g12,p12,"a case is a text, or a sequence of statements parsed together and alone; non-trivial: erroneous texts and concatenations",MODEL_ASSUME,10});

// ---- P20 initial position ------------------------------------------------------------------
static vector<string> ord_lines(const Out&){ return {}; }
string numbers(const string&in,int flags,const Cfg&cf); // p_tree.cc
static string p20(const Case&c){ int f=fl(c); Out d=impl::parse(c.in,f); if(!d.bad.empty()) return d.bad; string r; tally("nontrivial",c.in.find('\n')!=string::npos);
  for(Pos p:{Pos{1,1,1},Pos{1,5,4},Pos{7,1,0},Pos{3,9,100},Pos{2000,77,123456},Pos{70000,70000,5000000000ull}}){ Cfg k; k.init=p; Out want=shifted(d,p); Out b=impl::parse(c.in,f,k); if(!(r=diff(want,b,C_ALL)).empty()) return "starting at "+pstr(p)+": "+r; b=impl::fparse(c.in,{13},f,k); if(!(r=diff(want,b,C_ALL&~C_CTX)).empty()) return "starting at "+pstr(p)+" from a stream: "+r; Out e=impl::parse_all(c.in,f,k); if(!(r=diff(aggregate(want),e,C_ALL&~C_RANGE)).empty()) return "whole result starting at "+pstr(p)+": "+r; tally("configurations",3); }
  { size_t i=0,h=c.in.size(); for(unsigned char ch:c.in) h=h*31+ch; for(Pos p:{Pos{1,1,0},Pos{3,9,100},Pos{2,1,990}}) for(unsigned n:{1u,90u,70000u,4294900000u}){ if(c.g!="texts"&&i++!=h%12) continue; Cfg k; k.init=p; k.ord=n; if(!(r=numbers(c.in,f,k)).empty()) return fmt("numbered from %u, starting at ",n)+pstr(p)+": "+r; tally("numberings"); } }
  // resuming: the rest of the input parsed from where a segment ended
  for(size_t i=0;i+1<d.segs.size();i++){ Pos p=d.segs[i].r.e; Cfg k; k.init=p; Out b=impl::parse(c.in.substr(p.off),f,k); Out want=d; want.segs.erase(want.segs.begin(),want.segs.begin()+i+1); if(!(r=diff(want,b,C_ALL)).empty()) return "resumed after segment "+to_string(i)+": "+r; tally("resumptions"); }
  return ""; }
static void g20(Gen&g){ g_seeds(g); g_edits(g,0); g.begin("big","texts with 255..257 and 65535..65537 lines, columns or bytes before and within each kind of token"); big_texts(false,[&](const string&s){ g.emit(s); }); g.begin("pairs","all ordered pairs of the listed texts"); g_pairs(g); if(g.thorough) g_derive(g,2,2); else g_derive(g,1,1); }

// ---- P22 layout ---------------------------------------------------------------------------
// canonical form of an outcome without comments, positions and source-text aliases
static string canon(const Out&o,int*comments=nullptr){ string r; if(o.ret) return fmt("ret %d",o.ret); for(auto&s:o.segs){ if(s.errs.size()) r+=fmt("errors:%zu ",s.errs.size()); 
    function<void(int,bool)> w=[&](int k,bool alias){ const TNode&n=s.nodes[k]; if(ty_is(n.type,TY_comment)){ if(comments) ++*comments; return; } 
      vector<int> map_(n.kids.size(),-1); int q=0; for(size_t i=0;i<n.kids.size();i++) if(!ty_is(s.nodes[n.kids[i]].type,TY_comment)) map_[i]=q++; else if(comments) ++*comments;
      string sg; for(size_t i=0;i<n.sig.size();i++){ if(n.sig[i]=='"'){ sg+=n.sig.substr(i); break; } if(n.sig[i]=='@'){ size_t j=i+1; int v=0; while(j<n.sig.size()&&isdigit(n.sig[j])) v=v*10+n.sig[j++]-'0'; sg+="@"+to_string(v<(int)map_.size()?map_[v]:-9); i=j-1; } else sg+=n.sig[i]; }
      r+="("+string(n.type<TY__COUNT?tyinfo[n.type].name:"?")+" "+(alias?"source":sg); 
      int al=-1; if(n.type==TY_projection){ size_t p=n.sig.find("alias=@"),e=n.sig.find("expression=@"); if(p!=string::npos&&e!=string::npos){ int ai=atoi(n.sig.c_str()+p+7),ei=atoi(n.sig.c_str()+e+12); if(ai<(int)n.kids.size()&&ei<(int)n.kids.size()&&s.nodes[n.kids[ai]].r.s.off<=s.nodes[n.kids[ei]].r.s.off) al=n.kids[ai]; } }
      for(int c:n.kids) if(!ty_is(s.nodes[c].type,TY_comment)) w(c,c==al); r+=")"; };
    bool any=false; for(int k:s.roots){ if(ty_is(s.nodes[k].type,TY_comment)){ if(comments) ++*comments; } else { w(k,false); any=true; } } if(any) r+=";"; } return r; }
static string p22(const Case&c){ // p0: marked sentence; p1: mode
  const string&m=c.p[0]; string base=enums::layout(m,1); Out b0=impl::parse(base,0); if(!b0.bad.empty()) return b0.bad; int c0=0; string want=canon(b0,&c0); if(c.p[1]=="case"){ tally("nontrivial"); for(int k=1;k<=2;k++){ string t=enums::layout(m,1,k); string got=canon(impl::parse(t,0)); if(got!=want) return "with other letter case ["+esc(t)+"]: "+got+"\n expected "+want; } return ""; }
  int slot=atoi(c.p[1].c_str()); const string&txt=c.p[2],&line=c.p[3]; string t=enums::layout_at(m,slot,txt,line); Out b=impl::parse(t,0); if(!b.bad.empty()) return b.bad; int cn=0; string got=canon(b,&cn); if(got!=want) return "with other layout ["+esc(t)+"]: "+got+"\n expected "+want; tally("nontrivial");
  if(clean(b)){ // comments: independent scan of the text, outside quotes
    vector<pair<size_t,string>> cm; for(size_t i=0;i<t.size();){ char ch=t[i]; if(ch=='\''||ch=='"'){ size_t z=i+1; while(z<t.size()&&t[z]!=ch){ if(t[z]=='\\') z++; z++; } i=z+1; } else if(ch=='`'){ size_t z=t.find('`',i+1); i=z==string::npos?t.size():z+1; } else if(t.compare(i,2,"/*")==0){ size_t z=t.find("*/",i+2); cm.push_back({i+2,t.substr(i+2,z-i-2)}); i=z+2; } else if(t.compare(i,2,"//")==0){ size_t z=i; while(z<t.size()&&t[z]!='\n'&&!(t[z]=='\r'&&z+1<t.size()&&t[z+1]=='\n')) z++; cm.push_back({i+2,t.substr(i+2,z-i-2)}); i=z; } else i++; }
    vector<pair<size_t,string>> got2; for(auto&s:b.segs) for(auto&n:s.nodes) if(ty_is(n.type,TY_comment)) got2.push_back({n.r.s.off,n.sig.substr(7,n.sig.size()-8)}); tally("comments",cm.size()); sort(got2.begin(),got2.end()); if(got2!=cm) return fmt("%zu comment nodes for the %zu comments of [",got2.size(),cm.size())+esc(t)+"]"; }
  return ""; }
static void g22(Gen&g){ static const char*TX[][2]={{"\t","\t"},{"\n"," "},{"\r\n","\t "},{"  \n\t","  "},{"/*c*/","/*c*/"},{"/* ; ' \n */","/* ; ' */"},{"//x\n","/*x*/"},{" // ; \"\r\n ","/**/"},{"/*a*//*b*/ //c\n//d\n","/*a*//*b*/"}};
  int d=g.t(1,2); g.begin("layout",fmt("every derived sentence (at most %d deviations per context): each place where layout may stand, and all places at once, filled with each of %zu layouts",d,sizeof TX/sizeof*TX)); for(auto&c:contexts) { if(string(c.rule)=="comment") continue; enums::sentences(c,d,80,[&](const string&m){ if(m.find('\n')!=string::npos&&string(c.rule)!="client_command") {} Case dummy; int n=enums::nslots(m); for(auto&t:TX) g.emit("",{m,"-1",t[0],t[1]}); for(int k=0;k<n;k++) for(size_t i=0;i<sizeof TX/sizeof*TX;i+= 1) if(g.thorough||(k+i)%2==0) g.emit("",{m,to_string(k),TX[i][0],TX[i][1]}); },g.t(3000,6000)); }
  g.begin("comment texts",fmt("comments holding every string of up to %d of 12 characters, blocks and lines, in the first sentence of each context, at its first place and at all places",g.t(2,4))); for(auto&c:contexts){ if(string(c.rule)=="comment") continue; int left=1; enums::sentences(c,0,80,[&](const string&m){ if(left--<=0) return; for(int k:{-1,0}) enums::strings({"*","/","\n"," ","\t","'","\"","`","\\",";","a","\xff"},g.t(2,4),[&](const string&x){ if(x.find("*/")!=string::npos) return; string b="/*"+x+"*/"; bool nl=x.find('\n')!=string::npos; g.emit("",{m,to_string(k),b,nl?"/**/":b}); if(!nl) g.emit("",{m,to_string(k),"//"+x+"\n","/**/"}); }); },5); }
  g.begin("case","the letter case of every keyword of every derived sentence: upper, lower, alternating"); for(auto&c:contexts) enums::sentences(c,g.t(2,3),80,[&](const string&m){ g.emit("",{m,"case"}); },g.t(4000,60000)); }
static Reg r22({"P22","model_checking",g22,p22,"a case is a derived sentence with the layout at one place or all places replaced, or keyword case changed; the tree without comments is compared with that of the plain form, comment nodes with an independent scan; non-trivial: every case",MODEL_ASSUME,10});

// ---- P23 quick parser --------------------------------------------------------------------
static string qcheck(const string&t,const QOut&q){ size_t at=0; for(size_t i=0;i<q.segs.size();i++){ const QSeg&s=q.segs[i]; if(s.r.s.off<at||s.r.e.off<s.r.s.off||s.r.e.off>t.size()) return fmt("segment %zu overlaps or lies outside the input",i); if(t.substr(s.r.s.off,s.r.e.off-s.r.s.off)!=s.text) return fmt("segment %zu: text [%s] is not the input's text at its range",i,esc(s.text).c_str()); if(pos_at(t,s.r.s.off,Pos{1,1,0})!=s.r.s||pos_at(t,s.r.e.off,Pos{1,1,0})!=s.r.e) return fmt("segment %zu: wrong line or column",i); if(s.next.off<s.r.e.off||s.next.off>t.size()||pos_at(t,s.next.off,Pos{1,1,0})!=s.next) return fmt("segment %zu: wrong next position %s",i,pstr(s.next).c_str()); at=s.next.off; if(s.eof&&i+1<q.segs.size()) return "early end of input"; } return ""; }
static string p23(const Case&c){ int f=fl(c); QOut b=impl::qparse(c.in,f); if(!b.bad.empty()) return b.bad; string r=qcheck(c.in,b); if(!r.empty()) return r; QOut a=model::qparse(c.in,f); string x=show(a),y=show(b); if(x!=y) return "quick parser gives\n"+y+"expected\n"+x;
  for(vector<size_t> ch:{vector<size_t>{1},vector<size_t>{5}}){ string z=show(impl::qfparse(c.in,ch,f)); if(z!=y) return "quick parser from a stream gives\n"+z+"expected\n"+y; }
  Out full=impl::parse(c.in,f); if(clean(full)&&!odd_option(full)){ vector<QSeg> v; for(auto&s:b.segs) if(s.text.size()) v.push_back(s); size_t k=0; tally("nontrivial");
    for(auto&s:full.segs) if(s.dir>=0){ const TNode&n=s.nodes[s.dir]; if(k>=v.size()) return "the quick parser misses a statement"; const QSeg&q=v[k++]; tally("statements"); if(q.stmt!=ty_is(n.type,TY_statement)) return "kind of statement differs from the full parser's"; if(q.r.s!=n.r.s) return "statement starts at "+pstr(q.r.s)+", the full parser's at "+pstr(n.r.s); 
        // what lies between the end of the text and the end of the full parser's range is layout
        string tail= q.r.e.off<=n.r.e.off? c.in.substr(q.r.e.off,n.r.e.off-q.r.e.off) : ""; if(q.r.e.off>s.r.e.off) return "statement text exceeds its segment"; Out te=model::parse(tail,0); bool only=true; for(auto&z:te.segs){ if(z.errs.size()) only=false; for(auto&nn:z.nodes) if(!ty_is(nn.type,TY_comment)) only=false; } if(!only&&!(ty_is(n.type,TY_command))) return "statement text ["+esc(q.text)+"] is cut short of ["+esc(tail)+"]"; 
        if(q.stmt&&(isspace((unsigned char)q.text.front())||isspace((unsigned char)q.text.back()))) return "statement text has surrounding whitespace"; 
        if(q.eof!=s.eof&&q.stmt) return "end-of-input flag differs from the full parser's"; if(!s.eof&&q.next!=s.r.e) return "next position "+pstr(q.next)+", the full parser's segment ends at "+pstr(s.r.e); }
    if(k<v.size()) return "the quick parser delivers more statements than the full parser"; }
  return ""; }
static void g23(Gen&g){ g.begin("big","texts with 255..257 and 65535..65537 lines, columns or bytes before and within each kind of token"); big_texts(false,[&](const string&s){ g.emit(s); }); for(size_t n:{255,256,257,65534,65535,65536,65537}){ string nl(n,'\n'),sp(n,' '),as(n,'a'); for(auto&t:{nl+"RETURN 1 ;\n RETURN 2;\n:a",sp+"RETURN 1 ; RETURN 2;\n:a","RETURN /*"+nl+"*/ b ; \nRETURN 1\n, 2;","RETURN /*"+as+"*/ b,\n c ; RETURN 1","RETURN "+as+", c ; RETURN\n 2;","RETURN `"+as+"`\n, c ; RETURN\n 2;","RETURN 1 //"+as+"\n, c ; RETURN 2\n;",":a "+as+" b\nRETURN 1\n;\n:b",";\n"+nl+";RETURN\n 2"}) g.emit(t); } g_seeds(g); g_edits(g,1); g_pairs(g);
  g.begin("chars",fmt("all strings of up to %d characters over the characters that matter to the quick parser",g.t(5,6))); enums::strings({"a",";"," ","\n","'","/","*","`","\\",":"},g.t(4,6),[&](const string&s){ g.emit(s); if(s.size()<5) g.emit(s,{"2"}); });
  g.begin("quoted",fmt("strings of both kinds, names and comments holding every sequence of up to %d elements, in statements and commands followed by others",g.t(4,5))); enums::strings({"a","\\","'","\"","`",";","\n","n","/*","//"," "},g.t(4,5),[&](const string&x){ for(auto*q:{"'","\"","`"}){ g.emit(string("RETURN ")+q+x+q+"; RETURN 2;"); if(x.size()<4) g.emit(string(":c ")+q+x+q+"; RETURN 2;"); } if(x.size()<4) g.emit("RETURN /*"+x+"*/ 1; RETURN 2;"); });
  g.begin("fragments",fmt("all sequences of up to %d fragments",g.t(4,5))); enums::strings({"RETURN 1",";",":a b","\n","'x;y'","`p;q`","/* ; */","// ;\n","\\","\"","/*"," "},g.t(4,5),[&](const string&s){ g.emit(s); },1);
  g_derive(g,1,2,true,true);
  g.begin("long","statements of 1..3000 characters, and quoted, commented and named text across read boundaries"); for(int k:{100,500,511,512,513,1000,1022,1023,1024,1025,1026,2000,2047,2048,2049,3000}) for(auto*q:{"'","`","\"","//","/*"}){ string o=q,cl= o=="//"?"\n":o=="/*"?"*/":o; string s="RETURN "+o+string(k,'x')+";"+string(10,'y')+cl+" 1; RETURN 2;"; g.emit(s); g.emit(string(k,' ')+"RETURN "+o+";"+cl+"1;RETURN 2"); g.emit(":a "+string(k,'x')+"\nRETURN 1;"); } }
static Reg r23({"P23","model_checking",g23,p23,"a case is an input text; the quick parser's segments are compared with its reference model, with the full parser where that accepts the text, and with the text itself; non-trivial: texts the full parser accepts",MODEL_ASSUME,10});

// ---- P25 flags -----------------------------------------------------------------------------
static string p25(const Case&c){ string r; for(int base:{0,(int)FL_STMT}){ Out d=impl::parse(c.in,base); if(!d.bad.empty()) return d.bad; Out want=d; if(want.segs.size()>1){ want.segs.resize(1); tally("nontrivial"); } if(want.segs.size()){ want.last=want.segs[0].r.e; want.lastset=true; } if(d.ret==0){ Out b=impl::parse(c.in,base|FL_SINGLE); if(!(r=diff(want,b,C_ALL)).empty()) return "with the single-segment flag: "+r; b=impl::fparse(c.in,{3},base|FL_SINGLE); if(!(r=diff(want,b,C_ALL&~C_CTX)).empty()) return "with the single-segment flag, from a stream: "+r; Out e=impl::parse_all(c.in,base|FL_SINGLE); if(!(r=diff(aggregate(want),e,C_ALL&~C_RANGE)).empty()) return "with the single-segment flag, whole result: "+r; 
      // resuming at the last position gives the rest
      Pos at{1,1,0}; size_t k=0; while(k<d.segs.size()){ Cfg cf; cf.init=at; Out o=impl::parse(c.in.substr(at.off),base|FL_SINGLE,cf); if(o.segs.size()!=1) return "resuming a single-segment parse delivers no segment"; Out w; w.segs.push_back(d.segs[k]); w.lastset=true; w.last=d.segs[k].r.e; if(!(r=diff(w,o,C_ALL)).empty()) return "resuming single-segment parses: "+r; at=o.last; k++; tally("resumptions"); } 
      QOut q=impl::qparse(c.in,base),qs=impl::qparse(c.in,base|FL_SINGLE); if(q.segs.size()>1) q.segs.resize(1); if(show(q)!=show(qs)&&!(q.segs.size()==1&&qs.segs.size()==0&&q.segs[0].text.empty())) return "quick parser with the single-segment flag gives\n"+show(qs)+"expected\n"+show(q); } }
  Out a=model::parse(c.in,FL_STMT),b=impl::parse(c.in,FL_STMT); if(!(r=diff(a,b,C_ALL)).empty()) return "statements only: "+r; for(auto&s:b.segs) for(auto&n:s.nodes) if(n.type==TY_command) return "a command with the statements-only flag";
  if(c.in.find(':')==string::npos){ Out n=impl::parse(c.in,0); bool err=!clean(n); int m=err?C_RET|C_SEG|C_RANGE|C_TREE|C_NRANGE|C_SIG|C_ERRN|C_ERRPOS|C_DIR|C_EOF|C_LAST:C_ALL; if(!(r=diff(n,b,m)).empty()) return "statements only, without commands: "+r; tally("without_commands"); }
  return ""; }
static void g25(Gen&g){ g_seeds(g,false); g_edits(g,0); g_pairs(g); g.begin("fragments",fmt("all sequences of up to %d fragments",g.t(4,5))); enums::strings({"RETURN 1",";",":a","\n","foo"," ","// c\n",":","CYPHER"},g.t(4,5),[&](const string&s){ g.emit(s); },0); }
static Reg r25({"P25","model_checking",g25,p25,"a case is an input text parsed under every flag combination; non-trivial: texts of more than one segment",MODEL_ASSUME,10});

// ---- P26 aggregation -------------------------------------------------------------------------
// counts, positions and types only, for very long inputs
namespace { struct Cnt{ size_t segs=0,roots=0,nodes=0,errs=0,dirs=0; string bad; vector<size_t> epos,rpos,dpos; vector<unsigned> ord; }; }
static size_t cnt_walk(const cypher_astnode_t*a){ size_t k=1; unsigned n=cypher_astnode_nchildren(a); for(unsigned i=0;i<n;i++) k+=cnt_walk(cypher_astnode_get_child(a,i)); return k; }
static int cnt_cb(void*u,cypher_parse_segment_t*x){ Cnt*l=(Cnt*)u; l->segs++; unsigned n=cypher_parse_segment_nroots(x); size_t walked=0; for(unsigned i=0;i<n;i++){ const cypher_astnode_t*a=cypher_parse_segment_get_root(x,i); if(!a){ l->bad="a root of a segment is missing"; return 0; } walked+=cnt_walk(a); l->rpos.push_back(cypher_astnode_range(a).start.offset); } l->roots+=n; n=cypher_parse_segment_nerrors(x); for(unsigned i=0;i<n;i++){ const cypher_parse_error_t*e=cypher_parse_segment_get_error(x,i); if(!e){ l->bad="an error of a segment is missing"; return 0; } l->epos.push_back(cypher_parse_error_position(e).offset); } l->errs+=n; if(cypher_parse_segment_nnodes(x)!=walked){ l->bad=fmt("a segment has %zu nodes and says %u",walked,cypher_parse_segment_nnodes(x)); return 0; } l->nodes+=walked; if(auto*d=cypher_parse_segment_get_directive(x)){ l->dirs++; l->dpos.push_back(cypher_astnode_range(d).start.offset); } return 0; }
static string p26counts(const Case&c){ size_t n=stoul(c.p[1]); const string&u=c.p[2]; bool z=c.in.back()==50; Cnt l; int rc=cypher_uparse_each(c.in.data(),c.in.size(),cnt_cb,&l,nullptr,nullptr,0); impl::execs+=2; if(rc) return "parsing fails"; if(!l.bad.empty()) return l.bad; tally("nontrivial");
  size_t errs=u[0]=='a'?n:0,dirs=u==":a"?n:u[0]=='R'?1:0; if(u=="a"){ dirs=0; errs=l.errs; if(errs<n) return fmt("%zu errors, expected at least %zu",errs,n); } if(u[0]=='/') dirs=0; if(z&&u!="a") dirs++; if(u=="a") dirs=l.dirs; if(l.errs!=errs) return fmt("the segments have %zu errors, expected %zu",l.errs,errs); if(l.dirs!=dirs) return fmt("the segments have %zu directives, expected %zu",l.dirs,dirs); if(u[0]=='/'&&l.roots<n) return fmt("%zu roots, expected at least %zu",l.roots,n); if(u[0]!='/'&&u!=":a"&&l.nodes<n) return fmt("%zu nodes, expected at least %zu",l.nodes,n);
  cypher_parse_result_t*x=cypher_uparse(c.in.data(),c.in.size(),nullptr,nullptr,0); if(!x) return "parsing fails"; string bad; auto cmp=[&](const char*w,size_t have,size_t want){ if(have!=want&&bad.empty()) bad=fmt("the result has %zu %s, its segments %zu",have,w,want); };
  cmp("errors",cypher_parse_result_nerrors(x),l.errs); cmp("roots",cypher_parse_result_nroots(x),l.roots); cmp("nodes",cypher_parse_result_nnodes(x),l.nodes); cmp("directives",cypher_parse_result_ndirectives(x),l.dirs);
  for(size_t i=0;i<l.errs&&bad.empty();i++){ auto*e=cypher_parse_result_get_error(x,i); if(!e||cypher_parse_error_position(e).offset!=l.epos[i]) bad=fmt("error %zu of the result is missing or another",i); } for(size_t i=0;i<l.roots&&bad.empty();i++){ auto*e=cypher_parse_result_get_root(x,i); if(!e||cypher_astnode_range(e).start.offset!=l.rpos[i]) bad=fmt("root %zu of the result is missing or another",i); } for(size_t i=0;i<l.dirs&&bad.empty();i++){ auto*e=cypher_parse_result_get_directive(x,i); if(!e||cypher_astnode_range(e).start.offset!=l.dpos[i]) bad=fmt("directive %zu of the result is missing or another",i); }
  cypher_parse_result_free(x); return bad; }
static string p26(const Case&c){ if(c.p.size()>2&&c.p[0]=="N") return p26counts(c);  int f=fl(c); Out d=impl::parse(c.in,f); if(!d.bad.empty()) return d.bad; Out e=impl::parse_all(c.in,f); if(!e.bad.empty()) return e.bad; Out w=aggregate(d); string r=diff(w,e,C_ALL&~C_RANGE); if(!r.empty()) return r; { Out m=aggregate(model::parse(c.in,f)); if(!(r=diff(m,e,C_ALL&~C_RANGE&~(c.in.size()>1000?C_CTX:0))).empty()) return "against the model: "+r; } e=impl::fparse_all(c.in,{4},f); if(d.segs.size()>1) tally("nontrivial"); return diff(w,e,C_ALL&~C_RANGE&~C_CTX); }
static void g26(Gen&g){ g_seeds(g); g_edits(g,0); g_pairs(g); g.begin("fragments",fmt("all sequences of up to %d fragments",g.t(4,5))); enums::strings({"RETURN 1",";",":a","\n","foo"," ","// c\n","'"},g.t(4,6),[&](const string&s){ g.emit(s); },0);
  g.begin("huge","255..257 and 4097 commands, statements, errors, comments"); for(int n:{255,256,257,4097}) for(auto*u:{"a;","RETURN 1;",":a\n",";","/*c*/"}){ if(n>300&&u[0]=='R') continue; string s; for(int i=0;i<n;i++) s+=u; g.emit(s); g.emit(s+"RETURN 2"); }
  g.begin("65537","65535..65537 errors, comments, clauses or commands, in one segment or many: all counts, positions and types of the whole result and its segments"); for(int n:{65535,65536,65537}) for(auto*u:{"a RETURN 1 ","/*c*/","RETURN 1 ",":a\n"}){ if(n<65537&&u[0]==58) continue; string s; for(int i=0;i<n;i++) s+=u; for(string z:{"",";RETURN 2"}){ if(u[0]==':'&&z.size()) continue; g.emit(s+z,{string("N"),fmt("%d",n),string(u,u[1]==32?1:2)}); } }
  g.begin("many","1..70 statements, commands, errors, comments (crossing every growth of the internal lists)"); for(int n=1;n<=70;n++) for(auto*u:{"RETURN 1;",":a\n","x;","/*c*/",";","//c\n","a b;RETURN 1;"}){ string s; for(int i=0;i<n;i++) s+=u; g.emit(s); g.emit(s+"RETURN 2"); g.emit(s+" "); } }
static Reg r26({"P26","model_checking",g26,p26,"a case is an input text; the whole result is compared with the concatenation of the segments; non-trivial: texts of more than one segment",MODEL_ASSUME,40});
static Reg r20({"P20","model_checking",g20,p20,"a case is an input text, parsed from five initial positions and resumed after each of its segments; non-trivial: texts with line breaks",MODEL_ASSUME,10});
