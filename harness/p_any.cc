// P01: any bytes, through every entry point, under the address sanitizer and the ledger.
#include "util.h"
#include "trees.h"
#include "nest.h"
#include <cerrno>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <pthread.h>
using namespace std;
typedef const cypher_astnode_t*NP; typedef cypher_astnode_t*N_;
static void texts(const function<void(const string&)>&f){ for(auto&s:enums::seeds()) f(s); for(auto&s:enums::multi_seeds()) f(s); for(auto&s:enums::bad_seeds()) f(s); }
static unsigned cfl(int f){ return (f&FL_SINGLE?CYPHER_PARSE_SINGLE:0)|(f&FL_STMT?CYPHER_PARSE_ONLY_STATEMENTS:0); }
static volatile unsigned sink_;
static void touch(const char*p,size_t n){ unsigned x=0; for(size_t i=0;i<n;i++) x+=(unsigned char)p[i]; sink_+=x; }
static void touch(const char*p){ if(p) touch(p,strlen(p)); }
static void touch_err(const cypher_parse_error_t*e){ touch(cypher_parse_error_message(e)); touch(cypher_parse_error_context(e)); sink_+=cypher_parse_error_context_offset(e)+cypher_parse_error_position(e).offset; }
namespace { struct Keep{ vector<cypher_parse_segment_t*> v; string bad; bool print; int n=0; }; }
static int keep_seg(void*u,cypher_parse_segment_t*s){ Keep*k=(Keep*)u; if(k->n++%2==0){ cypher_parse_segment_retain(s); k->v.push_back(s); } for(unsigned i=0;i<cypher_parse_segment_nerrors(s);i++) touch_err(cypher_parse_segment_get_error(s,i)); if(k->print){ int rc; render([&](FILE*f){ return cypher_parse_segment_fprint_ast(s,f,30,0,0); },&rc); if(rc) k->bad="rendering a segment fails"; } return 0; }
static int touch_q(void*u,const cypher_quick_parse_segment_t*s){ size_t n; const char*p=cypher_quick_parse_segment_get_text(s,&n); touch(p,n); ++*(int*)u; return 0; }
static string all_ways(const string&t,int f,bool full){ char*b=(char*)malloc(t.size()?t.size():1); memcpy(b,t.data(),t.size()); string r; size_t n=t.size();
  // a result, all of it read, rendered and cloned
  cypher_parse_result_t*x=cypher_uparse(b,n,0,0,cfl(f)); impl::execs++; if(!x) r=fmt("no result, errno %d",errno); else { if(full){ Out o=impl_result(x); r=o.bad; } for(unsigned i=0;i<cypher_parse_result_nerrors(x);i++) touch_err(cypher_parse_result_get_error(x,i)); int rc; if(full&&r.empty()) for(int w:{0,7,80}){ render([&](FILE*o){ return cypher_parse_result_fprint_ast(x,o,w,w==7?cypher_parser_ansi_colorization:0,0); },&rc); if(rc) r="rendering fails"; }
    vector<N_> cl; if(full&&r.empty()) for(unsigned i=0;i<cypher_parse_result_nroots(x);i++){ cl.push_back(cypher_ast_clone(cypher_parse_result_get_root(x,i))); if(!cl.back()) r="cloning fails"; } cypher_parse_result_free(x); for(N_ c:cl) cypher_ast_free(c); }
  // segments, every other one kept beyond the parse
  if(r.empty()){ Keep k; k.print=full; struct cypher_input_position l; int rc=cypher_uparse_each(b,n,keep_seg,&k,&l,0,cfl(f)); impl::execs++; r=k.bad; if(rc) r=fmt("parsing returns %d, errno %d",rc,errno); free(b); b=nullptr; for(auto*s:k.v){ for(unsigned i=0;i<cypher_parse_segment_nerrors(s);i++) touch_err(cypher_parse_segment_get_error(s,i)); if(full&&r.empty()){ Seg g=impl_segment(s,r); } cypher_parse_segment_release(s); } }
  if(b) free(b); if(!r.empty()) return r; b=(char*)malloc(n?n:1); memcpy(b,t.data(),n);
  { int c=0; int rc=cypher_quick_uparse(b,n,touch_q,&c,cfl(f)); impl::execs++; if(rc) r=fmt("quick parsing returns %d",rc); } free(b); if(!r.empty()) return r;
  // streams
  for(vector<size_t> ch:full?vector<vector<size_t>>{{1},{3,1024}}:vector<vector<size_t>>{{1024}}){ FILE*s=chunked_file(t,ch); Keep k; k.print=false; int rc=cypher_fparse_each(s,keep_seg,&k,0,0,cfl(f)); fclose(s); for(auto*q:k.v) cypher_parse_segment_release(q); if(rc) return fmt("parsing a stream returns %d, errno %d",rc,errno); s=chunked_file(t,ch); int c=0; rc=cypher_quick_fparse(s,touch_q,&c,cfl(f)); fclose(s); if(rc) return fmt("quick parsing a stream returns %d",rc); impl::execs+=2; }
  // another start, colours in messages, a whole stream, a terminated string
  { cypher_parser_config_t*cf=cypher_parser_new_config(); struct cypher_input_position p={7,100,12345}; cypher_parser_config_set_initial_position(cf,p); cypher_parser_config_set_initial_ordinal(cf,999999); cypher_parser_config_set_error_colorization(cf,cypher_parser_ansi_colorization); FILE*s=chunked_file(t,{5}); x=cypher_fparse(s,0,cf,cfl(f)); fclose(s); if(!x) r="no result"; else { for(unsigned i=0;i<cypher_parse_result_nerrors(x);i++) touch_err(cypher_parse_result_get_error(x,i)); cypher_parse_result_free(x); } impl::execs++;
    if(r.empty()&&t.find('\0')==string::npos){ x=cypher_parse(t.c_str(),0,cf,cfl(f)); if(!x) r="no result"; else cypher_parse_result_free(x); impl::execs++; } cypher_parser_config_free(cf); }
  return r; }
// the fewest that reach every part of the parsers
static string few_ways(const string&t,int f){ size_t n=t.size(); char*b=(char*)malloc(n?n:1); memcpy(b,t.data(),n); Keep k; k.print=false; struct cypher_input_position l; string r; int rc=cypher_uparse_each(b,n,keep_seg,&k,&l,0,cfl(f)); int c=0; int rq=cypher_quick_uparse(b,n,touch_q,&c,cfl(f)); free(b); impl::execs+=3; for(auto*s:k.v){ Seg g=impl_segment(s,r); for(unsigned i=0;i<cypher_parse_segment_nerrors(s);i++) touch_err(cypher_parse_segment_get_error(s,i)); cypher_parse_segment_release(s); } if(rc||rq) return fmt("parsing returns %d and %d",rc,rq);
  FILE*s=chunked_file(t,{1}); cypher_parse_result_t*x=cypher_fparse(s,0,0,cfl(f)); fclose(s); if(!x) return "no result"; for(unsigned i=0;i<cypher_parse_result_nerrors(x);i++) touch_err(cypher_parse_result_get_error(x,i)); int z; render([&](FILE*o){ return cypher_parse_result_fprint_ast(x,o,40,0,0); },&z); cypher_parse_result_free(x); return r; }
// in a thread with the stack a program has by default; true when it survives
static bool survives(const function<void()>&f){ pid_t p=fork(); if(!p){ int n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,8u<<20); pthread_t th; if(pthread_create(&th,&a,[](void*u)->void*{ (*(function<void()>*)u)(); return 0; },(void*)&f)) _exit(3); pthread_join(th,0); _exit(0); } int st=0; waitpid(p,&st,0); return WIFEXITED(st)&&WEXITSTATUS(st)==0; }
static string rep(const string&u,int n){ string s; while(n-->0) s+=u; return s; }
struct Deep{ const char*key,*pre,*open,*core,*close; };
static const Deep DEEP[]={{"paren","RETURN ","(","1",")"},{"collection","RETURN ","[","1","]"},{"call","RETURN ","f(","1",")"},{"not","RETURN ","NOT ","1",""},{"minus","RETURN ","- ","1",""},{"case-then","RETURN ","CASE WHEN x THEN ","1"," END"},{"comp-eval","RETURN ","[x IN y | ","1","]"},{"subscript-in","RETURN ","x[","1","]"},{"foreach","","FOREACH (x IN y | ","CREATE (n)",")"},
 {"clauses","CREATE (a)",""," RETURN 1"," CREATE (b)"},{"unions","RETURN 1",""," "," UNION RETURN 1"},{"sum","RETURN 1",""," "," + 2"},{"property","RETURN a","","",".b"},{"subscript","RETURN a","","","[0]"},{"power","RETURN ","2 ^ ","1",""}};
static string p01(const Case&c){ const string&t=c.in; tally("states"); if(c.p.size()&&c.p[0]=="D"){ // deep: p = D key depth
    tally("nontrivial"); string t; int d=atoi(c.p[2].c_str()); for(auto&k:DEEP) if(c.p[1]==k.key) t=k.pre+rep(k.open,d)+k.core+rep(k.close,d); bool ok=survives([&]{ cypher_parse_result_t*x=cypher_uparse(t.data(),t.size(),0,0,0); if(x&&d<5000&&cypher_parse_result_nroots(x)){ cypher_astnode_t*y=cypher_ast_clone(cypher_parse_result_get_root(x,0)); cypher_ast_free(y); FILE*o=fopen("/dev/null","w"); cypher_parse_result_fprint_ast(x,o,0,0,0); fclose(o); } if(x) cypher_parse_result_free(x); }); impl::execs++; if(ok) return ""; return known("stack:"+c.p[1]+":"+c.p[2],fmt("parsing %s nested %s levels deep overflows a stack of 8 MB",c.p[1].c_str(),c.p[2].c_str())); }
  if(t.size()>1) tally("nontrivial"); bool lite=c.p.size()&&c.p[0]=="L",four=t.size()<=24&&!lite; string r; for(int f=0;f<4;f++){ if(!four&&(f&1)) continue; if(lite){ r=few_ways(t,f); if(!r.empty()) return fmt("flags %d: ",f)+r; if(alloc::live()) return fmt("flags %d: ",f)+alloc::leak(); tally("transitions"); continue; } r=all_ways(t,f,t.size()<=300||(f==0&&t.size()<5000)); if(!r.empty()) return fmt("flags %d: ",f)+r; if(alloc::live()) return fmt("flags %d: ",f)+alloc::leak(); tally("transitions"); } return ""; }
static const vector<string> KW={"MATCH","RETURN","WITH","WHERE","CREATE","UNIQUE","MERGE","ON","SET","DELETE","DETACH","REMOVE","FOREACH","UNWIND","AS","CALL","YIELD","UNION","ALL","START","LOAD","CSV","FROM","HEADERS","USING","INDEX","SCAN","JOIN","PERIODIC","COMMIT","OPTIONAL","ORDER","BY","SKIP","LIMIT","DESC","DISTINCT","CASE","WHEN","THEN","ELSE","END","AND","OR","XOR","NOT","IN","IS","NULL","STARTS","CONTAINS","DROP","CONSTRAINT","ASSERT","EXPLAIN","PROFILE","CYPHER","filter","extract","reduce","any","shortestPath","node","rel","x","1","1.5","0x1f","'s'","\"t\"","`u`","$p","{q}","(",")","[","]","{","}","-","->","<-","--",":","::","=","=~","<>","<",">","+","*","/","%","^",".","..",",","|",";","//c\n","/*d*/","\n",":cmd","'","\"","`","/*","//","\\","!","\t",string("\0",1),"\xff","\xc3\xa9"};
static void g01(Gen&g){ auto L=[&](const string&s){ if(g.thorough) g.emit(s); else g.emit(s,{"L"}); }; auto B=[](int i){ return string(1,(char)i); };
  g.begin("bytes","every byte string of length 0, 1 and 2, through up to twelve entry points under every flag combination (quick: two-byte strings and the next five groups through five, with and without statements only)"); g.emit(""); for(int i=0;i<256;i++){ g.emit(B(i)); for(int j=0;j<256;j++) L(B(i)+B(j)); }
  g.begin("bytes within",fmt("every sequence of %s within quotes, backticks, comments, commands, numbers, names, patterns and at the end of each",g.t(0,1)?"two bytes":"one byte, and of a byte and a structural character,")); for(auto*x:{"RETURN '@'","RETURN '\\@'","RETURN \"@\"","RETURN `@`","/*@*/","/*@","//@",":@",":a @\n;",":a '@'","RETURN 1@","RETURN 0@","RETURN 1.@","RETURN a@b","RETURN $@","RETURN {@}","MATCH (@)","MATCH ()-[@]-()","@;@","RETURN 1;@","CYPHER @ RETURN 1","\n@\nRETURN 1"}){ string pre,post; { string s=x; size_t a=s.find('@'); pre=s.substr(0,a); post=s.substr(a+1); size_t q; while((q=post.find('@'))!=string::npos) post.erase(q,1); } for(int i=0;i<256;i++){ L(pre+B(i)+post); if(g.thorough) for(int j=0;j<256;j++) L(pre+B(i)+B(j)+post); else for(auto*z:{"'","\"","`","\\","\n","*","/",";",":"}) L(pre+B(i)+z+post),L(pre+z+B(i)+post); } }
  g.begin("structure",fmt("every string of up to %d structural characters",g.t(5,6))); enums::strings({"'","\\","`","/","*","\n",";",":","a"," "},g.t(5,6),[&](const string&s){ L(s); },3); enums::strings({"(",")","[","]","{","}","-","a",",","1"},g.t(4,5),[&](const string&s){ L("RETURN "+s); });
  g.begin("tokens",fmt("every sequence of up to %d of the language's %zu tokens",g.t(2,3),KW.size())); enums::strings(KW,g.t(2,3),[&](const string&s){ L(s); },1); { string o; for(auto&a:KW) for(auto&b:KW) L(a+" "+b); for(auto&a:KW) for(auto&b:KW){ L("RETURN "+a+" "+b); L("MATCH (n"+a+b); if(g.thorough) for(auto&d:KW) L("RETURN "+a+" "+b+" "+d),L("MATCH (n) "+a+" "+b+" "+d); } }
  g.begin("cuts","every listed text cut short at every byte, and with each byte removed, doubled and replaced by each of 9 others"); texts([&](const string&s){ if((int)s.size()>g.t(120,100000)) return; for(size_t i=0;i<=s.size();i++){ L(s.substr(0,i)); L(s.substr(i)); if(i<s.size()){ L(s.substr(0,i)+s.substr(i+1)); if(g.thorough||s.size()<60){ L(s.substr(0,i)+s[i]+s.substr(i)); for(char z:{'\0','\xff','\'','"','`','\\','\n','/',';'}) L(s.substr(0,i)+z+s.substr(i+1)); } } } });
  g.begin("edits","every single token edit of the listed texts"); texts([&](const string&s){ if((int)s.size()<=g.t(90,100000)) enums::edits(s,g.thorough?KW:vector<string>{"(","[","{","'","/*",";","RETURN","-","\n",":","`"},[&](const string&t){ L(t); },true); });
  g.begin("sentences",fmt("sentences of every rule of the language with at most %d deviations",g.t(2,3))); for(auto&cx:enums::contexts) enums::sentences(cx,g.t(2,3),g.t(40,60),[&](const string&m){ g.emit(cx.pre+enums::layout(m,1)+cx.post); },g.t(3000,60000));
  static const char*PAD[][2]={{"RETURN '","'"},{"RETURN \"","\""},{"RETURN `","`"},{"RETURN '","\\n'"},{"RETURN ",""},{"RETURN 1",""},{"/*","*/;"},{"//","\n;"},{":a ","\n"},{"RETURN 1 AS ",";"},{"MATCH (n:",")"},{"",""},{"RETURN 1;","RETURN 2"},{"RETURN $",""},{"'",""},{"/*",""},{"RETURN a.",""},{"!","!"},{"RETURN 1 +","+ 1"},{"CALL ","() RETURN 1"}};
  g.begin("sizes","20 places filled with one of 8 characters up to each length from 1 to 70 and around each power of two up to 65536 (thorough: 1 MB, and each length up to 2100)"); vector<int> LN; for(int i=1;i<=g.t(70,2100);i++) LN.push_back(i); for(int k=7;k<=g.t(13,16);k++) for(int d=-3;d<=3;d++) if((1<<k)+d>g.t(70,2100)) LN.push_back((1<<k)+d); LN.push_back(16384); LN.push_back(65536); if(g.thorough) LN.push_back(1<<20); for(auto&p:PAD) for(char ch:{'a','1',' ','\n','\'','\\','\0','\xff'}) for(int n:LN){ if(!g.thorough&&n>1100&&ch!='a'&&ch!='1'&&ch!='\n') continue; if(n>20000&&(ch!='a')) continue; if(n>2100&&(ch=='\n'||ch==' ')) continue; /* the quick parser takes quadratic time over white space */ g.emit(p[0]+string(n,ch)+p[1]); }
  g.begin("long lists","each of 29 repeatable parts repeated 1000 times, and, but for segments, path steps, unions and left-recursive operators, 33000 times, four of them 65600 times (thorough: all, up to 200000)"); static const char*R[][3]={{"RETURN 1","",";"},{"RETURN 1",",2",""},{"RETURN [1",",2","]"},{"RETURN {a:1",",b:2","}"},{"RETURN f(1",",2",")"},{"MATCH (a)","-->(b)",""},{"MATCH (a)",",(b)",""},{"MATCH (a","|:B",")"},{"MATCH (a",":B",")"},{"MATCH ()-[:A","|:B","]-()"},{"RETURN 1"," + 2",""},{"RETURN 1"," < 2",""},{"RETURN a",".b",""},{"RETURN a","[0]",""},{"RETURN CASE"," WHEN 1 THEN 2"," END"},{"","RETURN 1;",""},{"","!;",""},{"",":a\n",""},{""," //c\n",""},{"","/*c*/",""},{"CREATE (a)"," CREATE (b)",""},{"SET a.b=1",",c.d=2",""},{"MATCH (n) DELETE a",",b",""},{"RETURN 1 ORDER BY a",",b",""},{"CALL f(1",",2",")"},{":a"," b","\n"},{"RETURN a{.b",",.c","}"},{"START n=node(1",",2",")"},{"RETURN 1 "," UNION RETURN 1",""}};
  for(auto&r:R) for(int n:g.thorough?vector<int>{1000,32767,32768,65534,65535,65536,65537,200000}:vector<int>{1000,33000,65600}){ bool seg=!*r[0]&&(strchr(r[1],';')||strchr(r[1],'\n')),square=!strcmp(r[1],"-->(b)")||!strcmp(r[1]," + 2")||!strcmp(r[1],".b")||!strcmp(r[1],"[0]")||strstr(r[1],"UNION"); /* whose trees are as deep as they are long */ if((seg||square)&&n>=5000){ if(g.thorough&&n==65536) g.emit(r[0]+rep(r[1],9000)+r[2],{"L"}); continue; } if(n==65600&&strcmp(r[1],":B")&&strcmp(r[1]," b")&&strcmp(r[0],"RETURN [1")&&strcmp(r[1],"/*c*/")) continue; g.emit(r[0]+rep(r[1],n)+r[2],n>5000?vector<string>{"L"}:vector<string>{}); }
  g.begin("nesting",fmt("each of %zu nestable forms nested up to %d levels, closed, unclosed, and with an error inside; forms whose parsing takes exponential time up to 5 levels",sizeof NESTS/sizeof*NESTS,g.t(60,300))); for(auto&n:NESTS) for(int d:{1,2,3,5,20,g.t(60,300)}){ bool slow=nest_slow(n.key); for(auto*core:{"1","","!","'"}) { if(d<=5||!slow||(*core=='1'&&strcmp(n.key,"collection-in"))) g.emit("RETURN "+rep(n.open,d)+core+rep(n.close,d)); if(d<=5||!slow) g.emit("RETURN "+rep(n.open,d)+core); } }
  for(auto&n:CLAUSES) for(int d:{1,5,g.t(30,100)}) for(auto*core:{"CREATE (n)","","!"}){ g.emit(rep(n.open,d)+core+rep(n.close,d)); g.emit(rep(n.open,d)+core); }
  g.begin("stack","15 nestable or repeatable forms, 100, 1000 and 100000 deep or long, on a stack of 8 MB"); for(auto&k:DEEP) for(int d:{100,1000,100000}) g.emit("",{"D",k.key,to_string(d)}); }
static Reg r01({"P01","exploration",g01,p01,"a case is an input, given to twelve entry points under its flag combinations, read completely, rendered, cloned and released; non-trivial: inputs of more than one byte","invalid accesses are those the address and undefined-behaviour sanitizers see; leaks and double releases those of the ledger of the library's allocations",30});
