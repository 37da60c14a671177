// P24: the command line tool against the library calls it stands for.
#include "util.h"
#include "trees.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <pty.h>
#include <termios.h>
#include <poll.h>
#include <cerrno>
using namespace std;
namespace { struct Dir{ string d; Dir(){ char t[]="/tmp/vf24.XXXXXX"; d=mkdtemp(t); } ~Dir(){ for(auto*f:{"a.cyp","b b.cyp","c:1.cyp","in","out","err"}) unlink((d+"/"+f).c_str()); rmdir((d+"/dir").c_str()); rmdir(d.c_str()); } };
struct Want{ string out,err; int status=0; bool open_fail=false,read_fail=false; string fail_name; }; 
struct Opt{ bool single=false,ast=false,color=false,ecolor=false,stmts=false,stream=false; unsigned width=0; }; }
static void put(const string&p,const string&s){ int f=open(p.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); size_t o=0; while(o<s.size()){ ssize_t k=write(f,s.data()+o,s.size()-o); if(k<=0) break; o+=k; } close(f); }
static string get(const string&p){ int f=open(p.c_str(),O_RDONLY); string s; char b[8192]; ssize_t k; while((k=read(f,b,sizeof b))>0) s.append(b,k); close(f); return s; }
static string errs(const cypher_parse_error_t*e,const char*name){ string s=fmt("%s:%u:%u: ",name?name:"<stdin>",(unsigned)cypher_parse_error_position(e).line,(unsigned)cypher_parse_error_position(e).column)+cypher_parse_error_message(e)+"\n"+cypher_parse_error_context(e)+"\n"+string(cypher_parse_error_context_offset(e),' ')+"^\n"; return s; }
namespace { struct CB24{ Want*w; const Opt*o; const char*name; }; }
static int cb24(void*u,cypher_parse_segment_t*s){ CB24*c=(CB24*)u; for(unsigned i=0;i<cypher_parse_segment_nerrors(s);i++){ c->w->err+=errs(cypher_parse_segment_get_error(s,i),c->name); c->w->status=1; } int rc; if(c->o->ast) c->w->out+=render([&](FILE*f){ return cypher_parse_segment_fprint_ast(s,f,c->o->width,c->o->color?cypher_parser_ansi_colorization:0,0); },&rc); return 0; }
// what one input gives: name as printed (nullptr: none), streaming as asked
static void one(const string&t,const char*name,const Opt&o,Want&w){ cypher_parser_config_t*cf=cypher_parser_new_config(); if(o.ecolor) cypher_parser_config_set_error_colorization(cf,cypher_parser_ansi_colorization); unsigned fl=(o.single?CYPHER_PARSE_SINGLE:0)|(o.stmts?CYPHER_PARSE_ONLY_STATEMENTS:0); FILE*s=chunked_file(t,{4096}); impl::execs++;
  if(o.stream||!o.ast){ CB24 c={&w,&o,name}; cypher_fparse_each(s,cb24,&c,0,cf,fl); }
  else { cypher_parse_result_t*x=cypher_fparse(s,0,cf,fl); for(unsigned i=0;i<cypher_parse_result_nerrors(x);i++){ w.err+=errs(cypher_parse_result_get_error(x,i),name); w.status=1; } int rc; if(name) w.out+=string(name)+":\n"; w.out+=render([&](FILE*f){ return cypher_parse_result_fprint_ast(x,f,o.width,o.color?cypher_parser_ansi_colorization:0,0); },&rc); cypher_parse_result_free(x); }
  fclose(s); cypher_parser_config_free(cf); }
// a terminal that passes bytes unchanged
struct Pty{ int m=-1,s=-1; bool open_(){ if(openpty(&m,&s,0,0,0)) return false; struct termios t; tcgetattr(s,&t); cfmakeraw(&t); tcsetattr(s,TCSANOW,&t); fcntl(m,F_SETFD,FD_CLOEXEC); fcntl(s,F_SETFD,FD_CLOEXEC); return true; } ~Pty(){ if(m>=0) close(m); if(s>=0) close(s); } };
static int run_tty(const string&dir,const vector<string>&av,bool to,bool te,string&out,string&err,bool&have){ Pty O,E; have=(!to||O.open_())&&(!te||E.open_()); if(!have) return 0; pid_t p=fork(); if(!p){ if(chdir(dir.c_str())) _exit(126); int i=open("in",O_RDONLY),o=to?O.s:open("out",O_WRONLY|O_CREAT|O_TRUNC,0644),e=te?E.s:open("err",O_WRONLY|O_CREAT|O_TRUNC,0644); dup2(i,0); dup2(o,1); dup2(e,2); struct rlimit rl={20,21}; setrlimit(RLIMIT_CPU,&rl); string b=string(getenv("VF_BIN"))+"/cypher-lint"; vector<char*> a; a.push_back((char*)"cypher-lint"); for(auto&x:av) a.push_back((char*)x.c_str()); a.push_back(0); execv(b.c_str(),a.data()); _exit(127); }
  if(to){ close(O.s); O.s=-1; } if(te){ close(E.s); E.s=-1; } struct pollfd f[2]={{to?O.m:-1,POLLIN,0},{te?E.m:-1,POLLIN,0}}; while(f[0].fd>=0||f[1].fd>=0){ if(poll(f,2,-1)<0) break; for(int k=0;k<2;k++) if(f[k].fd>=0&&f[k].revents){ char b[4096]; ssize_t n=read(f[k].fd,b,sizeof b); if(n<=0) f[k].fd=-1; else (k?err:out).append(b,n); } }
  int st; waitpid(p,&st,0); if(!to) out=get(dir+"/out"); if(!te) err=get(dir+"/err"); return WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st); }
static int run_lint(const string&dir,const vector<string>&av){ pid_t p=fork(); if(!p){ if(chdir(dir.c_str())) _exit(126); int i=open("in",O_RDONLY),o=open("out",O_WRONLY|O_CREAT|O_TRUNC,0644),e=open("err",O_WRONLY|O_CREAT|O_TRUNC,0644); dup2(i,0); dup2(o,1); dup2(e,2); struct rlimit rl={20,21}; setrlimit(RLIMIT_CPU,&rl); string b=string(getenv("VF_BIN"))+"/cypher-lint"; vector<char*> a; a.push_back((char*)"cypher-lint"); for(auto&x:av) a.push_back((char*)x.c_str()); a.push_back(0); execv(b.c_str(),a.data()); _exit(127); } int st; waitpid(p,&st,0); return WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st); }
static const vector<string>&contents(){ static vector<string> v={"RETURN 1;","","RETURN 1; RETURN !;\nMATCH (n) RETURN n","!","match (n\nRETURN n; :cmd a b\n","//c\n/*d*/ ;","RETURN 'abc","a;b;c;RETURN 1","RETURN 1\r\nRETURN 2 !\r\n",string(200,'x')+" "+string(200,'y'),":cmd x;:y\nRETURN 1","RETURN [1,2,{a:'b'}] AS q;  ","\n\n\n   !\n","CREATE (a:L {p:'"+string(300,'s')+"'})-[:R]->(b)","RETURN '\xc3\xa9' !","\t\t!",";;;"}; return v; }
// p: options..., "|", inputs: "s" stdin implied, "-" , "a"/"b"/"c" files, "m" missing, "d" directory; then "|", contents of stdin, a, b, c
static string p24(const Case&c){ tally("states"); tally("nontrivial"); vector<string> opts,ins,txt; int ph=0; for(auto&x:c.p){ if(x=="|"){ ph++; continue; } (ph==0?opts:ph==1?ins:txt).push_back(x); } txt.resize(4); Dir D; put(D.d+"/in",txt[0]); put(D.d+"/a.cyp",txt[1]); put(D.d+"/b b.cyp",txt[2]); put(D.d+"/c:1.cyp",txt[3]); mkdir((D.d+"/dir").c_str(),0755);
  bool to=false,te=false; if(opts.size()&&opts[0].compare(0,4,"tty:")==0){ to=opts[0].find('o')!=string::npos; te=opts[0].find('e')!=string::npos; opts.erase(opts.begin()); } vector<string> av=opts; Opt o; o.color=to; o.ecolor=te; bool special=false,bad=false; for(size_t i=0;i<opts.size();i++){ const string&x=opts[i]; if(special||bad) break; if(x=="-1") o.single=true; else if(x=="-a"||x=="--ast") o.ast=true; else if(x=="-1a"||x=="-a1") o.single=o.ast=true; else if(x=="--colorize"||x=="--colourise"||x=="--colorise") o.color=o.ecolor=true; else if(x=="--no-colorize"||x=="--no-colourise"||x=="--no-colorise") o.color=o.ecolor=false; else if(x=="--only-statements") o.stmts=true; else if(x=="--stream") o.stream=true; else if(x=="--output-width"){ o.width=atoi(opts[++i].c_str()); } else if(x.compare(0,15,"--output-width=")==0) o.width=atoi(x.c_str()+15); else if(x=="--help"||x=="-h"||x=="--version") special=true; else bad=true; }
  Want w; bool stdin_used=false; string rd=txt[0]; for(auto&x:ins){ if(x=="s") continue; av.push_back(x=="a"?"a.cyp":x=="b"?"b b.cyp":x=="c"?"c:1.cyp":x=="m"?"missing.cyp":x=="d"?"dir":"-"); }
  if(!special&&!bad) for(auto&x:ins){ if(x=="s") one(txt[0],nullptr,o,w); else if(x=="-"){ one(stdin_used?"":txt[0],"<stdin>",o,w); stdin_used=true; } else if(x=="m"||x=="d"){ w.status=1; w.open_fail=true; w.fail_name=x=="m"?"missing.cyp":""; break; } else { int k=x[0]-'a'+1; one(txt[k],k==1?"a.cyp":k==2?"b b.cyp":"c:1.cyp",o,w); } }
  string out,err; int st; if(to||te){ bool have; st=run_tty(D.d,av,to,te,out,err,have); if(!have){ tally("no_terminal"); return ""; } tally("terminals"); } else { st=run_lint(D.d,av); out=get(D.d+"/out"),err=get(D.d+"/err"); } tally("transitions"); if(out==""&&err==""&&st==127) return "the tool cannot be run"; string cmd="cypher-lint"; for(auto&x:av) cmd+=" "+x; cmd+=" (stdin "+esc(txt[0])+"): ";
  if(err.find("AddressSanitizer")!=string::npos||err.find("runtime error")!=string::npos) return cmd+esc(err.substr(0,600));
  if(special){ if(st) return cmd+fmt("exits with %d",st); if(err.size()) return cmd+"writes to the error stream"; if(out.empty()) return cmd+"prints nothing"; if(opts.back()=="--version"&&out.find(libcypher_parser_version())==string::npos) return cmd+"prints another version"; return ""; }
  if(bad){ if(st!=1) return cmd+fmt("exits with %d",st); if(err.empty()) return cmd+"prints nothing"; if(out.size()) return cmd+"prints "+esc(out); return ""; }
  if(st!=(w.status?1:0)) return cmd+fmt("exits with %d, expected %d",st,w.status?1:0)+": "+esc(err.substr(0,300));
  if(out!=w.out) return cmd+"prints "+esc(out.substr(0,2000))+"\nexpected "+esc(w.out.substr(0,2000));
  if(w.open_fail){ if(err.compare(0,w.err.size(),w.err)) return cmd+"reports "+esc(err)+"\nexpected "+esc(w.err); if(err.size()==w.err.size()) return cmd+"does not say that a file cannot be read"; if(w.fail_name.size()&&err.find(w.fail_name,w.err.size())==string::npos) return cmd+"does not name the file that cannot be read"; return ""; }
  if(err!=w.err) return cmd+"reports "+esc(err)+"\nexpected "+esc(w.err); return ""; }
static void g24(Gen&g){ auto&C=contents(); auto add=[&](vector<string> o,const vector<string>&ins,const vector<string>&txt){ o.push_back("|"); for(auto&x:ins) o.push_back(x); o.push_back("|"); for(auto&x:txt) o.push_back(x); g.emit("",o); };
  vector<vector<string>> O; for(int m=0;m<32;m++){ for(int w=0;w<g.t(2,5);w++){ vector<string> o; if(m&1) o.push_back("-1"); if(m&2) o.push_back(m&1?"--ast":"-a"); if(m&4) o.push_back(m&8?"--colourise":"--colorize"); if(m&8) o.push_back("--only-statements"); if(m&16) o.push_back("--stream"); if(w==1){ o.push_back("--output-width"); o.push_back("30"); } if(w>1) o.push_back(w==2?"--output-width=100":w==3?"--output-width=1":"--output-width=0"); O.push_back(o); } }
  g.begin("options",fmt("every combination of the options (and two widths) on each of %zu inputs as a file, standard input and \"-\"",C.size())); for(auto&o:O) for(auto&t:C){ add(o,{"s"},{t}); if(g.thorough||(o.size()<3)) add(o,{"-"},{t}),add(o,{"a"},{"",t}); }
  g.begin("colours","every sequence of up to three colour options, with and without trees"); vector<string> CO={"--colorize","--no-colorize","--colorise","--no-colourise"}; for(auto*a:{"","-a"}) for(auto&x:CO) for(auto&y:CO) for(auto&z:CO){ vector<string> o={x,y,z}; if(*a) o.push_back(a); for(int t:{0,2,3}) add(o,{"s"},{C[t]}); }
  g.begin("files",fmt("every pair of inputs as two files, and with a third, under %d settings",g.t(4,16))); for(size_t i=0;i<C.size();i++) for(size_t j=0;j<C.size();j++) for(int q=0;q<g.t(4,16);q++){ if(!g.thorough&&(i+j+q)%3) continue; vector<string> o; if(q&1) o.push_back("-a"); if(q&2) o.push_back(q&1?"--stream":"-1"); if(q&4) o.push_back("--only-statements"); if(q&8) o.push_back("--colorize"); add(o,{"a","b"},{"",C[i],C[j]}); if((i+j)%4==0) add(o,{"c","-","a"},{C[j],C[i],"",C[(i+j)%C.size()]}); }
  g.begin("unreadable","every sequence of up to three files that are good, erroneous, missing, a directory or standard input"); vector<string> F={"a","b","m","d","-"}; for(auto&x:F) for(int q=0;q<4;q++){ vector<string> o; if(q&1) o.push_back("-a"); if(q&2) o.push_back("--stream"); vector<string> t={"RETURN 3","RETURN 1;","RETURN !",""}; add(o,{x},t); for(auto&y:F){ add(o,{x,y},t); for(auto&z:F) add(o,{x,y,z},t); } }
  g.begin("other","help, version and unknown options, alone and after others"); for(auto*x:{"-h","--help","--version","--bogus","-x","-v","--output-width","-1a","-a1","--bogus=1","--ast=3","--stream=x"}){ vector<string> pre[]={{},{"-a"},{"-1","--stream"}}; for(auto o:pre){ o.push_back(x); if(string(x)=="--output-width") continue; add(o,{"s"},{"RETURN 1; RETURN 2"}); } }
  g.begin("counts","1..4, 7, 8, 15, 16, 127..129, 255..257, 511..513, 1023..1025 and 65536 errors, in one input, as many segments or one, and spread over files"); for(int n:{1,2,3,4,7,8,15,16,127,128,129,255,256,257,511,512,513,1023,1024,1025,65536}){ string t,u; for(int i=0;i<n;i++){ t+="!;"; u+="! RETURN 1 "; } vector<vector<string>> os={{},{"-a","--stream"}}; if(n<2000) os.push_back({"-a"}); for(auto&o:os){ add(o,{"s"},{t}); add(o,{"a"},{"",u}); if(n>1000) continue; vector<string> many(n,"a"); add(o,many,{"","!"}); many.push_back("b"); add(o,many,{"","!","RETURN 1;"}); add(o,{"a","b"},{"",t.substr(0,n/2*2),t.substr(n/2*2)}); } }
  g.begin("positions","an error after many lines, columns and bytes"); for(int n:{9,10,99,100,255,256,999,1000,9999,10000,32768,65535,65536,100000}) for(char ch:{' ','\n'}) for(auto&o:vector<vector<string>>{{},{"-a"},{"-a","--stream"}}) add(o,{"s"},{"RETURN"+string(n,ch)+"1 !;\nRETURN 2"});
  g.begin("terminal","the output, the error stream or both on a terminal, with every sequence of up to two colour options, with and without trees, streamed or whole"); for(auto*w:{"tty:o","tty:e","tty:oe"}) for(auto*x:{"","--colorize","--no-colorize","--colourise","--no-colourise"}) for(auto*y:{"","--colorize","--no-colorize"}) for(int q=0;q<3;q++){ vector<string> o={w}; if(*x) o.push_back(x); if(*y) o.push_back(y); if(q) o.push_back("-a"); if(q>1) o.push_back("--stream"); for(int t:{0,2,3,4}) add(o,{"s"},{C[t]}); if(!*y) add(o,{"a","m"},{"","x; RETURN 1"}); }
  g.begin("texts","every listed text on standard input, plain, and with trees, streamed or whole"); auto T=[&](const string&s){ add({},{"s"},{s}); add({"-a"},{"s"},{s}); add({"-a","--stream","--output-width=60"},{"a"},{"",s}); }; for(auto&s:enums::bad_seeds()) T(s); for(auto&s:enums::multi_seeds()) T(s); if(g.thorough) for(auto&s:enums::seeds()) T(s);
  g.begin("segments","every sequence of up to 3 (thorough 4) statements, commands, comments and errors"); enums::strings({"RETURN 1;",";",":a b\n","x;"," ","//c\n","RETURN 'a"},g.t(3,4),[&](const string&s){ add({"-a"},{"s"},{s}); add({"-1"},{"s"},{s}); if(g.thorough) add({"--only-statements","--stream","-a"},{"s"},{s}); }); }
static Reg r24({"P24","exploration",g24,p24,"a case is a command line with its files; states are runs of the tool; non-trivial: all","the expected output is made by the library calls the options stand for, which the other checks decide; after a file that cannot be read the following ones are not read",60});
