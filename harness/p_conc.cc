// P21: parses nested in callbacks, interleaved in threads, in any order.
#include "util.h"
#include "trees.h"
#include <semaphore.h>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
using namespace std;
typedef const cypher_astnode_t*NP; typedef cypher_astnode_t*N_;
namespace { struct Op21{ int kind; string text; }; }
static const int NK=7; static const char*KN[]={"parsing a buffer","parsing a stream","quick parsing a buffer","quick parsing a stream","a whole result, rendered","cloning and annotating","parsing with a configuration"};
static unsigned cfl(int f){ return (f&FL_SINGLE?CYPHER_PARSE_SINGLE:0)|(f&FL_STMT?CYPHER_PARSE_ONLY_STATEMENTS:0); }
// what an operation gives, in words
static string run_op(const Op21&o){ switch(o.kind){
  case 0: return show(impl::parse(o.text,0)); case 1: return show(impl::fparse(o.text,{5},0)); case 2: return show(impl::qparse(o.text,0)); case 3: return show(impl::qfparse(o.text,{5},0));
  case 4: { cypher_parse_result_t*x=cypher_uparse(o.text.data(),o.text.size(),0,0,0); impl::execs++; if(!x) return "no result"; int rc; string r=render([&](FILE*f){ return cypher_parse_result_fprint_ast(x,f,60,cypher_parser_ansi_colorization,0); },&rc); for(unsigned i=0;i<cypher_parse_result_nerrors(x);i++){ auto*e=cypher_parse_result_get_error(x,i); r+=string(cypher_parse_error_message(e))+"|"+cypher_parse_error_context(e)+"\n"; } cypher_parse_result_free(x); return r+to_string(rc); }
  case 5: { cypher_parse_result_t*x=cypher_uparse(o.text.data(),o.text.size(),0,0,0); impl::execs++; if(!x) return "no result"; string r; cypher_ast_annotation_context_t*a=cypher_ast_annotation_context(); for(unsigned i=0;i<cypher_parse_result_nroots(x);i++){ NP n=cypher_parse_result_get_root(x,i); N_ k=cypher_ast_clone(n); cypher_astnode_attach_annotation(a,k,(void*)(size_t)(i+1),0); cypher_astnode_attach_annotation(a,n,(void*)(size_t)(i+7),0); int rc; r+=render([&](FILE*f){ return cypher_ast_fprint(k,f,0,0,0); },&rc); r+=to_string((size_t)cypher_astnode_get_annotation(a,k))+","+to_string((size_t)cypher_astnode_get_annotation(a,n)); cypher_ast_free(k); } cypher_ast_annotation_context_free(a); cypher_parse_result_free(x); return r; }
  default: { Cfg c; c.init=Pos{5,9,100}; c.ord=50; c.color=true; return show(impl::parse(o.text,0,c)); } } }
// ---- nesting
namespace { struct Nst{ const vector<Op21>*ops; size_t level; vector<string>*out; int at; int calls=0; Out o; QOut q; vector<string> before; string bad; }; }
static string run_nested(const vector<Op21>&ops,size_t level,int at,string&bad);
static int nest_cb(void*u,cypher_parse_segment_t*s){ Nst*n=(Nst*)u; Seg a=impl_segment(s,n->o.bad); if(n->at<0||n->calls==n->at) if(n->level+1<n->ops->size()){ string r=run_nested(*n->ops,n->level+1,n->at<0?-1:0,n->bad); n->out->push_back(r); } n->calls++; Seg b=impl_segment(s,n->o.bad); Out x,y; x.segs={a}; y.segs={b}; string d=diff(x,y,C_ALL); if(d.size()&&n->bad.empty()) n->bad="a segment changed while another parse ran: "+d; n->o.segs.push_back(b); return 0; }
static int nest_q(void*u,const cypher_quick_parse_segment_t*s){ Nst*n=(Nst*)u; size_t k; const char*p=cypher_quick_parse_segment_get_text(s,&k); string a(p,k); if(n->at<0||n->calls==n->at) if(n->level+1<n->ops->size()){ string r=run_nested(*n->ops,n->level+1,n->at<0?-1:0,n->bad); n->out->push_back(r); } n->calls++; QSeg q; q.stmt=cypher_quick_parse_segment_is_statement(s); p=cypher_quick_parse_segment_get_text(s,&k); q.text.assign(p,k); if(q.text!=a&&n->bad.empty()) n->bad="the text of a segment changed while another parse ran"; struct cypher_input_range r=cypher_quick_parse_segment_get_range(s); q.r.s=topos(r.start); q.r.e=topos(r.end); q.next=topos(cypher_quick_parse_segment_get_next(s)); q.eof=cypher_quick_parse_segment_is_eof(s); n->q.segs.push_back(q); return 0; }
static map<pair<int,string>,string> alone_; // outcomes of operations on their own
static const string&alone(const Op21&o){ auto k=make_pair(o.kind,o.text); auto i=alone_.find(k); if(i==alone_.end()) i=alone_.emplace(k,run_op(o)).first; return i->second; }
static string run_nested(const vector<Op21>&ops,size_t level,int at,string&bad){ const Op21&o=ops[level]; vector<string> inner; Nst n; n.ops=&ops; n.level=level; n.out=&inner; n.at=at; impl::execs++; struct cypher_input_position l={0,0,(size_t)-77}; string got;
  if(o.kind<=1){ FILE*s=o.kind==1?chunked_file(o.text,{5}):nullptr; n.o.ret=s?cypher_fparse_each(s,nest_cb,&n,&l,0,0):cypher_uparse_each(o.text.data(),o.text.size(),nest_cb,&n,&l,0,0); if(s) fclose(s); n.o.lastset=l.offset!=(size_t)-77; if(n.o.lastset) n.o.last=topos(l); got=show(n.o); }
  else if(o.kind<=3){ FILE*s=o.kind==3?chunked_file(o.text,{5}):nullptr; n.q.ret=s?cypher_quick_fparse(s,nest_q,&n,0):cypher_quick_uparse(o.text.data(),o.text.size(),nest_q,&n,0); if(s) fclose(s); got=show(n.q); }
  else got=run_op(o);
  tally("transitions"); if(!n.bad.empty()&&bad.empty()) bad=n.bad; if(got!=alone(o)&&bad.empty()) bad=string(KN[o.kind])+" of "+esc(o.text)+(level?" inside a callback":" around another parse")+" gives "+got+"alone it gives "+alone(o); return got; }
// ---- interleaving, one thread at a time
namespace { struct Sched{ vector<long> sw; size_t next=0; long step=0; int cur=0; bool done[3]={false,false,false}; int n=2; sem_t sem[3]; bool on=false; long steps[3]={0,0,0}; }; Sched S; thread_local int self_=-1; }
static void pass_to(int t){ int me=self_; S.cur=t; sem_post(&S.sem[t]); if(!S.done[me]) while(sem_wait(&S.sem[me])&&errno==EINTR); }
static void sched_point(int){ if(!S.on||self_<0) return; S.step++; S.steps[self_]++; if(S.next<S.sw.size()&&S.step==S.sw[S.next]){ S.next++; int t=self_; for(int k=1;k<S.n;k++){ int c=(self_+k)%S.n; if(!S.done[c]){ t=c; break; } } if(t!=self_) pass_to(t); } }
namespace { struct Th{ int id; const Op21*op; string out; }; }
static void*th_main(void*u){ Th*t=(Th*)u; self_=t->id; while(sem_wait(&S.sem[self_])&&errno==EINTR); t->out=run_op(*t->op); S.done[self_]=true; for(int k=1;k<S.n;k++){ int c=(self_+k)%S.n; if(!S.done[c]){ S.cur=c; sem_post(&S.sem[c]); break; } } return 0; }
static long interleave(const vector<Op21>&ops,int first,const vector<long>&sw,vector<string>&out){ S.sw=sw; S.next=0; S.step=0; S.n=ops.size(); vector<Th> th(ops.size()); vector<pthread_t> pt(ops.size()); for(int i=0;i<S.n;i++){ S.done[i]=false; sem_init(&S.sem[i],0,0); th[i]={i,&ops[i],""}; } S.on=true; alloc::yield=sched_point; for(int i=0;i<S.n;i++) pthread_create(&pt[i],0,th_main,&th[i]); sem_post(&S.sem[first]); for(auto&p:pt) pthread_join(p,0); alloc::yield=nullptr; S.on=false; out.clear(); for(auto&t:th) out.push_back(t.out); tally("schedules"); tally("transitions",sw.size()+S.n); return S.step; }
static string hexs(const string&s){ return tohex(s); }
static string p21(const Case&c){ tally("nontrivial"); vector<Op21> ops; for(size_t i=2;i+1<c.p.size();i+=2) ops.push_back({atoi(c.p[i].c_str()),c.p[i+1]});
  const string&m=c.p[0]; string bad;
  if(m=="N"){ for(auto&o:ops) alone(o); int n=0; { const Op21&o=ops[0]; n= o.kind<=1?(int)impl::parse(o.text,0).segs.size():(int)impl::qparse(o.text,0).segs.size(); } for(int at=-1;at<n;at++){ if(at<0&&(n>6||ops.size()>2)) continue; run_nested(ops,0,at,bad); tally("states"); if(!bad.empty()) return fmt("in callback %d: ",at)+bad; } return ""; }
  if(m=="Q"){ for(auto&o:ops) alone(o); for(auto&o:ops){ string g=run_op(o); tally("states"); if(g!=alone(o)) return string(KN[o.kind])+" of "+esc(o.text)+" after other parses gives "+g+"alone it gives "+alone(o); } return ""; }
  if(m=="I"){ int bound=atoi(c.p[1].c_str()); vector<string> want,got; for(auto&o:ops) want.push_back(alone(o)); auto cmp=[&](int first,const vector<long>&sw)->string{ size_t lv=alloc::live(); interleave(ops,first,sw,got); tally("states"); for(size_t i=0;i<ops.size();i++) if(got[i]!=want[i]){ string s; for(long x:sw) s+=" "+to_string(x); return fmt("thread %zu (%s of %s), thread %d first, switching at steps%s: ",i,KN[ops[i].kind],esc(ops[i].text).c_str(),first,s.c_str())+got[i]+"alone it gives "+want[i]; } if(alloc::live()!=lv) return "allocations are left over"; return ""; };
    for(int first=0;first<(int)ops.size();first++){ long n=interleave(ops,first,{},got); tally_max("points",n); string r=cmp(first,{}); if(!r.empty()) return r; if(bound>=1) for(long a=1;a<=n;a++){ r=cmp(first,{a}); if(!r.empty()) return r; } if(bound>=2) for(long a=1;a<=n;a++) for(long b=a+1;b<=n;b++){ r=cmp(first,{a,b}); if(!r.empty()) return r; } if(bound>=3) for(long a=1;a<=n;a++) for(long b=a+1;b<=n;b++) for(long d=b+1;d<=n;d++){ r=cmp(first,{a,b,d}); if(!r.empty()) return r; } } return ""; }
  // races: a program built with the thread sanitizer runs every pair of operations on the texts
  string cmd=string(getenv("VF_BIN")?getenv("VF_BIN"):".")+"/vf-race"; vector<string> av={cmd}; for(auto&o:ops) av.push_back("x"+hexs(o.text)); int fd[2]; if(pipe(fd)) return ""; pid_t p=fork(); if(!p){ close(fd[0]); dup2(fd[1],2); dup2(fd[1],1); setenv("TSAN_OPTIONS","exitcode=66:halt_on_error=1:report_bugs=1:history_size=4",1); vector<char*> a; for(auto&s:av) a.push_back((char*)s.c_str()); a.push_back(0); execv(a[0],a.data()); _exit(127); } close(fd[1]); string out; char b[4096]; ssize_t k; while((k=read(fd[0],b,sizeof b))>0) out.append(b,k); close(fd[0]); int st; waitpid(p,&st,0);
  if(WIFEXITED(st)&&WEXITSTATUS(st)==0){ unsigned long q=0; size_t a=out.find("pairs="); if(a!=string::npos) q=atol(out.c_str()+a+6); tally("racing_pairs",q); tally("states",q); impl::execs+=2*q; return q?"":"the race program did nothing"; }
  size_t a=out.find("SUMMARY:"); return "operations in two threads: "+(a==string::npos?fmt("status %d ",st)+out.substr(0,300):out.substr(a,out.find('\n',a)-a)); }
static void g21(Gen&g){ const vector<string> T={"RETURN 1","MATCH (n) RETURN n;:a b\nRETURN 'x'","!;RETURN 2","RETURN [x IN y WHERE z | 1] AS q","/*c*/RETURN `a`; //d\n","x;y;RETURN {a:1}","CREATE (a)-[:R {k:$p}]->(b) SET a.b=1","CALL f(1) YIELD a","",";;:cmd\n;","RETURN 'abc\\n' + 1.5 !","MATCH (n:L) WHERE n.p IN [1,2] RETURN n ORDER BY n.x LIMIT 1;","FOREACH (x IN y | CREATE (n)) ; MERGE (a) ON CREATE SET a.b = 1","RETURN 'a"};
  auto add=[&](const char*m,int b,const vector<Op21>&o){ vector<string> p={m,to_string(b)}; for(auto&x:o){ p.push_back(to_string(x.kind)); p.push_back(x.text); } g.emit("",p); };
  g.begin("nested",fmt("each of 4 operations on each of %zu texts with each of 7 operations on each text inside each callback and inside all, and one more inside that",T.size())); for(auto&a:T) for(auto&b:T) for(int k=0;k<4;k++) for(int j=0;j<NK;j++){ add("N",0,{{k,a},{j,b}}); } for(auto&a:T) for(auto&b:T) for(int k=0;k<4;k++) for(int j=0;j<4;j++) for(int i=0;i<NK;i+=g.t(3,1)) for(size_t q=0;q<T.size();q+=g.t(5,1)) add("N",0,{{k,a},{j,b},{i,T[q]}});
  { vector<string> all; for(auto&s:enums::bad_seeds()) all.push_back(s); for(auto&s:enums::multi_seeds()) all.push_back(s); for(auto&s:enums::seeds()) all.push_back(s); g.begin("nested texts","every listed text inside the callbacks of another, and in sequence, in both orders"); for(size_t i=0;i<all.size();i++) for(size_t j=0;j<all.size();j+=g.t(7,1)){ size_t q=(j+i)%all.size(); add("N",0,{{0,all[i]},{0,all[q]}}); add("N",0,{{1,all[q]},{3,all[i]}}); add("Q",0,{{0,all[i]},{6,all[q]},{1,all[i]},{4,all[q]},{0,all[i]}}); } }
  g.begin("one switch","every pair of operations on texts in two threads, with every schedule of one switch at an allocation, a read or a callback, either first"); for(size_t i=0;i<T.size();i++) for(size_t j=i;j<T.size();j++) for(int k=0;k<NK;k++) for(int m=0;m<NK;m++) if(g.thorough||(i*5+j*3+k+m)%7==0||i==j) add("I",1,{{k,T[i]},{m,T[j]}});
  g.begin("two switches",fmt("pairs of operations on short texts, with every schedule of %s switches",g.t(0,1)?"two":"two")); vector<string> s2={"!","RETURN 1","x;y",":a","'","RETURN a!"}; for(auto&a:s2) for(auto&b:s2) for(int k:{0,1,3}) for(int m:{0,1,3}) if(g.thorough||(k==m&&a<=b&&(a.size()+b.size()<9||k==3))) add("I",2,{{k,a},{m,b}});
  if(g.thorough){ g.begin("three switches","pairs of the quick parser and of errors, with every schedule of three switches"); for(auto&a:{"!","x;y"}) for(auto&b:{"!",":a"}) for(int k:{1,3}) add("I",3,{{k,a},{k,b}}); }
  g.begin("three threads","three operations with every schedule of one switch"); for(size_t i=0;i<T.size();i+=g.t(3,1)) for(size_t j=0;j<T.size();j+=g.t(4,2)) for(size_t q=0;q<T.size();q+=g.t(4,2)) add("I",1,{{0,T[i]},{1,T[j]},{6,T[q]}});
  g.begin("races","every pair of texts, every pair of operations on them in two threads, under the thread sanitizer"); for(size_t i=0;i<T.size();i++) for(size_t j=i;j<T.size();j++) if(g.thorough||(i+j)%3==0||i==j) add("R",0,{{0,T[i]},{0,T[j]}}); }
static Reg r21({"P21","model_checking",g21,p21,"a case is a combination of operations with all its schedules up to the bound; states are schedules and nestings executed, transitions switches between operations; non-trivial: all","threads run one at a time and switch where the library allocates, reads or calls back; finer interleavings are left to the race detector, which sees every unordered conflicting access of an execution",120});
