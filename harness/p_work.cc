// P02: work of parsing, counted in executed edges of the library.
#include "util.h"
#include "walk.h"
#include "nest.h"
#include "cov.h"
#include <csetjmp>
#include <set>
using namespace std;
static const unsigned long long FLOOR=60000; static sigjmp_buf over_; static string rep(const string&u,int n){ string s; while(n-->0) s+=u; return s; }
static int nothing(void*,cypher_parse_segment_t*){ return 0; } static int nothing_q(void*,const cypher_quick_parse_segment_t*){ return 0; }
// edges executed; 0 when over the budget
static unsigned long long work(const string&t,int how,unsigned long long budget){ if(budget<FLOOR) budget=FLOOR; cov_count=0; cov_budget=budget; cov_over=[]{ cov_budget=~0ull; siglongjmp(over_,1); }; impl::execs++; tally("parses");
  if(sigsetjmp(over_,0)){ cov_budget=~0ull; alloc::reset(); return 0; }
  if(how==0) cypher_uparse_each(t.data(),t.size(),nothing,0,0,0,0); else if(how==1) cypher_quick_uparse(t.data(),t.size(),nothing_q,0,0); else { cypher_parse_result_t*x=cypher_uparse(t.data(),t.size(),0,0,0); cypher_parse_result_free(x); }
  cov_budget=~0ull; return cov_count; }
static const int NN=sizeof NESTS/sizeof*NESTS;
static const char*CTX[][2]={{"RETURN ",""},{"MATCH (n) WHERE "," RETURN 1"},{"MATCH (n {k: ","}) RETURN 1"},{"UNWIND "," AS z RETURN z"},{"CREATE (n {k: ","})"},{"CALL f(",")"},{"FOREACH (x IN "," | CREATE (n))"},{"MERGE (a {k:","})-[:R]->(b)"},{"RETURN 1 ORDER BY ",""},{"SET a.b = ",""},{"WITH "," AS q RETURN q"},{"START n=node(*) WHERE "," RETURN n"},{"MATCH (a)-[r {k:","}]->(b) RETURN 1"},{"CREATE CONSTRAINT ON (b:L) ASSERT ",".p IS UNIQUE"}};
static const char*CORE[]={"1","","!","x","(","1 2","'"};
static string text_of(const vector<int>&w,int d,int ctx,int form,const char*core){ string o,c; for(int i=0;i<d;i++){ const Nest&n=NESTS[w[i%w.size()]]; o+=n.open; c=n.close+c; } string s=CTX[ctx][0]+o+core; if(form==0) s+=c+CTX[ctx][1]; else if(form==2) s+=c; else if(form==3) s+=c+" !"; else if(form==4){ s+=c.substr(0,c.size()/2)+CTX[ctx][1]; } return s; }
static const unsigned long long CAP=400000000;
// work at doubling depths from d0; the ratio of successive works is bounded: growth by a low power
static string growth(const function<string(int)>&f,int d0,int dmax,int how,double bound){ unsigned long long prev=work(f(d0),how,CAP); if(!prev) return fmt("more than %llu steps at depth %d",CAP,d0); for(int d=2*d0;d<=dmax;d*=2){ unsigned long long lim=prev*bound; unsigned long long w=work(f(d),how,lim); tally("transitions"); if(!w){ return fmt("%llu steps at depth %d but more than %llu (%.0f times as many) at depth %d",prev,d/2,lim<FLOOR?FLOOR:lim,(lim<FLOOR?FLOOR:lim)/(double)prev,d); } tally_max("ratio_percent",w*100/prev); prev=w; } tally_max("edges",prev); return ""; }
static string p02(const Case&c){ tally("states"); tally("nontrivial"); int dmax=atoi(c.p[1].c_str());
  if(c.p[0]=="N"){ vector<int> w; for(size_t i=5;i<c.p.size();i++) for(int k=0;k<NN;k++) if(c.p[i]==NESTS[k].key) w.push_back(k); int ctx=atoi(c.p[2].c_str()),form=atoi(c.p[3].c_str()); const char*core=CORE[atoi(c.p[4].c_str())]; string names; for(int k:w) names+=string(names.empty()?"":" and ")+NESTS[k].key;
    string r=growth([&](int d){ return text_of(w,d,ctx,form,core); },6,dmax,0,10); if(r.empty()) return ""; r=fmt("nesting of %s (%s): ",names.c_str(),esc(text_of(w,6,ctx,form,core)).c_str())+r;
    string cls=form==0&&(!strcmp(core,"1")||!strcmp(core,"x"))?"well-formed:":"ill-formed:"; // listed by the forms that are nested
    set<string> keys; for(int a:w) keys.insert(cls+NESTS[a].key); for(int a:w) for(int b:w) if(strcmp(NESTS[a].key,NESTS[b].key)<0) keys.insert(cls+NESTS[a].key+"+"+NESTS[b].key); for(auto&k:keys) if(is_known(k)) return known(k,k+": parsing takes exponential time");
    if(getenv("VF_SURVEY")){ FILE*o=fopen(getenv("VF_SURVEY"),"a"); string kk=*keys.rbegin(); for(auto&k:keys) if(k.find('+')!=string::npos) kk=k; fprintf(o,"%s\n",kk.c_str()); fclose(o); return ""; } return r; }
  const string&u=c.in; int how=atoi(c.p[2].c_str()); string r=growth([&](int n){ return c.p[3]+rep(u,n)+c.p[4]; },8,dmax,how,10); { string k; for(char ch:u) k+=isalnum((unsigned char)ch)?string(1,ch):fmt("%%%02x",(unsigned char)ch); k="repeated:"+k; if(r.size()&&is_known(k)) return known(k,"parsing the ill-formed repetition of "+esc(u)+" takes exponential time"); if(r.size()&&getenv("VF_SURVEY")){ FILE*o=fopen(getenv("VF_SURVEY"),"a"); fprintf(o,"%s\n",k.c_str()); fclose(o); return ""; } } return r.empty()?"":"repetition of "+esc(c.p[3]+"("+u+")*"+c.p[4])+": "+r; }
static void g02(Gen&g){ vector<int> ok,good; for(int k=0;k<NN;k++) { if(!is_known(string("ill-formed:")+NESTS[k].key)) ok.push_back(k); if(!is_known(string("well-formed:")+NESTS[k].key)) good.push_back(k); } auto listed=[&](const char*cls,int a,int b){ return strcmp(NESTS[a].key,NESTS[b].key)<0?is_known(string(cls)+NESTS[a].key+"+"+NESTS[b].key):is_known(string(cls)+NESTS[b].key+"+"+NESTS[a].key); };
  g.begin("single",fmt("each of %d nestable forms, in %zu places, around 7 cores, closed, unclosed, ended early and with errors at each end, at doubling depths up to %d",NN,sizeof CTX/sizeof*CTX,g.t(24,96))); for(int k=0;k<NN;k++) for(int x=0;x<(int)(sizeof CTX/sizeof*CTX);x++) for(int f=0;f<5;f++) for(int q=0;q<7;q++){ if(is_known(string(f==0&&(q==0||q==3)?"well-formed:":"ill-formed:")+NESTS[k].key)&&(x||q>2||f>2)) continue; g.emit("",{"N",to_string(g.t(24,96)),to_string(x),to_string(f),to_string(q),NESTS[k].key}); }
  g.begin("well-formed pairs",fmt("every ordered pair of the nestable forms not listed as known findings for well-formed texts, nested in turn in %d places",g.t(3,8))); for(int a:good) for(int b:good) if(a!=b) for(int x=0;x<g.t(3,8);x++) for(int q:{0,3}) if(!listed("well-formed:",a,b)||x+q==0) g.emit("",{"N",to_string(g.t(24,48)),to_string(x),"0",to_string(q),NESTS[a].key,NESTS[b].key});
  g.begin("ill-formed pairs",fmt("every ordered pair of the nestable forms not listed as known findings for ill-formed texts, nested in turn, in %d forms around %d cores",5,g.t(3,7))); for(int a:ok) for(int b:ok) if(a!=b) for(int f=0;f<5;f++) for(int q=0;q<g.t(3,7);q++){ if(f==0&&(q==0||q==3)) continue; for(int x=0;x<g.t(1,3);x++) if(!listed("ill-formed:",a,b)||(f==1&&q==0&&x==0)) g.emit("",{"N",to_string(g.t(24,48)),to_string(x),to_string(f),to_string(q),NESTS[a].key,NESTS[b].key}); }
  g.begin("well-formed triples",g.thorough?"every ordered triple of the nestable forms of which no two are listed as known findings":"every ordered triple of one in three of the nestable forms of which no two are listed as known findings"); for(int a:good) for(int b:good) for(int d:good) if(a!=b&&b!=d&&a!=d&&(g.thorough||(a%3==0&&b%3==0&&d%3==0))&&!listed("well-formed:",a,b)&&!listed("well-formed:",b,d)&&!listed("well-formed:",a,d)) g.emit("",{"N","24","0","0","0",NESTS[a].key,NESTS[b].key,NESTS[d].key});
  static const char*U[]={"RETURN 1;","!;","! ","(","[","{","'","\"","`","/*","//","//c\n","/*c*/","a","1"," ","\n",";",":a\n",":a ","\\","-","NOT ","RETURN ","MATCH (n) ","CREATE (a)-->(b) ","WITH 1 AS x ","(a)-->","-[r]->(b)","|:B",":B",",a","+1","<1",".b","[0]","WHEN 1 THEN 2 "," AND a"," OR a"," IN a"," IS NULL","UNION ","ORDER BY ","'a' ","CASE ","x:","..","*","$","FOREACH (x IN y | ","FOREACH (x IN y | CREATE (a) ","UNWIND x AS y ","SET a.b=1 ","MERGE (a) ON CREATE SET a.b=1 ","LOAD CSV FROM 'a' AS b ","USING INDEX a:b(c) ","CALL f() YIELD a ","DROP ","START ","'\\","/","*/","(n","n)","EXPLAIN ","CYPHER a=b "};
  static const char*PRE[][2]={{"",""},{"RETURN ",""},{"MATCH (n",""},{"RETURN '",""},{"RETURN (",")"},{"RETURN [","1]"},{"RETURN CASE"," END"},{"MATCH (a)",""},{"RETURN 1 ",";RETURN 2;"},{":a ",""},{"MATCH (n) WHERE a",""}};
  g.begin("repetition",fmt("each of %zu fragments repeated up to %d times in each of %zu places, in the full and the quick parser",sizeof U/sizeof*U,g.t(128,1024),sizeof PRE/sizeof*PRE)); for(auto*u:U) for(auto&p:PRE) for(int how=0;how<3;how++) g.emit(u,{"R",to_string(g.t(128,1024)),to_string(how),p[0],p[1]});
  g.begin("repeated pairs",fmt("every ordered pair of the fragments, repeated together up to %d times",g.t(64,256))); for(auto*u:U) for(auto*v:U) for(int how=0;how<2;how++) for(int x=0;x<g.t(2,8);x++) g.emit(string(u)+v,{"R",to_string(g.t(64,256)),to_string(how),PRE[x][0],PRE[x][1]});
  }
static Reg r02({"P02","exploration",g02,p02,"a case is a family of texts of doubling size; states are families, transitions doublings; non-trivial: all","work is the number of edges of the library's control flow that are executed, counted by instrumentation",60});
