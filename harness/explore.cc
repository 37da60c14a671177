#include "explore.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <algorithm>
using namespace std;
vector<Prop> props;
string Case::enc()const{ string o=g+"\n"+tohex(in)+"\n"; for(auto&x:p) o+=tohex(x)+"\n"; return o; }
Case Case::dec(const string&s){ Case c; vector<string> l; string w; for(char ch:s){ if(ch=='\n'){ l.push_back(w); w.clear(); } else w+=ch; } if(l.size()>0) c.g=l[0]; if(l.size()>1) c.in=fromhex(l[1]); for(size_t i=2;i<l.size();i++) c.p.push_back(fromhex(l[i])); return c; }
string known(const string&key,const string&desc){ return "\x01"+key+"\x01"+desc; }

struct Ctr { char name[40]; volatile unsigned long long v; volatile int used; int max; };
struct Viol { volatile int set; unsigned long long idx; char desc[8192]; unsigned len; char cas[1<<22]; };
struct Shm {
  volatile unsigned long long done;       // own cases finished
  volatile unsigned long long running;    // 1+ index of own case being run, 0 none
  volatile double t0;                     // CPU time at its start
  unsigned caselen; char cas[1<<22];
  Ctr ctr[Tally::N]; unsigned long long grp[96];
  Viol viol[3]; volatile int nviol; volatile unsigned long long steps, evals, execs; volatile int finished;
  char kf[256][400]; volatile int nkf;
  char sample[4][1200]; volatile int nsample;
};
static Shm*me=nullptr; static int NW=8;
static double cpu_self(){ struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static double cpu_of(pid_t p){ clockid_t c; if(clock_getcpuclockid(p,&c)) return -1; struct timespec t; if(clock_gettime(c,&t)) return -1; return t.tv_sec+t.tv_nsec*1e-9; }
static double wall(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static Ctr*ctr(const char*n,int max){ if(!me) return nullptr; for(int i=0;i<Tally::N;i++){ if(!me->ctr[i].used){ strncpy(me->ctr[i].name,n,39); me->ctr[i].max=max; me->ctr[i].used=1; return &me->ctr[i]; } if(!strcmp(me->ctr[i].name,n)) return &me->ctr[i]; } return nullptr; }
void tally(const char*n,unsigned long long k){ Ctr*c=ctr(n,0); if(c) c->v+=k; }
void tally_max(const char*n,unsigned long long k){ Ctr*c=ctr(n,1); if(c&&k>c->v) c->v=k; }

struct Stop{};
static unsigned long long hash64(const string&s){ unsigned long long h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } h^=h>>32; h*=0x9E3779B97F4A7C15ull; h^=h>>29; return h; }
static string root; // /verif
static const Prop*P; static bool thorough; static double deadline; static set<string> KF; bool is_known(const string&k){ return KF.count(k)>0; }

// run one case in this process
static string runcase(const Case&c){ alloc::reset(); string r=P->check(c); if(r.empty()){ string l=alloc::leak(); if(!l.empty()) r=l; } return r; }
static bool listed(string&r){ // strips the key; true when a listed finding
  if(r.size()&&r[0]=='\x01'){ size_t e=r.find('\x01',1); string k=r.substr(1,e-1); r="["+k+"] "+r.substr(e+1); return KF.count(k)>0; } return false; }

// worker w: stop_at: run only own cases up to and including that index (replay with history)
static string worker(int w,unsigned long long skip,long long stop_at,bool record){
  unordered_set<unsigned long long> seen; unsigned long long own=0; map<string,int> gid; string result; Gen g; g.thorough=thorough;
  const char*only=record?getenv("VF_GROUP"):nullptr; double slow=record&&getenv("VF_SLOW")?atof(getenv("VF_SLOW")):0; // development: one group alone
  g.sink=[&](Case&&c)->bool{ if(only&&c.g!=only) return false;
    auto it=gid.find(c.g); if(it==gid.end()){ int id=gid.size(); if(id>=96){ fprintf(stderr,"too many groups\n"); _exit(3);} it=gid.insert({c.g,id}).first; }
    string k=c.g+"\n"+c.in; for(auto&x:c.p){ k+='\n'; k+=x; }
    unsigned long long h=hash64(k); if((int)(h%NW)!=w) return false; if(!seen.insert(h/NW*NW+w).second) return false;
    unsigned long long i=own++; if(i<skip) return false;
    if(record){ if(wall()>deadline){ tally("deadline_hit"); throw Stop(); }
      string e=c.enc(); me->caselen=min(e.size(),sizeof me->cas); memcpy(me->cas,e.data(),me->caselen); me->t0=cpu_self(); me->running=i+1; }
    unsigned long long s0=model::steps,x0=impl::execs; double c0=slow>0?cpu_self():0; string r=runcase(c); if(slow>0&&cpu_self()-c0>slow){ ofstream o(root+"/build/slow.txt",ios::app); o<<fmt("%.2f s: %s %zu: %s\n",cpu_self()-c0,c.g.c_str(),c.in.size(),esc(c.in.substr(0,60)).c_str()); } if(record){ me->steps+=model::steps-s0; me->execs+=impl::execs-x0; me->evals++; me->grp[it->second]++; me->running=0; me->done=i+1;
      if(me->nsample<4&&(i==0||i%(701*(me->nsample+1))==0)){ snprintf(me->sample[me->nsample],1200,"%s: %s %s",c.g.c_str(),esc(c.in.substr(0,300)).c_str(),[&]{ string o; for(auto&x:c.p) o+="<"+esc(x.substr(0,120))+">"; return o; }().c_str()); me->nsample=me->nsample+1; } }
    if(!r.empty()){ bool l=listed(r); if(l){ if(record&&me->nkf<256){ bool dup=false; for(int q=0;q<me->nkf;q++) if(r.substr(0,399)==me->kf[q]) dup=true; if(!dup){ strncpy(me->kf[me->nkf],r.c_str(),399); me->nkf=me->nkf+1; } } }
      else if(record){ Viol&v=me->viol[me->nviol]; v.idx=i; strncpy(v.desc,r.c_str(),8191); string e=c.enc(); v.len=min(e.size(),sizeof v.cas); memcpy(v.cas,e.data(),v.len); v.set=1; me->nviol=me->nviol+1; if(me->nviol>=3) throw Stop(); }
      else if(stop_at>=0&&(long long)i==stop_at) { result=r; throw Stop(); } }
    if(stop_at>=0&&(long long)i>=stop_at) throw Stop();
    return true; };
  try{ P->gen(g); }catch(Stop&){ }
  if(record){ me->finished=1; if(w==0){ // record group names and bounds once
      string f; for(auto&x:gid) f+=to_string(x.second)+"\t"+x.first+"\t"+(g.bounds.count(x.first)?g.bounds[x.first]:"")+"\n"; ofstream o(root+"/build/groups."+P->id+"."+to_string(getppid())); o<<f; } }
  return result; }

// run f in a child; returns its text; died: description when it did not end by itself
static string isolated(const function<string()>&f,double cpulimit,string&died){
  int fd[2]; died=""; if(pipe(fd)) return ""; string errf=root+"/build/err."+to_string(getpid()); pid_t p=fork();
  if(!p){ close(fd[0]); prctl(PR_SET_PDEATHSIG,SIGKILL); int e=open(errf.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); if(e>=0) dup2(e,2); struct rlimit rl={(rlim_t)cpulimit,(rlim_t)cpulimit+1}; setrlimit(RLIMIT_CPU,&rl); me=nullptr; string r=f(); size_t o=0; while(o<r.size()){ ssize_t n=write(fd[1],r.data()+o,r.size()-o); if(n<=0) break; o+=n; } _exit(42); }
  close(fd[1]); string r; char b[4096]; ssize_t n; while((n=read(fd[0],b,sizeof b))>0) r.append(b,n); close(fd[0]); int st=0; waitpid(p,&st,0);
  if(WIFEXITED(st)&&WEXITSTATUS(st)==42){ unlink(errf.c_str()); return r; }
  if(WIFSIGNALED(st)&&(WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL)) died=fmt("did not finish within %.0f s of CPU time",cpulimit);
  else { ifstream i(errf); stringstream ss; ss<<i.rdbuf(); string t=ss.str(); string line; size_t a=t.find("SUMMARY:"); if(a==string::npos) a=t.find("runtime error"); if(a==string::npos) a=t.find("Assertion"); if(a!=string::npos) { size_t b0=t.rfind('\n',a); b0=b0==string::npos?0:b0+1; line=t.substr(b0,t.find('\n',a)-b0); } died= "process died ("+(WIFSIGNALED(st)?fmt("signal %d",WTERMSIG(st)):fmt("exit %d",WEXITSTATUS(st)))+") "+line; if(a==string::npos) died+=esc(t.substr(0,300)); }
  unlink(errf.c_str()); return ""; }

static string jstr(const string&s){ string o="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126) o+=fmt("\\u%04x",c); else o+=c; } return o+"\""; }

static void load_known(){ ifstream f(root+"/known_findings.txt"); string l; while(getline(f,l)){ if(l.compare(0,6,"known:")) continue; size_t a=l.find("property="),k=l.find("key="); if(a==string::npos||k==string::npos) continue; string p=l.substr(a+9,l.find(' ',a)-a-9),key=l.substr(k+4,l.find(' ',k)-k-4); if(p==P->id) KF.insert(key); } }

static int replay(const string&file){
  ifstream f(file); stringstream ss; ss<<f.rdbuf(); string t=ss.str(); if(t.empty()){ printf("cannot read %s\n",file.c_str()); return 2; }
  // header lines up to an empty line, then the encoded case
  size_t e=t.find("\n\n"); string head=t.substr(0,e); Case c=Case::dec(t.substr(e+2)); bool hist=head.find("\nhistory ")!=string::npos; string died,r; double lim=P->cpu_limit*3;
  printf("case: %s %s\n",c.g.c_str(),esc(c.in.substr(0,2000)).c_str()); for(auto&x:c.p) printf("  with %s\n",esc(x.substr(0,300)).c_str());
  if(hist){ int w; unsigned long long idx; int nw; sscanf(head.c_str()+head.find("\nhistory ")+9,"%d %llu %d",&w,&idx,&nw); thorough=head.find("tier thorough")!=string::npos; NW=nw; r=isolated([&]{ return worker(w,0,idx,false); },3000,died); }
  else r=isolated([&]{ return runcase(c); },lim,died);
  if(!died.empty()) r=died; bool l=listed(r); printf("%s\n",r.empty()?"holds":r.c_str()); if(r.empty()) return 0; if(l){ printf("KNOWN-FINDING: property=%s %s\n",P->id,r.c_str()); return 0; } printf("VIOLATION property=%s replay=%s\n",P->id,file.c_str()); return 1; }

int explore_main(int argc,char**argv){
  if(argc<4){ fprintf(stderr,"usage: vf ROOT PROP quick|thorough|--replay [FILE]\n"); return 2; }
  root=argv[1]; for(auto&p:props) if(!strcmp(p.id,argv[2])) P=&p; if(!P){ fprintf(stderr,"no property %s\n",argv[2]); return 2; }
  mkdir((root+"/build").c_str(),0755); mkdir((root+"/evidence").c_str(),0755); mkdir((root+"/out").c_str(),0755);
  // the model and the library recurse: use a large stack
  struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(512u<<20)&&!getenv("VF_STACK")){ rl.rlim_cur=512u<<20; if(rl.rlim_max!=RLIM_INFINITY&&rl.rlim_max<rl.rlim_cur) rl.rlim_cur=rl.rlim_max; if(!setrlimit(RLIMIT_STACK,&rl)){ setenv("VF_STACK","1",1); execv("/proc/self/exe",argv); } }
  init_types(); model::load(root+"/model"); load_known(); signal(SIGPIPE,SIG_IGN); setvbuf(stdout,0,_IOLBF,0);
  if(!strcmp(argv[3],"--replay")) return replay(argv[4]);
  thorough=!strcmp(argv[3],"thorough"); double t0=wall(); const char*dl=getenv("VF_DEADLINE"); deadline=t0+(dl?atof(dl):thorough?3000:420);
  const char*nw=getenv("VF_WORKERS"); NW=nw?atoi(nw):8;
  vector<Shm*> sh(NW); vector<pid_t> pid(NW); vector<unsigned long long> skip(NW,0);
  struct V { int w; unsigned long long idx; string cas, desc; bool alone; }; vector<V> viols; int unrep=0; vector<string> notes;
  for(int w=0;w<NW;w++){ sh[w]=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(sh[w]==MAP_FAILED){ perror("mmap"); return 2; } }
  auto start=[&](int w){ fflush(stdout); pid_t p=fork(); if(!p){ prctl(PR_SET_PDEATHSIG,SIGKILL); me=sh[w]; me->running=0; string ef=root+"/build/werr."+to_string(getppid())+"."+to_string(w); int e=open(ef.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); if(e>=0) dup2(e,2); worker(w,skip[w],-1,true); _exit(0); } pid[w]=p; };
  for(int w=0;w<NW;w++) start(w);
  int active=NW; int crashes=0;
  while(active){ usleep(20000);
    for(int w=0;w<NW;w++) if(pid[w]){ int st; pid_t r=waitpid(pid[w],&st,WNOHANG); bool dead=false; string why;
      if(r==pid[w]){ if(WIFEXITED(st)&&WEXITSTATUS(st)==0&&sh[w]->finished){ pid[w]=0; active--; continue; } dead=true; why="died"; }
      else if(sh[w]->running){ unsigned long long ri=sh[w]->running; double c=cpu_of(pid[w]); double s=sh[w]->t0; if(c>0&&sh[w]->running==ri&&c-s>P->cpu_limit){ kill(pid[w],SIGKILL); waitpid(pid[w],&st,0); dead=true; why="hang"; } }
      if(!dead) continue;
      if(!sh[w]->running){ // died outside a case
        string ef=root+"/build/werr."+to_string(getpid())+"."+to_string(w); ifstream i(ef); stringstream ss; ss<<i.rdbuf(); printf("worker %d ended outside a case: %s\n",w,esc(ss.str().substr(0,2000)).c_str()); for(int k=0;k<NW;k++) if(pid[k]) kill(pid[k],SIGKILL); return 3; }
      unsigned long long idx=sh[w]->running-1; string e(sh[w]->cas,sh[w]->caselen); Case c=Case::dec(e); string died; string res=isolated([&]{ return runcase(c); },P->cpu_limit*3,died);
      bool l=false; string d=died.empty()?res:died; if(died.empty()) l=listed(d); else { /* a dead process may be a listed finding of the property */ }
      if(!d.empty()&&!l) viols.push_back({w,idx,e,d,true});
      else if(d.empty()){ res=isolated([&]{ return worker(w,0,idx,false); },thorough?3000:400,died); d=died.empty()?res:died; if(!d.empty()) viols.push_back({w,idx,e,d,false}); else { unrep++; notes.push_back("worker "+why+" at a case that passes when replayed: "+esc(e.substr(0,300))); } }
      crashes++; skip[w]=idx+1; sh[w]->done=idx+1; sh[w]->running=0;
      if(viols.size()>=6||crashes>40||(viols.size()&&died.find("did not finish")!=string::npos)){ /* one confirmed hang is enough */ for(int k=0;k<NW;k++) if(pid[k]&&k!=w){ kill(pid[k],SIGKILL); waitpid(pid[k],&st,0); pid[k]=0; } pid[w]=0; active=0; break; }
      start(w); } }
  for(int w=0;w<NW;w++) unlink((root+"/build/werr."+to_string(getpid())+"."+to_string(w)).c_str());
  // replay what the workers reported
  for(int w=0;w<NW;w++) for(int k=0;k<sh[w]->nviol;k++){ Viol&v=sh[w]->viol[k]; string e(v.cas,v.len); Case c=Case::dec(e); string died; string r=isolated([&]{ return runcase(c); },P->cpu_limit*3,died); string d=died.empty()?r:died; listed(d);
    if(!d.empty()) viols.push_back({w,v.idx,e,d,true});
    else if((int)viols.size()<6&&(thorough||viols.empty()||wall()-t0<400)){ r=isolated([&]{ return worker(w,0,v.idx,false); },thorough?3000:400,died); d=died.empty()?r:died; listed(d); if(!d.empty()) viols.push_back({w,v.idx,e,d+" (only after the cases before it in the same process)",false}); else { unrep++; notes.push_back(string("reported once but not on replay: ")+v.desc); } } }
  // shortest first
  sort(viols.begin(),viols.end(),[](const V&a,const V&b){ if(a.alone!=b.alone) return a.alone; return a.cas.size()<b.cas.size(); });
  // gather
  unsigned long long done=0,steps=0,evals=0,execs=0; map<string,unsigned long long> ct; map<string,bool> cm; vector<string> samples; set<string> kfs; bool capped=false; unsigned long long grp[96]={0};
  for(int w=0;w<NW;w++){ done+=sh[w]->done; steps+=sh[w]->steps; evals+=sh[w]->evals; execs+=sh[w]->execs; for(auto&c:sh[w]->ctr) if(c.used){ if(c.max) ct[c.name]=max<unsigned long long>(ct[c.name],(unsigned long long)c.v); else ct[c.name]+=c.v; } for(int k=0;k<sh[w]->nsample&&samples.size()<10;k++) samples.push_back(sh[w]->sample[k]); for(int k=0;k<sh[w]->nkf;k++) kfs.insert(sh[w]->kf[k]); for(int k=0;k<96;k++) grp[k]+=sh[w]->grp[k]; if(!sh[w]->finished) capped=true; }
  if(ct.count("deadline_hit")||crashes) { if(ct.count("deadline_hit")) capped=true; }
  string groups="{"; { string gf=root+"/build/groups."+P->id+"."+to_string(getpid()); ifstream f(gf); string l; bool first=true; while(getline(f,l)){ size_t a=l.find('\t'),b=l.find('\t',a+1); int id=atoi(l.c_str()); if(!first) groups+=","; first=false; groups+=jstr(l.substr(a+1,b-a-1))+":{\"cases\":"+to_string(grp[id])+",\"bound\":"+jstr(l.substr(b+1))+"}"; } groups+="}"; unlink(gf.c_str()); }
  unsigned long long trans= ct.count("transitions")?ct["transitions"]:steps;
  unsigned long long val= ct.count("validated")?ct["validated"]:execs; unsigned long long states=ct.count("states")?ct["states"]:done;
  { ofstream o(root+"/evidence/"+P->id+".json"); o<<"{\"property\":"<<jstr(P->id)<<",\"tier\":"<<jstr(thorough?"thorough":"quick")<<",\"seed\":"<<(getenv("VERIF_SEED")?atoi(getenv("VERIF_SEED")):1)<<",\"level\":"<<jstr(P->level)<<",\"wall_s\":"<<fmt("%.2f",wall()-t0)<<",\"violations\":"<<viols.size()<<",\"assumptions\":["<<jstr(P->assume)<<"],\"coverage\":{";
    bool mc=!strcmp(P->level,"model_checking"); if(mc) o<<"\"states\":"<<states<<",\"transitions\":"<<trans<<",\"traces_validated_against_impl\":"<<val; else o<<"\"evaluations\":"<<(ct.count("validated")?ct["validated"]:max(execs,done))<<",\"cases\":"<<done; o<<",\"distinct_nontrivial\":"<<(ct.count("nontrivial")?ct["nontrivial"]:done)<<",\"rule\":"<<jstr(P->rule)<<",\"exhaustive\":"<<(capped?"false":"true")<<",\"groups\":"<<groups<<",\"counters\":{"; bool first=true; for(auto&c:ct){ if(!first) o<<","; first=false; o<<jstr(c.first)<<":"<<c.second; } o<<"},\"crashes\":"<<crashes<<",\"not_reproduced\":"<<unrep<<",\"samples\":["; first=true; for(auto&s:samples){ if(!first) o<<","; first=false; o<<jstr(s); } o<<"]}}\n"; }
  printf("%s %s: %llu distinct cases, %llu library executions, %llu transitions, %.1f s%s\n",P->id,thorough?"thorough":"quick",done,val,trans,wall()-t0,capped?" (stopped at a cap)":"");
  for(auto&c:ct) printf("  %s=%llu\n",c.first.c_str(),c.second); for(auto&n:notes) printf("note: %s\n",n.c_str());
  for(auto&k:kfs) printf("KNOWN-FINDING: property=%s %s\n",P->id,k.c_str());
  int n=0; for(auto&v:viols){ string f=root+"/out/"+P->id+"-"+to_string(n)+".replay"; ofstream o(f); o<<"property "<<P->id<<"\ntier "<<(thorough?"thorough":"quick")<<"\nwhat "<<esc(v.desc)<<"\n"; if(!v.alone) o<<"history "<<v.w<<" "<<v.idx<<" "<<NW<<"\n"; o<<"\n"<<v.cas; o.close(); Case c=Case::dec(v.cas); printf("%s: [%s] %s\n   input %s\n",P->id,c.g.c_str(),v.desc.c_str(),esc(c.in.substr(0,600)).c_str()); for(auto&x:c.p) printf("   with %s\n",esc(x.substr(0,200)).c_str()); printf("VIOLATION property=%s replay=%s\n",P->id,f.c_str()); if(++n>=4) break; }
  return viols.empty()?0:1; }
