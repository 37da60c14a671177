// Properties of the calling interface: delivery of input, callbacks, references, stream faults.
#include "util.h"
#include "walk.h"
#include <algorithm>
#include <cerrno>
#include <climits>
using namespace std;
static int fl(const Case&c){ return c.p.empty()?0:atoi(c.p[0].c_str()); }
static unsigned cfl(int f){ return (f&FL_SINGLE?CYPHER_PARSE_SINGLE:0)|(f&FL_STMT?CYPHER_PARSE_ONLY_STATEMENTS:0); }
static const size_t UNSET=(size_t)-77;
static const vector<string> INS_Q={"'","(",";"," ","x","/*","\n","RETURN ","`","."};
static void texts(const function<void(const string&)>&f){ for(auto&s:enums::seeds()) f(s); for(auto&s:enums::multi_seeds()) f(s); for(auto&s:enums::bad_seeds()) f(s); }

// ---- P03 delivery ------------------------------------------------------------------------------
struct SegCB { Out*o; };
static int each_cb(void*u,cypher_parse_segment_t*s){ Out*o=(Out*)u; o->segs.push_back(impl_segment(s,o->bad)); return 0; }
static int each_q(void*u,const cypher_quick_parse_segment_t*s){ QOut*o=(QOut*)u; QSeg q; q.stmt=cypher_quick_parse_segment_is_statement(s); size_t n; const char*p=cypher_quick_parse_segment_get_text(s,&n); q.text.assign(p,n); struct cypher_input_range r=cypher_quick_parse_segment_get_range(s); q.r.s=topos(r.start); q.r.e=topos(r.end); q.next=topos(cypher_quick_parse_segment_get_next(s)); q.eof=cypher_quick_parse_segment_is_eof(s); o->segs.push_back(q); return 0; }
static string p03(const Case&c){ int f=fl(c); const string&t=c.in; string r; Out base=impl::parse(t,f); if(!base.bad.empty()) return base.bad; const int SM=C_ALL&~C_CTX; QOut qb=impl::qparse(t,f); string qs=show(qb);
  vector<vector<size_t>> chunks;
  if(c.g=="splits"){ size_t n=t.size(); for(size_t m=0;m<(1u<<(n?n-1:0));m++){ vector<size_t> v; size_t k=1; for(size_t i=1;i<n;i++){ if(m>>(i-1)&1){ v.push_back(k); k=1; } else k++; } v.push_back(k); chunks.push_back(v); } }
  else if(c.g=="cuts"){ for(size_t i=1;i<t.size();i++) chunks.push_back({i,1<<20}); }
  else if(c.g=="large") chunks={{7},{1000},{4096},{1<<20}};
  else chunks={{1},{2},{3},{7},{64},{511},{512},{513},{1023},{1024},{1025},{1,1<<20},{1<<20}};
  for(auto&v:chunks){ Out b=impl::fparse(t,v,f); string w=fmt("from a stream with reads of %zu%s bytes: ",v[0],v.size()>1?",...":""); if(!(r=diff(base,b,SM)).empty()) return w+r; tally("deliveries"); if(c.g=="texts"||v.size()<=2){ QOut q=impl::qfparse(t,v,f); if(show(q)!=qs) return w+"quick parser gives\n"+show(q)+"expected\n"+qs; tally("deliveries"); } }
  if(t.size()>1) tally("nontrivial");
  Out agg=aggregate(base); Out a=impl::parse_all(t,f); if(!(r=diff(agg,a,C_ALL&~C_RANGE)).empty()) return "whole result: "+r; 
  for(vector<size_t> v:{vector<size_t>{1},vector<size_t>{5},vector<size_t>{1024}}){ a=impl::fparse_all(t,v,f); if(!(r=diff(agg,a,(C_ALL&~C_RANGE)&~C_CTX)).empty()) return "whole result from a stream: "+r; tally("deliveries"); }
  // a real file and a memory stream
  if(t.size()){ FILE*m=fmemopen((void*)t.data(),t.size(),"r"); Out b; struct cypher_input_position l={0,0,UNSET}; b.ret=cypher_fparse_each(m,each_cb,&b,&l,0,cfl(f)); fclose(m); impl::execs++; b.lastset=l.offset!=UNSET; if(b.lastset) b.last=topos(l); if(!(r=diff(base,b,SM)).empty()) return "from a memory stream: "+r; }
  // terminated-string entry points, and without a last position
  if(t.find('\0')==string::npos){ Out b; struct cypher_input_position l={0,0,UNSET}; b.ret=cypher_parse_each(t.c_str(),each_cb,&b,&l,0,cfl(f)); b.lastset=l.offset!=UNSET; if(b.lastset) b.last=topos(l); if(!(r=diff(base,b,C_ALL)).empty()) return "as a terminated string: "+r; QOut q; q.ret=cypher_quick_parse(t.c_str(),each_q,&q,cfl(f)); if(show(q)!=qs) return "quick parser, terminated string: "+show(q)+"expected\n"+qs;
    cypher_parse_result_t*x=cypher_parse(t.c_str(),0,0,cfl(f)); if(!x) return "no result for a terminated string"; Out o=impl_result(x); cypher_parse_result_free(x); o.lastset=agg.lastset; o.last=agg.last; impl::execs+=3; if(!(r=diff(agg,o,C_ALL&~C_RANGE)).empty()) return "whole result of a terminated string: "+r; tally("deliveries",3); }
  { Out b; b.ret=cypher_uparse_each(t.data(),t.size(),each_cb,&b,0,0,cfl(f)); impl::execs++; if(!(r=diff(base,b,C_ALL&~C_LAST)).empty()) return "without a place for the last position: "+r; }
  return ""; }
static void g03(Gen&g){ auto E=[&](const string&s){ g.emit(s); g.emit(s,{"2"}); g.emit(s,{"1"}); if(s.size()<=60) g.emit(s,{"3"}); };
  g.begin("texts","every listed text and every ordered pair of a third of them, under each flag, with 13 read patterns"); texts(E); { vector<string> v; texts([&](const string&s){ v.push_back(s); }); for(size_t i=0;i<v.size();i+=g.t(3,1)) for(size_t j=1;j<v.size();j+=g.t(5,2)) g.emit(v[i]+"\n"+v[j]); }
  g.begin("cuts","every listed text cut in two at every byte"); texts([&](const string&s){ g.emit(s); });
  g.begin("splits",fmt("every partition into reads of texts of up to %d characters: token strings and short texts",g.t(9,12))); enums::strings({"RETURN"," ","1",";","\n","'","/*","*/",":a","//","`","\r\n","x"},g.t(4,5),[&](const string&s){ if((int)s.size()<=g.t(9,12)) g.emit(s); },1);
  g.begin("thresholds","texts whose tokens, separators, line ends and comments straddle each byte around 512, 1024, 1536, 2048, 3072 and 4096"); for(int b:{512,1024,1536,2048,3072,4096}) for(int d=-3;d<=3;d++) for(auto*u:{"RETURN 1;\nRETURN 'ab' AS c;","/* x */ MATCH (n)\r\nRETURN n;:cmd a\n x y;RETURN 2","'abc\\'def'; RETURN !;","//abc\r\nRETURN `a\n`, b;"}) for(int k=0;k<(int)strlen(u);k+=g.t(3,1)) if(b+d-k>0){ for(auto*fill:{" ","RETURN 1;","a","\n","'","//"}){ string s=fill; if(s=="'"){ s="'"+string(max(0,b+d-k-3),'q')+"';"; } else if(s=="//") s="//"+string(max(0,b+d-k-3),'q')+"\n"; else { string z; while((int)z.size()+(int)s.size()<=b+d-k) z+=s; while((int)z.size()<b+d-k) z+=" "; s=z; } g.emit(s+u); } }
  g.begin("large","tokens and gaps of 8192, 16384, 32768 and 65536 bytes (gaps and statements: 8192)"); for(int n:{8192,16384,32768,65536}){ string q(n,'q'),sp(n,' '),st; while((int)st.size()<n-9) st+="RETURN 1;"; st+=string(n-st.size(),' '); for(auto&x:vector<string>{"RETURN '"+q+"' AS x; RETURN y z","RETURN "+q+"; RETURN y z","RETURN"+sp+"1; RETURN y z","/*"+q+"*/RETURN 1; RETURN y z","//"+q+"\nRETURN 1; RETURN y z",st+"RETURN y z 2",":a "+q+"\nRETURN y z","y"+q+";RETURN y z","RETURN `"+q+"`; z"}) if(n==8192||(x.find("N  ")==string::npos&&x.find(";RETURN 1;")==string::npos)) g.emit(x); }
  g.begin("edits","every single token edit of the listed texts of up to 40 characters"); texts([&](const string&s){ if((int)s.size()<=g.t(40,400)) enums::edits(s,INS_Q,[&](const string&t){ g.emit(t); },false); }); }
static Reg r03({"P03","exploration",g03,p03,"a case is an input text under one flag set, delivered by every entry point and with every read pattern of its group and compared with the delivery as a buffer; non-trivial: texts that can be divided","reads are cut by a custom stream; contexts of errors may differ in how much of the text after the error they show, since that has not been read yet",15});

// ---- P13 callbacks and references ---------------------------------------------------------------
namespace { struct CBX { string want; vector<string> shown; string bad; void*self; int stop=-1,val=0; int calls=0; Out o; }; }
static string segstr(const cypher_parse_segment_t*s,string&bad){ Out o; o.segs.push_back(impl_segment(s,bad)); return show(o); }
static int cbx(void*u,cypher_parse_segment_t*s){ CBX*c=(CBX*)u; if(c->self!=u) { c->bad="foreign user data"; return -99; } c->o.segs.push_back(impl_segment(s,c->o.bad)); int i=c->calls++; return i==c->stop?c->val:0; }
static int cbq(void*u,const cypher_quick_parse_segment_t*s){ CBX*c=(CBX*)u; c->shown.push_back(""); int i=c->calls++; size_t n; const char*p=cypher_quick_parse_segment_get_text(s,&n); c->shown.back()=string(p,n); return i==c->stop?c->val:0; }
static string p13ret(const Case&c){ int f=fl(c); const string&t=c.in; Out base=impl::parse(t,f); if(!base.bad.empty()) return base.bad; string r; QOut qb=impl::qparse(t,f); size_t n=base.segs.size();
  static const int V[]={0,1,2,255,65536,INT_MAX,-1,-2,-7,-1000,INT_MIN};
  for(size_t i=0;i<=n;i++) for(int v:V){ Out w=base; if(v&&i<n) w.segs.resize(i+1); w.ret= (v<0&&i<n)?v:0; if(v&&i<n){ w.lastset=v>0; w.last=base.segs[i].r.e; }
    for(int mode=0;mode<2;mode++){ CBX x; x.self=&x; x.stop=i; x.val=v; struct cypher_input_position l={0,0,UNSET}; FILE*s=mode?chunked_file(t,{3}):nullptr; int rc= mode? cypher_fparse_each(s,cbx,&x,&l,0,cfl(f)) : cypher_uparse_each(t.data(),t.size(),cbx,&x,&l,0,cfl(f)); if(s) fclose(s); impl::execs++; x.o.ret=rc; x.o.lastset=l.offset!=UNSET; if(x.o.lastset) x.o.last=topos(l); string d=fmt("callback %zu returns %d%s: ",i,v,mode?" (stream)":""); tally("returns"); if(v) tally("nontrivial"); if(!x.bad.empty()) return d+x.bad; int m=mode?C_ALL&~C_CTX:C_ALL; if(w.ret<0) m&=~C_LAST; if(!(r=diff(w,x.o,m)).empty()) return d+r; } }
  for(size_t i=0;i<=qb.segs.size();i++) for(int v:V) for(int mode=0;mode<2;mode++){ CBX x; x.self=&x; x.stop=i; x.val=v; FILE*s=mode?chunked_file(t,{3}):nullptr; int rc=mode?cypher_quick_fparse(s,cbq,&x,cfl(f)):cypher_quick_uparse(t.data(),t.size(),cbq,&x,cfl(f)); if(s) fclose(s); impl::execs++; bool hit=v&&i<qb.segs.size(); size_t calls=hit?i+1:qb.segs.size(); tally("returns"); if(rc!=(hit&&v<0?v:0)) return fmt("quick callback %zu returns %d: the parse returns %d",i,v,rc); if(x.shown.size()!=calls) return fmt("quick callback %zu returns %d: %zu callbacks, expected %zu",i,v,x.shown.size(),calls); for(size_t k=0;k<calls;k++) if(x.shown[k]!=qb.segs[k].text) return "quick callback: other text"; }
  return ""; }
// reference schedules: every order of retaining and releasing
namespace { struct Ref { cypher_parse_segment_t*s; string str; int n; };
struct Sched { const vector<int>*plan; // per segment: references taken in its callback
  vector<int> pre, taken, width; vector<Ref> held; string bad; size_t calls=0; int extra; int abort_at=-1,abort_val=0;
  int pick(int n){ size_t i=taken.size(); int c=i<pre.size()?pre[i]:0; taken.push_back(c); width.push_back(n); return c; }
  string verify(){ for(auto&h:held) if(h.n>0){ string b; string now=segstr(h.s,b); if(!b.empty()) return b; if(now!=h.str) return "a retained segment changed from\n"+h.str+"to\n"+now; } return ""; }
  // choose an operation on a held reference, or none (0)
  bool step(bool must){ vector<int> live; for(size_t i=0;i<held.size();i++) if(held[i].n>0) live.push_back(i); if(live.empty()) return false; int opts=live.size()+(must?0:1)+(extra>0?(int)live.size():0); int c=pick(opts); if(!must){ if(c==0) return false; c--; } if(c<(int)live.size()){ Ref&h=held[live[c]]; h.n--; cypher_parse_segment_release(h.s); } else { c-=live.size(); extra--; Ref&h=held[live[c]]; h.n++; cypher_parse_segment_retain(h.s); } if(bad.empty()) bad=verify(); return true; } };
}
static int cbs(void*u,cypher_parse_segment_t*s){ Sched*x=(Sched*)u; size_t i=x->calls++; if(x->bad.empty()) x->bad=x->verify(); int n= i<x->plan->size()?(*x->plan)[i]:0; if(n){ string b; Ref r{s,segstr(s,b),n}; if(!b.empty()) x->bad=b; for(int k=0;k<n;k++) cypher_parse_segment_retain(s); x->held.push_back(r); } while(x->step(false)); return (int)i==x->abort_at?x->abort_val:0; }
static string p13ref(const Case&c){ // p1: plan digits, p2: extra retains, p3: mode 0 buffer 1 stream, p4: abort position, p5: abort value
  vector<int> plan; for(char ch:c.p[1]) plan.push_back(ch-'0'); vector<int> pre; unsigned long long runs=0;
  for(;;){ Sched x; x.plan=&plan; x.pre=pre; x.extra=atoi(c.p[2].c_str()); x.abort_at=atoi(c.p[4].c_str()); x.abort_val=atoi(c.p[5].c_str()); int mode=atoi(c.p[3].c_str()); 
    { char*buf=(char*)malloc(c.in.size()+1); memcpy(buf,c.in.data(),c.in.size()); cypher_parser_config_t*cf=cypher_parser_new_config(); FILE*s=mode?chunked_file(c.in,{2}):nullptr; int rc= mode?cypher_fparse_each(s,cbs,&x,0,cf,0):cypher_uparse_each(buf,c.in.size(),cbs,&x,0,cf,0); memset(buf,'#',c.in.size()); free(buf); if(s) fclose(s); cypher_parser_config_free(cf); impl::execs++; if(rc!=(x.abort_val<0&&(int)x.calls>x.abort_at?x.abort_val:0)) return fmt("returns %d",rc); }
    if(x.bad.empty()) x.bad=x.verify(); 
    // an unrelated parse in between
    if(runs%7==0){ Out o=impl::parse("RETURN 1; foo",0); if(x.bad.empty()) x.bad=x.verify(); }
    while(x.step(true)) ; tally("schedules"); runs++; string ops; for(int k:x.taken) ops+=to_string(k)+" "; if(!x.bad.empty()) return "schedule "+ops+": "+x.bad; string l=alloc::leak(); if(!l.empty()) return "schedule "+ops+": "+l+" after the last release";
    // next schedule
    int k=x.taken.size()-1; while(k>=0&&x.taken[k]+1>=x.width[k]) k--; if(k<0) break; pre.assign(x.taken.begin(),x.taken.begin()+k); pre.push_back(x.taken[k]+1); }
  tally("nontrivial"); return ""; }
namespace { struct Many{ unsigned n; vector<cypher_parse_segment_t*> segs; vector<string> shown; string bad; }; }
static int cbmany(void*u,cypher_parse_segment_t*s){ Many*m=(Many*)u; for(unsigned i=0;i<m->n;i++) cypher_parse_segment_retain(s); m->segs.push_back(s); m->shown.push_back(segstr(s,m->bad)); return 0; }
static string p13many(const Case&c){ Many m; m.n=strtoul(c.p[1].c_str(),0,10); int rc=cypher_uparse_each(c.in.data(),c.in.size(),cbmany,&m,0,0,0); impl::execs++; string r=rc?"parsing fails":m.bad; 
  // released in rounds: every segment must stay as it was until its last reference goes
  for(unsigned i=0;i<m.n;i++){ bool look=i<3||(i&(i-1))==0||((i+1)&i)==0||i+2>=m.n; for(size_t k=0;k<m.segs.size();k++){ if(look&&r.empty()){ string b; string now=segstr(m.segs[k],b); if(!b.empty()||now!=m.shown[k]) r=fmt("segment %zu has changed after %u of %u references were released",k,i,m.n); } if(r.empty()||i+1==m.n) cypher_parse_segment_release(m.segs[k]); } if(!r.empty()) return r; }
  tally("nontrivial"); tally("schedules"); return r; }
static string p13(const Case&c){ return c.g=="many references"?p13many(c):c.g=="references"?p13ref(c):p13ret(c); }
static void g13(Gen&g){ g.begin("returns","every listed text and short multi-segment texts: each of 11 return values from each callback"); texts([&](const string&s){ g.emit(s); if(g.thorough) g.emit(s,{"2"}); }); enums::strings({"RETURN 1;",";",":a\n","x;"," ","//c\n","RETURN 'a"},g.t(4,5),[&](const string&s){ g.emit(s); });
  g.begin("references",fmt("texts of %d segments: every plan of 0..2 references per segment, an optional extra retain, and every order of releases within later callbacks and after the parse; parses that end normally, are stopped or aborted",g.t(3,4))); vector<string> T={"RETURN 1;MATCH (n) RETURN n;x !;",":a b\nRETURN 1;//c\n","foo;bar;RETURN 'a","RETURN 1;;RETURN 2;"}; int n=3; 
  for(auto&t:T) for(int m=0;m<27;m++){ string plan; int tot=0; for(int k=0,v=m;k<n;k++,v/=3){ plan+=char('0'+v%3); tot+=v%3; } if(!tot||tot>g.t(4,5)) continue; for(int ex=0;ex<=(tot<=g.t(2,3)?1:0);ex++) for(int mode=0;mode<2;mode++) for(int ab=-1;ab<3;ab++) for(int av:{1,-3}){ if(ab<0&&av!=1) continue; if(!g.thorough&&mode&&ab>=0) continue; g.emit(t,{"0",plan,to_string(ex),to_string(mode),to_string(ab),to_string(av)}); } }
  g.begin("many references","texts of several segments of each of which up to 70000 references are held and released in turn; every segment inspected after 1, 2, and about every power of two releases"); for(auto&t:T) for(const char*k:{"1","2","3","15","16","127","128","129","255","256","257","511","512","1000","32767","32768","65535","65536","65537","70000"}) g.emit(t,{"0",k});
  if(g.thorough) for(auto*t:{"RETURN 1;x;:c d\nRETURN 2;"}) for(auto*p:{"1111","2110","1201","0121","1002"}) g.emit(t,{"0",p,"0","0","-1","1"}); }
static Reg r13({"P13","exploration",g13,p13,"a case is a text with either each return value from each callback, or a plan of references for which every schedule of releases is run; non-trivial: plans, and non-zero returns","schedules are enumerated by depth-first search over the choices at each callback and after the parse",20});

// ---- P15 stream faults ---------------------------------------------------------------------------
static string p15read(const Case&c){ int f=fl(c); const string&t=c.in; Out base=impl::parse(t,f); QOut qb=impl::qparse(t,f); string r;
  static const int ERR[]={EIO,EBADF,EAGAIN,EISDIR,0}; vector<vector<size_t>> CH={{1},{4},{1<<20}};
  // how much is read before each segment is delivered
  for(size_t k=0;k<=t.size();k++) for(size_t ci=0;ci<CH.size();ci++){ int err=ERR[(k+ci)%5]; 
    { Out b; struct cypher_input_position l={0,0,UNSET}; FILE*s=chunked_file(t,CH[ci],k,err); errno=0; b.ret=cypher_fparse_each(s,each_cb,&b,&l,0,cfl(f)); int e=errno; fclose(s); impl::execs++; tally("read_faults"); string d=fmt("reading fails after %zu bytes: ",k);
      size_t stopped= (f&FL_SINGLE)? (base.segs.size()?base.segs[0].r.e.off:0):t.size()+1; 
      if(b.ret==0&&!((f&FL_SINGLE)&&k>=stopped)) return d+"parsing succeeds"; if(b.ret!=0){ if(b.ret!=-1) return d+fmt("parsing returns %d",b.ret); if(err?e!=err:e==0) return d+fmt("errno is %d, the stream's error is %d",e,err); }
      if(!b.bad.empty()) return d+b.bad; if(b.segs.size()>base.segs.size()) return d+"more segments than in the whole input";
      for(size_t i=0;i<b.segs.size();i++){ Out x,y; x.segs.push_back(base.segs[i]); y.segs.push_back(b.segs[i]); if(!(r=diff(x,y,C_ALL&~C_CTX&~C_RET&~C_LAST)).empty()) return d+"delivered segment differs: "+r; if(b.segs[i].r.e.off>k) return d+"a segment beyond what was read"; }
      size_t must=0; for(auto&x:base.segs) if(!x.eof&&x.r.e.off<k&&(t[x.r.e.off-1]==';'||t[x.r.e.off-1]=='\n')&&x.errs.empty()) must++; else break; if(f&FL_SINGLE) must=min<size_t>(must,1); if(b.segs.size()<must) return d+fmt("%zu segments delivered, %zu were complete",b.segs.size(),must); if(k>0&&k<t.size()) tally("nontrivial"); }
    { FILE*s=chunked_file(t,CH[ci],k,err); errno=0; cypher_parse_result_t*x=cypher_fparse(s,0,0,cfl(f)); int e=errno; fclose(s); impl::execs++; if(x){ cypher_parse_result_free(x); size_t stopped=base.segs.size()?base.segs[0].r.e.off:0; if(!((f&FL_SINGLE)&&k>=stopped)) return fmt("reading fails after %zu bytes: a whole result is returned",k); } else if(err?e!=err:e==0) return fmt("reading fails after %zu bytes: no result, errno %d",k,e); }
    { QOut q; FILE*s=chunked_file(t,CH[ci],k,err); errno=0; q.ret=cypher_quick_fparse(s,each_q,&q,cfl(f)); int e=errno; fclose(s); impl::execs++; string d=fmt("reading fails after %zu bytes: quick parser ",k); size_t stopped=qb.segs.size()?qb.segs[0].next.off:0; if(q.ret==0&&!((f&FL_SINGLE)&&k>=stopped)) return d+"succeeds"; if(q.ret!=0&&(q.ret!=-1||(err?e!=err:e==0))) return d+fmt("returns %d with errno %d, the stream's error is %d",q.ret,e,err); if(q.segs.size()>qb.segs.size()) return d+"delivers too much"; for(size_t i=0;i<q.segs.size();i++) if(!(q.segs[i]==qb.segs[i])) return d+"delivers a segment that differs: ["+esc(q.segs[i].text)+"]"; } }
  return ""; }
namespace { struct WF { long left; string got; int err; }; ssize_t wf(void*c,const char*b,size_t n){ WF*w=(WF*)c; if(w->left<=0){ errno=w->err; return 0; } size_t k=min<size_t>(n,w->left); w->got.append(b,k); w->left-=k; if(k<n) { errno=w->err; } return k; } }
static FILE*wfile(WF*w){ cookie_io_functions_t io={nullptr,wf,nullptr,nullptr}; return fopencookie(w,"w",io); }
static string p15write(const Case&c){ const string&t=c.in; unsigned width=atoi(c.p[1].c_str()); bool color=c.p[2]=="1"; const struct cypher_parser_colorization*col=color?&marker_colors:0; cypher_parse_result_t*x=cypher_uparse(t.data(),t.size(),0,0,0); if(!x) return "no result"; string r; unsigned nr=cypher_parse_result_nroots(x);
  struct K { cypher_parse_result_t*x; string out; }; 
  for(unsigned which=0;which<=nr&&r.empty();which++){ auto run=[&](FILE*s){ return which==nr?cypher_parse_result_fprint_ast(x,s,width,col,0):cypher_ast_fprint(cypher_parse_result_get_root(x,which),s,width,col,0); };
    WF all{1<<28,"",EIO}; FILE*s=wfile(&all); int rc=run(s); int fc=fclose(s); impl::execs++; if(rc||fc){ r="rendering to a good stream fails"; break; }
    for(int mode=0;mode<3&&r.empty();mode++) for(size_t k=0;k<all.got.size();k+= mode==2?max<size_t>(1,all.got.size()/17):1){ WF w{(long)k,"",k%2?ENOSPC:EPIPE}; FILE*s=wfile(&w); static char small[64]; if(mode==0) setvbuf(s,0,_IONBF,0); else if(mode==1) setvbuf(s,small,_IOFBF,sizeof small); errno=0; int rc=run(s); int fl=fflush(s); fclose(s); impl::execs++; tally("write_faults"); tally("nontrivial"); if(mode==0&&rc!=-1){ r=fmt("writing fails after %zu of %zu bytes, rendering returns %d",k,all.got.size(),rc); break; } if(rc==0&&fl==0){ r=fmt("writing fails after %zu of %zu bytes and nobody notices",k,all.got.size()); break; } if(rc!=0&&rc!=-1){ r="odd return value"; break; } if(mode==1&&rc==0&&k+64<all.got.size()&&all.got.size()-k>160){ r=fmt("writing fails after %zu of %zu bytes, rendering succeeds (64 byte buffer)",k,all.got.size()); break; } if(all.got.compare(0,w.got.size(),w.got)!=0){ r="what was written before the failure differs"; break; } } }
  // segments
  struct SC { unsigned width; const struct cypher_parser_colorization*col; string r; } sc{width,col,""};
  auto cb=[](void*u,cypher_parse_segment_t*s)->int{ SC*c=(SC*)u; WF all{1<<28,"",EIO}; FILE*f=wfile(&all); int rc=cypher_parse_segment_fprint_ast(s,f,c->width,c->col,0); fclose(f); if(rc){ c->r="rendering a segment fails"; return 0; } for(size_t k=0;k<all.got.size();k++){ WF w{(long)k,"",EIO}; FILE*f=wfile(&w); setvbuf(f,0,_IONBF,0); int rc=cypher_parse_segment_fprint_ast(s,f,c->width,c->col,0); fclose(f); tally("write_faults"); if(rc!=-1){ c->r=fmt("rendering a segment: writing fails after %zu bytes, it returns %d",k,rc); return 0; } } return 0; };
  cypher_parse_result_free(x); if(r.empty()){ int rc=cypher_uparse_each(t.data(),t.size(),cb,&sc,0,0,0); r=sc.r; }
  return r; }
static string p15(const Case&c){ return c.g=="write"?p15write(c):p15read(c); }
static void g15(Gen&g){ g.begin("read","every listed text and every pair of short ones, reading failing at every byte, with three read sizes and four errors, under each flag"); texts([&](const string&s){ for(auto*f:{"0","1","2"}) g.emit(s,{f}); }); enums::strings({"RETURN 1;",";",":a b\n","x;"," ","//c\n","'a;'","/*","\n","\r\n"},g.t(3,4),[&](const string&s){ g.emit(s,{"0"}); });
  g.begin("read long","texts across the read buffer, failing at every byte"); for(int k:{500,1020,1500,2040}) { g.emit("RETURN 1;"+string(k,' ')+"RETURN 2;",{"0"}); g.emit("RETURN '"+string(k,'q')+"';RETURN 2;:a\n",{"0"}); }
  g.begin("write","every listed text: writing failing at every byte of the rendering of each root, each segment and the result, unbuffered and through a small buffer, at several widths with and without colours"); texts([&](const string&s){ for(auto*w:{"0","20","80"}) for(auto*k:{"0","1"}) if(g.thorough||(w[0]=='0'||(k[0]=='1'&&w[0]=='2'))) g.emit(s,{"0",w,k}); }); }
static Reg r15({"P15","fault_enumeration",g15,p15,"a case is a text for which the stream fails at each byte in turn; non-trivial: faults that are neither before the first nor after the last byte, and all write faults","faults are injected by custom streams; a fault that stays in the stream's own buffer is seen by the caller's flush",20});
