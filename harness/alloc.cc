#include "alloc.h"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <vector>
#include <cstdint>
namespace alloc {
unsigned long long count=0; bool paused=false; static long failk=-1; static bool persist_=false, hit=false;
// open addressing table of live blocks
static const void**tab=nullptr; static size_t*szs=nullptr; static size_t cap=0,used=0,lv=0; static const void*const DEL=(void*)1;
static size_t h(const void*p,size_t c){ return ((uintptr_t)p*0x9E3779B97F4A7C15ull>>20)&(c-1); }
static void grow(){ size_t oc=cap; const void**ot=tab; size_t*os=szs; cap= lv*4<1024?1024:1; while(cap<lv*4) cap*=2; if(cap<1024) cap=1024; tab=(const void**)calloc(cap,sizeof*tab); szs=(size_t*)calloc(cap,sizeof*szs); used=lv; for(size_t i=0;i<oc;i++) if(ot[i]&&ot[i]!=DEL){ size_t j=h(ot[i],cap); while(tab[j]) j=(j+1)&(cap-1); tab[j]=ot[i]; szs[j]=os[i]; } free(ot); free(os); }
static void add(const void*p,size_t n){ if((used+1)*2>cap) grow(); size_t j=h(p,cap); while(tab[j]&&tab[j]!=DEL) j=(j+1)&(cap-1); if(!tab[j]) used++; tab[j]=p; szs[j]=n; lv++; }
static void del(const void*p){ if(!cap||!p) return; size_t j=h(p,cap); while(tab[j]){ if(tab[j]==p){ tab[j]=DEL; lv--; return; } j=(j+1)&(cap-1); } }
void reset(){ paused=false; if(used){ memset(tab,0,cap*sizeof*tab); used=lv=0; } count=0; failk=-1; hit=false; }
size_t live(){ return lv; }
std::string leak(){ if(!lv) return ""; size_t n=0; for(size_t i=0;i<cap;i++) if(tab[i]&&tab[i]!=DEL) n+=szs[i]; return std::to_string(lv)+" allocations ("+std::to_string(n)+" bytes) not released"; }
void fail_at(long k,bool p){ failk=k<0?-1:(long)count+k; persist_=p; hit=false; }
void no_fail(){ failk=-1; }
bool failed(){ return hit; }
void (*yield)(int)=nullptr;
static bool fault(){ if(yield) yield(0); if(paused) return false; long c=count++; if(failk>=0&&(persist_?c>=failk:c==failk)){ hit=true; errno=ENOMEM; return true; } return false; }
}
using namespace alloc;
extern "C" {
void*vf_malloc(size_t n){ if(fault()) return 0; void*p=malloc(n); if(p) add(p,n); return p; }
void*vf_calloc(size_t a,size_t b){ if(fault()) return 0; void*p=calloc(a,b); if(p) add(p,a*b); return p; }
void*vf_realloc(void*o,size_t n){ if(fault()) return 0; del(o); void*p=realloc(o,n); if(p) add(p,n); else if(o) add(o,1); return p; }
void vf_free(void*p){ del(p); free(p); }
char*vf_strdup(const char*s){ if(fault()) return 0; char*p=strdup(s); if(p) add(p,strlen(s)+1); return p; }
char*vf_strndup(const char*s,size_t n){ if(fault()) return 0; char*p=strndup(s,n); if(p) add(p,strlen(p)+1); return p; }
}
