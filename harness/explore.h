// Exhaustive exploration: a property enumerates its bounded space of cases (the
// same sequence in every worker); each distinct case is executed once, by the
// worker its hash selects, in a process whose death or hang is attributed to
// the case.  Whatever is found is replayed alone before it is reported.
#pragma once
#include "core.h"
#include "alloc.h"
struct Case { std::string g, in; std::vector<std::string> p; std::string enc()const; static Case dec(const std::string&); };
struct Gen {
  bool thorough=false; std::function<bool(Case&&)> sink; std::string group; 
  // bound of a group, in words, for the evidence
  std::map<std::string,std::string> bounds;
  void begin(const std::string&g,const std::string&bound){ group=g; bounds[g]=bound; }
  void emit(const std::string&in,std::vector<std::string> p={}){ Case c; c.g=group; c.in=in; c.p=std::move(p); sink(std::move(c)); }
  int t(int quick,int thor)const{ return thorough?thor:quick; }
};
struct Tally { // counters of a run, shared between the workers
  enum { N=48 }; };
void tally(const char*name,unsigned long long n=1);      // sum over the run
void tally_max(const char*name,unsigned long long n);
struct Prop { const char*id; const char*level; void(*gen)(Gen&); std::string(*check)(const Case&); const char*rule; const char*assume; int cpu_limit; };
extern std::vector<Prop> props;
struct Reg{ Reg(Prop p){ props.push_back(p);} };
int explore_main(int argc,char**argv);
std::string known(const std::string&key,const std::string&desc); // a violation that may be a listed finding
bool is_known(const std::string&key); // is it listed for this property?
