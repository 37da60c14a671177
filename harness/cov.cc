// Counts executed edges of the library; only the variant built for that calls it.
#include "cov.h"
#include <cstdint>
unsigned long long cov_count=0, cov_budget=~0ull; void (*cov_over)()=nullptr; void (*cov_edge)(uint32_t)=nullptr; static uint32_t n_=0;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t*a,uint32_t*b){ for(;a<b;a++) if(!*a) *a=++n_; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*g){ if(++cov_count>cov_budget&&cov_over) cov_over(); }
