#pragma once
extern unsigned long long cov_count, cov_budget; extern void (*cov_over)();
