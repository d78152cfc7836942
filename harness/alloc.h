// Allocator monitor: in the "alloc" build the library's own allocations come here.
#pragma once
#include "core.h"
struct AllocMon { long n, live, bytes, fail_at, fail_from, failed; long sites; void*site[256]; long bad; };
extern AllocMon*am;                  // shared with forked children
void alloc_init();
void alloc_reset_faults();
