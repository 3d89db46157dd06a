#pragma once
#include "core.h"
struct Sched {
    int team = 0;            // 0: as configured
    bool controlled = false; // one thread at a time, drawn switches
    int p_switch = 30;       // of ten thousand yield points that many switch
    uint64_t rs = 1;
    long regions = 0, parallel_regions = 0, switches = 0;
    Hash trace;
};
extern Sched SCH;
void sched_yield_point();
