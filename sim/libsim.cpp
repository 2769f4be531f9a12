// Deterministic simulator runtime: seeded scheduler, memory, disk, faults, recording, replay, minimisation.
#include "rt.h"
namespace rt { HIDDEN Glob G; HIDDEN Thread TH[MAXT]; }
#include "mem.inc"
#include "tsan.inc"
#include "sched.inc"
#include "disk.inc"
#include "super.inc"
