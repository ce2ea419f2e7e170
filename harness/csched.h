// Deterministic controlled scheduler for multi-threaded code (see csched.cc).
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// Explicit scheduling point (no-op outside controlled mode).
void csched_point(void);
// Number of scheduling points passed so far / context switches made.
uint64_t csched_steps(void);
uint64_t csched_switches(void);
// 1 when the controlled scheduler is driving this process.
int csched_active(void);
// Deterministic random number (controlled mode) or per-process random.
uint32_t csched_rand(uint32_t n);
// Turn preemption at scheduling points off/on for the calling thread (nested).
void csched_disable(void);
void csched_enable(void);
// How often the calling thread was nevertheless switched away (it had to wait) while preemption was off.
uint64_t csched_forced(void);
#ifdef __cplusplus
}
#endif
