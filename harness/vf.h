// Harness API.  In the engine these are intrinsics; natively (replay) they read the
// recorded assignment.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cmath>
#include <string>
extern "C" {
    int64_t vf_int(const char* name, int64_t lo, int64_t hi);
    double  vf_real(const char* name, double lo, double hi);
    int     vf_pick(const char* name, int lo, int hi);   // finite choice: one path per value
    void    vf_assume(int c);
    void    vf_check(int c, const char* msg);
    void    vf_close(double a, double b, double tol, const char* msg);
    void    vf_note(const char*);
    void    vf_concurrently(void (*a)(), void (*b)());     // two threads; in the engine b runs as a whole at any access of a to the heap, or after a
    void    vf_sync(void);                                 // replay: a point where the second thread may be let in (engine: not called)
    int     vf_thread(void);                               // number of the current thread
    extern int vf_schedule;                                // engine: bit i set: the i-th started thread runs when it is joined
    int     vf_is_symbolic(void);
    int     vf_tier(void);
    void    vf_dump(const char*, double);
    void    vf_poison(void*, uint64_t);
    void    vf_unpoison(void*, uint64_t);
}
#define VF_CASE(name)        extern "C" __attribute__((used,noinline)) void vfcase_##name()
#define VF_CASES(name, N, k) extern "C" __attribute__((used,noinline)) void vfcaseN_##N##_##name(int k)

