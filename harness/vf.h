// Harness interface: implemented by the symbolic executor and by native.cpp (replay).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint32_t vf_sym(uint32_t lo, uint32_t hi);      // fresh symbolic value in [lo,hi]
uint32_t vf_choice(uint32_t n);                 // fresh symbolic value in [0,n), split eagerly
uint32_t vf_concrete(uint32_t v);               // split a symbolic value
void vf_assume(int c);
void vf_assert_(int c, const char* msg);
[[noreturn]] void vf_fail(const char* msg);
void vf_log(uint32_t tag, uint32_t v);          // observation (compared with the native replay)
void vf_reach(uint32_t id);                     // vacuity witness
void vf_state(uint64_t h);                      // abstract state reached
void vf_step(void);                             // one operation performed
void vf_trace(const char* s, uint64_t v);
void* vf_alloc(size_t n, int kind);
void vf_dealloc(void* p, size_t n, int kind);
uint32_t vf_live(void);                         // heap blocks in use
int vf_is_engine(void);
uint32_t vf_thread(void (*f)(void*), void* a);
void vf_join(uint32_t t);
void vf_yield(void);
void vf_main(void);
void vf_checkpoint(void);                       // only in the loop of vf_main: everything live is in globals here; equal states are merged
[[noreturn]] void vf_end(void);                 // end of this path
void vf_merge(void) __attribute__((nothrow)); // equal states (call stack included) are merged here
// allocation faults (rt.cpp)
extern int (*vf_fault)(void); // decides whether the next allocation fails
extern void (*vf_on_assert)(const char* expr);
}
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
#define VF_CHECK(c, msg) vf_assert_(!!(c), msg)
