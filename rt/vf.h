// Harness interface: implemented by the symbolic executor (engine/builtins.cpp) and, for replay, by rt/native.cpp.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
int32_t vf_i32(const char* name); uint32_t vf_u32(const char* name); int64_t vf_i64(const char* name); uint64_t vf_u64(const char* name);
uint8_t vf_u8(const char* name); uint16_t vf_u16(const char* name); bool vf_bool(const char* name); double vf_f64(const char* name);
int32_t vf_range(const char* name, int32_t lo, int32_t hi);   // symbolic integer in [lo, hi]
int32_t vf_pick(const char* name, int32_t lo, int32_t hi);    // symbolic integer in [lo, hi], split into one path per value
void vf_bytes(void* p, size_t n, const char* name);
void vf_assume(int c);
void vf_assert(int c, const char* msg);
void vf_fail(const char* msg);
void vf_reach(const char* id);                                // vacuity witness
void vf_trace(const char* tag, int64_t v);
int64_t vf_concretize(int64_t v);
void vf_done();
bool vf_symbolic();
uint64_t vf_heap_live();
int64_t vf_param(const char* name, int64_t dflt);
void vf_opt(const char* name, int64_t v);
uint64_t vf_thread_create(void (*fn)(void*), void* arg); void vf_thread_join(uint64_t id);
int vf_self(); void vf_yield();
void vf_watch(const volatile void* p, size_t n, int mode, const char* name);   // mode 1: report data races on this memory, 2: accesses are scheduling points, 3: both
void vf_quiesce();                                            // block until no other thread can run
uint64_t vf_clock(); void vf_clock_advance(uint64_t ns);
bool vf_mutex_locked(void* m); int vf_mutexes_held();
int vf_fmt_double(char* buf, size_t n, uint64_t bits);
}
