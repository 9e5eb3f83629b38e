// Harness interface: in ysym these are intrinsics; in the native replay they are provided by replay/replay.cc.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t ys_byte(const char* name);                              // arbitrary byte
uint8_t ys_byte_in(const char* name, const uint8_t dom[256]);   // arbitrary byte b with dom[b] != 0
uint16_t ys_u16(const char* name);
uint32_t ys_u32(const char* name);
uint64_t ys_u64(const char* name);
uint32_t ys_bits32(const char* name);                           // 32 one-bit variables (linear mode)
int ys_bit(const char* name);
long ys_range(const char* name, long lo, long hi);              // symbolic integer in [lo,hi] (span < 256)
int ys_choose(const char* name, int n);                         // explore every value 0..n-1 as separate paths
long ys_param(const char* name);
long ys_param_or(const char* name, long def);
void ys_assume(int c);
void ys_assert(int c, const char* msg);
void ys_assert_eq(const void* a, const void* b, size_t n, const char* msg);
void* ys_alloc(size_t size, size_t align, size_t off, const char* name); // address = off (mod align); exactly size bytes accessible
void ys_pages(void* p); // reads may reach any byte of the 4096 byte pages p's object lies in (they cannot fault)
void ys_units(void* p); // the same for the aligned 16 byte units p's object lies in: an aligned load of a vector
void ys_readonly(void* p);
uint64_t ys_heap_live(void);                                    // blocks of the C heap (malloc, new) not freed so far
void ys_mux(void* p);
uint64_t ys_concretize(uint64_t x);
uint64_t ys_select(int c, uint64_t a, uint64_t b);              // branch-free c ? a : b
void ys_shared_ro(int on);                                      // writes to globals and to heap objects that exist at this point become violations
void ys_shared_exempt(void* p);                                 // except for this object (a part of the harness)
uint32_t ys_features(int reset);                                // instruction sets of the functions executed so far
uint32_t ys_fn_features(void* fn);                              // instruction sets a function was compiled for
void ys_reach(const char* name);                                // reachability witness
void ys_observe(const char* name, const void* p, size_t n);     // recorded in traces
void ys_set_cpuid(uint32_t leaf, uint32_t sub, int reg, uint32_t val);
void ys_set_xcr0(uint64_t v);
int ys_in_engine(void);
void ys_fork_index(int on);                                     // engine: case-split on table indices and compress masks instead of building multiplexers
}
