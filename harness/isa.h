// CPU feature configurations; the harness initialiser reports one of them through the (stubbed) CPUID.
#pragma once
#include "ys.h"
enum { ISA_GEN=0, ISA_SSE2, ISA_SSSE3, ISA_AVX, ISA_AVX2, ISA_VBMI2, ISA_AVX10, ISA_CLMUL, ISA_VPCLMUL,
	ISA_NEON=20, ISA_ARMCRC, ISA_PMULL, ISA_RVV=30 /* 31: wider vectors */, ISA_ZBKC=32 };
#if defined(__aarch64__)
// the decoders' look-ahead is an aligned load there, of which 4 bytes count (decoder_common.h): it may leave the input, not the 16 byte unit
static inline void isa_lookahead(uint8_t* src) { ys_units(src); }
static unsigned long ys_hwcap=0;
extern "C" unsigned long getauxval(unsigned long t) { return t==16 ? ys_hwcap : 0; }
static inline void isa_cpuid(int isa) { ys_hwcap = isa==ISA_NEON ? 2 : isa==ISA_ARMCRC ? 0x80 : isa==ISA_PMULL ? 0x90 : 0; }
#elif defined(__riscv)
static inline void isa_lookahead(uint8_t*) {}
#else
static inline void isa_lookahead(uint8_t*) {}
static inline void isa_cpuid(int isa) {
	uint32_t c1=0, b7=0, c7=0, x=0; uint64_t xcr=0;
	if(isa>=ISA_SSSE3) c1 |= 0x200;
	if(isa>=ISA_AVX) { c1 |= 0x80000|0x800000|0x4000000|0x8000000|0x10000000; xcr=7; }
	if(isa==ISA_CLMUL) c1 |= 2;
	if(isa==ISA_VPCLMUL) c1 |= 2;
	if(isa>=ISA_AVX2) { x |= 0x20; b7 |= 0x128; }
	if(isa==ISA_VBMI2) { b7 |= 0xC0010000u; c7 |= 0x40; xcr |= 0xE0; }
	if(isa==ISA_AVX10) { xcr |= 0xE0; ys_set_cpuid(7,1,3,0x80000); ys_set_cpuid(0x24,0,1,0x70001); }
	if(isa==ISA_VPCLMUL) c7 |= 0x400;
	ys_set_cpuid(1,0,0,0x000106A5); // family 6, model 1A
	ys_set_cpuid(1,0,2,c1); ys_set_cpuid(0x80000001,0,2,x); ys_set_cpuid(7,0,1,b7); ys_set_cpuid(7,0,2,c7); ys_set_cpuid(0,0,0,0x24);
	ys_set_xcr0(xcr);
}
#endif
