// The runtime of replay.cc for other targets: no C library, run under qemu-user.  AArch64 and RISC-V share the generic system call numbers.
#include "ys.h"
typedef long L;
#if defined(__aarch64__)
static L sys(L n, L a=0, L b=0, L c=0, L d=0, L e=0, L f=0) { register L x8 asm("x8")=n, x0 asm("x0")=a, x1 asm("x1")=b, x2 asm("x2")=c, x3 asm("x3")=d, x4 asm("x4")=e, x5 asm("x5")=f; asm volatile("svc #0":"+r"(x0):"r"(x8),"r"(x1),"r"(x2),"r"(x3),"r"(x4),"r"(x5):"memory"); return x0; }
asm(".globl _start\n_start: mov x0, sp\n and sp, x0, #-16\n bl bare_main\n");
#else
static L sys(L n, L a=0, L b=0, L c=0, L d=0, L e=0, L f=0) { register L a7 asm("a7")=n, a0 asm("a0")=a, a1 asm("a1")=b, a2 asm("a2")=c, a3 asm("a3")=d, a4 asm("a4")=e, a5 asm("a5")=f; asm volatile("ecall":"+r"(a0):"r"(a7),"r"(a1),"r"(a2),"r"(a3),"r"(a4),"r"(a5):"memory"); return a0; }
asm(".globl _start\n_start: .option push\n .option norelax\n la gp, __global_pointer$\n .option pop\n mv a0, sp\n andi sp, sp, -16\n call bare_main\n");
#endif
static char ob[1<<16]; static unsigned on=0;
static void flush() { if(on) sys(64,1,(L)ob,on); on=0; }
static void quit(int c) { flush(); sys(93,c); __builtin_trap(); }
static void outc(char c) { if(on==sizeof ob) flush(); ob[on++]=c; }
static void outs(const char* s) { while(*s) outc(*s++); }
static void outn(L v) { char t[24]; int i=0; if(v<0) { outc('-'); v=-v; } do t[i++]='0'+v%10; while(v/=10); while(i) outc(t[--i]); }
extern "C" {
void* memcpy(void* d, const void* s, size_t n) { volatile uint8_t* p=(uint8_t*)d; const uint8_t* q=(const uint8_t*)s; for(size_t i=0;i<n;i++) p[i]=q[i]; return d; }
void* memmove(void* d, const void* s, size_t n) { volatile uint8_t* p=(uint8_t*)d; const uint8_t* q=(const uint8_t*)s; if(p<q) for(size_t i=0;i<n;i++) p[i]=q[i]; else while(n--) p[n]=q[n]; return d; }
void* memset(void* d, int c, size_t n) { volatile uint8_t* p=(uint8_t*)d; for(size_t i=0;i<n;i++) p[i]=c; return d; }
int memcmp(const void* a, const void* b, size_t n) { const volatile uint8_t* p=(const uint8_t*)a; const uint8_t* q=(const uint8_t*)b; for(size_t i=0;i<n;i++) if(p[i]!=q[i]) return p[i]<q[i]?-1:1; return 0; }
size_t strlen(const char* s) { size_t n=0; while(((const volatile char*)s)[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while(*a&&*a==*b) { a++; b++; } return (uint8_t)*a-(uint8_t)*b; }
static uint8_t arena[64<<20] __attribute__((aligned(64))); static size_t used=0; static L live=0;
static void* take(size_t n, size_t al) { if(al<64) al=64; used=(used+al-1)/al*al+16; used=(used+al-1)/al*al; uint8_t* p=arena+used; *(size_t*)(p-8)=n; used+=n+16; if(used>sizeof arena) { outs("NOMEM\n"); quit(5); } live++; return p; }
void* malloc(size_t n) { return take(n,16); }
void free(void* p) { if(p) live--; }
void* calloc(size_t a, size_t b) { void* p=take(a*b,16); memset(p,0,a*b); return p; }
void* realloc(void* p, size_t n) { void* q=take(n,16); if(p) { size_t o=((size_t*)p)[-1]; memcpy(q,p,o<n?o:n); live--; } return q; }
void* aligned_alloc(size_t al, size_t n) { return take(n,al); }
void* memalign(size_t al, size_t n) { return take(n,al); }
void* valloc(size_t n) { return take(n,4096); }
int posix_memalign(void** p, size_t al, size_t n) { *p=take(n,al); return 0; }
void abort() { outs("ABORT\n"); quit(6); __builtin_trap(); }
int printf(const char*, ...) { return 0; }
long long llabs(long long x) { return x<0?-x:x; } long labs(long x) { return x<0?-x:x; } int abs(int x) { return x<0?-x:x; }
int __cxa_atexit(void*, void*, void*) { return 0; }
void __cxa_pure_virtual() { abort(); }
void* __dso_handle=0;
}
void* operator new(size_t n) { return malloc(n); } void* operator new[](size_t n) { return malloc(n); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
// ---- the file of inputs
struct In { char name[64]; uint64_t v; }; static In ins[200000]; static unsigned nin=0, pos=0;
struct Par { char name[64]; L v; }; static Par par[256]; static unsigned npar=0;
struct Buf { uint8_t* map; size_t len; uint8_t* p; size_t n; const char* name; }; static Buf bufs[20000]; static unsigned nb=0; static int failures=0;
static uint64_t next() { while(pos<nin && !strcmp(ins[pos].name,"uninit")) pos++; return pos<nin?ins[pos++].v:0; }
extern "C" {
uint8_t ys_byte(const char*) { return next(); }
uint8_t ys_byte_in(const char*, const uint8_t dom[256]) { uint8_t v=next(); if(!dom[v]) for(int i=0;i<256;i++) if(dom[(uint8_t)(v+i)]) return v+i; return v; }
uint16_t ys_u16(const char*) { uint16_t v=0; for(int i=0;i<2;i++) v|=(uint16_t)next()<<(8*i); return v; }
uint32_t ys_u32(const char*) { uint32_t v=0; for(int i=0;i<4;i++) v|=(uint32_t)next()<<(8*i); return v; }
uint64_t ys_u64(const char*) { uint64_t v=0; for(int i=0;i<8;i++) v|=(uint64_t)next()<<(8*i); return v; }
uint32_t ys_bits32(const char*) { uint32_t v=0; for(int i=0;i<32;i++) v|=(uint32_t)(next()&1)<<i; return v; }
int ys_bit(const char*) { return next()&1; }
L ys_range(const char*, L lo, L hi) { L v=lo+(L)next(); return v>hi?hi:v; }
int ys_choose(const char*, int k) { int v=next(); return v>=k?k-1:v; }
static Par* find(const char* n) { for(unsigned i=0;i<npar;i++) if(!strcmp(par[i].name,n)) return par+i; return 0; }
L ys_param(const char* n) { Par* p=find(n); if(!p) { outs("NOPARAM "); outs(n); outs("\n"); quit(3); } return p->v; }
L ys_param_or(const char* n, L d) { Par* p=find(n); return p?p->v:d; }
void ys_assume(int c) { if(!c) { outs("ASSUME\n"); quit(4); } }
void ys_assert(int c, const char* m) { if(!c) { failures++; outs("ASSERT "); outs(m); outs("\n"); flush(); } }
void ys_assert_eq(const void* a, const void* b, size_t n, const char* m) { if(n && memcmp(a,b,n)) ys_assert(0,m); }
void* ys_alloc(size_t size, size_t align, size_t off, const char* name) {
	if(align<1) align=1;
	size_t len=((size+align+off+3*4096)/4096+2)*4096; L low=ys_param_or("low",0);
	uint8_t* m=(uint8_t*)sys(222,0,len,3,0x22,-1,0); sys(226,(L)m,4096,0); sys(226,(L)m+len-4096,4096,0);
	memset(m+4096,0xA5,len-8192);
	size_t room=len-4096-size; uint8_t* p=m+room; p=(uint8_t*)((uintptr_t)p/align*align)+off; while(p+size>m+len-4096) p-=align; if(low) p=m+4096+off;
	bufs[nb].map=m; bufs[nb].len=len; bufs[nb].p=p; bufs[nb].n=size; bufs[nb].name=name; nb++; return p;
}
void ys_readonly(void*) {}
void ys_pages(void*) {}
void ys_units(void*) {}
void ys_mux(void*) {}
uint64_t ys_heap_live(void) { return (uint64_t)live; }
uint64_t ys_concretize(uint64_t x) { return x; }
uint64_t ys_select(int c, uint64_t a, uint64_t b) { return c?a:b; }
void ys_shared_ro(int) {}
void ys_shared_exempt(void*) {}
uint32_t ys_features(int) { return 0; }
uint32_t ys_fn_features(void*) { return 0; }
void ys_reach(const char*) {}
void ys_observe(const char* n, const void* p, size_t k) { outs("OBS "); outs(n); outc(' '); for(size_t i=0;i<k;i++) { uint8_t v=((const uint8_t*)p)[i]; outc("0123456789abcdef"[v>>4]); outc("0123456789abcdef"[v&15]); } outc('\n'); flush(); }
void ys_set_cpuid(uint32_t, uint32_t, int, uint32_t) {}
void ys_set_xcr0(uint64_t) {}
int ys_in_engine(void) { return 0; }
void ys_fork_index(int) {}
void harness_init(); void harness();
extern void (*__init_array_start[])(); extern void (*__init_array_end[])();
void bare_main(L* sp) {
	char** argv=(char**)(sp+1); L fd=sys(56,-100,(L)argv[1],0,0); if(fd<0) quit(3);
	static char buf[16<<20]; L n=0, r; while((r=sys(63,fd,(L)buf+n,sizeof buf-1-n))>0) n+=r; buf[n]=0;
	const char* q=buf;
	auto word=[&](char* o, int m) { while(*q==' '||*q=='\n') q++; int i=0; while(*q&&*q!=' '&&*q!='\n') { if(i<m-1) o[i++]=*q; q++; } o[i]=0; return i>0; };
	char t[16], k[64], v[64];
	while(word(t,16)&&word(k,64)&&word(v,64)) { bool neg=v[0]=='-'; uint64_t x=0; for(const char* c=v+neg;*c;c++) x=x*10+(*c-'0'); if(neg) x=0-x; if(t[0]=='p') { memcpy(par[npar].name,k,64); par[npar++].v=x; } else { memcpy(ins[nin].name,k,64); ins[nin++].v=x; } }
	for(void (**f)()=__init_array_start; f<__init_array_end; f++) (*f)();
	harness_init(); harness();
	for(unsigned i=0;i<nb;i++) { Buf& b=bufs[i]; for(uint8_t* p=b.map+4096;p<b.map+b.len-4096;p++) if((p<b.p||p>=b.p+b.n) && *p!=0xA5) { outs("MEMORY out-of-bounds write at offset "); outn(p-b.p); outs(" of '"); outs(b.name); outs("'\n"); failures++; break; } }
	outs("DONE "); outn(failures); outs("\n"); quit(0);
}
}
