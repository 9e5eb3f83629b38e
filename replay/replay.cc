// Native runtime for the harnesses: plays back the inputs of one path or counterexample against the real, natively compiled code.
#include "ys.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <sys/mman.h>
#include <map>
#include <string>
#include <vector>
#ifdef YS_SAN
#include <sanitizer/asan_interface.h>
#endif
static std::vector<std::pair<std::string,uint64_t>> inputs; static size_t pos=0;
static std::map<std::string,long> params; static int failures=0;
struct Row { uint32_t leaf, sub, r[4]; }; static Row rows[64]; static int nrows=0; static uint64_t xcr0=0;
struct Buf { uint8_t* map; size_t len; uint8_t* p; size_t n; std::string name; bool ro; };
static std::vector<Buf> bufs; static const char* self="";
static uint64_t next(const char* nm) {
	while(pos<inputs.size() && (inputs[pos].first=="uninit")) pos++;
	if(pos>=inputs.size()) return 0; // the counterexample stops where the path stopped
	return inputs[pos++].second; (void)nm;
}
extern "C" {
uint8_t ys_byte(const char* n) { return next(n); }
uint8_t ys_byte_in(const char* n, const uint8_t dom[256]) { uint8_t v=next(n); if(!dom[v]) for(int i=0;i<256;i++) if(dom[(uint8_t)(v+i)]) return v+i; return v; }
uint16_t ys_u16(const char* n) { uint16_t v=0; for(int i=0;i<2;i++) v|=(uint16_t)next(n)<<(8*i); return v; }
uint32_t ys_u32(const char* n) { uint32_t v=0; for(int i=0;i<4;i++) v|=(uint32_t)next(n)<<(8*i); return v; }
uint64_t ys_u64(const char* n) { uint64_t v=0; for(int i=0;i<8;i++) v|=(uint64_t)next(n)<<(8*i); return v; }
uint32_t ys_bits32(const char* n) { uint32_t v=0; for(int i=0;i<32;i++) v|=(uint32_t)(next(n)&1)<<i; return v; }
int ys_bit(const char* n) { return next(n)&1; }
long ys_range(const char* n, long lo, long hi) { long v=lo+(long)next(n); return v>hi?hi:v; }
int ys_choose(const char* n, int k) { int v=next(n); return v>=k?k-1:v; }
long ys_param(const char* n) { auto it=params.find(n); if(it==params.end()) { printf("NOPARAM %s\n",n); exit(3); } return it->second; }
long ys_param_or(const char* n, long d) { auto it=params.find(n); return it==params.end()?d:it->second; }
void ys_assume(int c) { if(!c) { printf("ASSUME\n"); fflush(stdout); _exit(4); } }
void ys_assert(int c, const char* m) { if(!c) { failures++; printf("ASSERT %s\n",m); fflush(stdout); } }
void ys_assert_eq(const void* a, const void* b, size_t n, const char* m) { if(n && memcmp(a,b,n)) ys_assert(0,m); }
void* ys_alloc(size_t size, size_t align, size_t off, const char* name) {
	if(align<1) align=1;
	size_t len=((size+align+off+3*4096)/4096+2)*4096;
	static int low=-1; if(low<0) low=params.count("low")?(int)params["low"]:0;
	uint8_t* m=(uint8_t*)mmap(0,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	mprotect(m,4096,PROT_NONE); mprotect(m+len-4096,4096,PROT_NONE);
	memset(m+4096,0xA5,len-8192);
	size_t room=len-4096-size; uint8_t* p=m+room; p=(uint8_t*)((uintptr_t)p/align*align)+off; while(p+size>m+len-4096) p-=align; if(low) p=m+4096+off; // as close to the guard page as the alignment allows
	bufs.push_back(Buf{m,len,p,size,name,false});
#ifdef YS_SAN
	ASAN_POISON_MEMORY_REGION(m+4096,len-8192); ASAN_UNPOISON_MEMORY_REGION(p,size);
#endif
	return p;
}
void ys_readonly(void* p) { for(auto& b: bufs) if(b.p==p) b.ro=true; }
void ys_pages(void*) {}
void ys_units(void*) {}
void ys_mux(void*) {}
#ifdef YS_SAN
uint64_t ys_heap_live(void) { return 0; }
#else
static long live=0; extern void* __libc_malloc(size_t); extern void __libc_free(void*); extern void* __libc_realloc(void*, size_t); extern void* __libc_calloc(size_t, size_t);
void* malloc(size_t n) { live++; return __libc_malloc(n); }
void free(void* p) { if(p) live--; __libc_free(p); }
void* calloc(size_t a, size_t b) { live++; return __libc_calloc(a,b); }
void* realloc(void* p, size_t n) { if(!p) live++; else if(!n) live--; return __libc_realloc(p,n); }
uint64_t ys_heap_live(void) { return (uint64_t)live; }
#endif
uint64_t ys_concretize(uint64_t x) { return x; }
uint64_t ys_select(int c, uint64_t a, uint64_t b) { return c?a:b; }
void ys_shared_ro(int) {}
void ys_shared_exempt(void*) {}
static uint32_t featSum=0;
uint32_t ys_features(int reset) { uint32_t r=featSum; if(reset) featSum=0; return r; }
uint32_t ys_fn_features(void* fn) { // which object file the function was linked from, by the linker's map
	std::string m=std::string(self)+".map"; FILE* f=fopen(m.c_str(),"r"); if(!f) return 0; char l[4096]; std::string pend; uint32_t r=0;
	while(fgets(l,sizeof l,f)) {
		unsigned long a,n; char o[3000]; const char* q=l; while(*q==' ') q++;
		if(strncmp(q,".text",5) && strncmp(q,"0x",2)) continue;
		const char* x=strstr(q,"0x"); if(!x || sscanf(x,"%lx %lx %2999s",&a,&n,o)!=3) continue;
		if((uintptr_t)fn>=a && (uintptr_t)fn<a+n) {
			std::string b=o; auto h=[&](const char* t) { return b.find(t)!=std::string::npos; };
			if(h("_ssse3.cc")) r=1; else if(h("_vbmi2.cc")) r=1|4|8|16|32|64|128|(15<<10)|(1<<14); else if(h("_avx2.cc")) r=1|2|4|8|16|32|64|128; else if(h("_avx.cc")) r=1|2|4|8; else if(h("crc_folding.cc")) r=1|2|256; else if(h("crc_folding_256.cc")) r=1|2|8|16|256|512; break;
		}
	}
	fclose(f); featSum|=r; return r;
}
void ys_reach(const char*) {}
void ys_observe(const char* n, const void* p, size_t k) { printf("OBS %s ",n); for(size_t i=0;i<k;i++) printf("%02x",((const uint8_t*)p)[i]); printf("\n"); fflush(stdout); }
void ys_set_cpuid(uint32_t leaf, uint32_t sub, int reg, uint32_t val) { Row* r=0; for(int i=0;i<nrows;i++) if(rows[i].leaf==leaf&&rows[i].sub==sub) r=&rows[i]; if(!r) { r=&rows[nrows++]; memset(r,0,sizeof *r); r->leaf=leaf; r->sub=sub; } r->r[reg]=val; }
void ys_set_xcr0(uint64_t v) { xcr0=v; }
int ys_in_engine(void) { return 0; }
void ys_fork_index(int) {}
__attribute__((target("general-regs-only"),no_sanitize("address"))) void ys_native_cpuid(uint32_t leaf, uint32_t sub, uint32_t* o) {
	o[0]=o[1]=o[2]=o[3]=0; for(int i=0;i<nrows;i++) if(rows[i].leaf==leaf&&(rows[i].sub==sub || (leaf!=7 && leaf!=0x24))) for(int k=0;k<4;k++) o[k]=rows[i].r[k];
}
__attribute__((target("general-regs-only"),no_sanitize("address"))) uint64_t ys_native_xgetbv(void) { featSum|=1u<<31; return xcr0; }
void harness_init(); void harness();
}
static bool host(const char* f) {
	__builtin_cpu_init(); std::string s=f;
	if(s=="sse2") return __builtin_cpu_supports("sse2"); if(s=="ssse3") return __builtin_cpu_supports("ssse3");
	if(s=="avx") return __builtin_cpu_supports("avx")&&__builtin_cpu_supports("popcnt");
	if(s=="avx2") return __builtin_cpu_supports("avx2")&&__builtin_cpu_supports("bmi")&&__builtin_cpu_supports("bmi2");
	if(s=="vbmi2") return host("avx2")&&__builtin_cpu_supports("avx512vbmi2")&&__builtin_cpu_supports("avx512vl")&&__builtin_cpu_supports("avx512bw");
	if(s=="clmul") return __builtin_cpu_supports("pclmul")&&__builtin_cpu_supports("sse4.1"); if(s=="vpclmul") return host("clmul")&&host("avx2")&&__builtin_cpu_supports("vpclmulqdq");
	return true;
}
int main(int argc, char** argv) {
	self=argv[0]; bufs.reserve(20000); static char obuf[1<<16]; setvbuf(stdout,obuf,_IOFBF,sizeof obuf);
	FILE* fp=fopen(argv[1],"r"); if(!fp) return 3; char t[16], k[256]; unsigned long long v; long lv;
	while(fscanf(fp,"%15s %255s",t,k)==2) { if(t[0]=='p') { if(fscanf(fp,"%ld",&lv)!=1) return 3; params[k]=lv; } else { if(fscanf(fp,"%llu",&v)!=1) return 3; inputs.push_back({k,v}); } }
	fclose(fp);
	static const char* need[]={"","sse2","ssse3","avx","avx2","vbmi2","vbmi2","clmul","vpclmul"};
	long isa=params.count("isa")?params["isa"]:0; if(isa>=0&&isa<9&&!host(need[isa])) { printf("UNSUPPORTED\n"); return 0; }
	harness_init(); harness();
	// canaries around every buffer
	for(auto& b: bufs) {
#ifdef YS_SAN
		ASAN_UNPOISON_MEMORY_REGION(b.map+4096,b.len-8192);
#endif
		for(uint8_t* q=b.map+4096;q<b.map+b.len-4096;q++) if((q<b.p||q>=b.p+b.n) && *q!=0xA5) { printf("MEMORY out-of-bounds write at offset %ld of '%s' (size %zu)\n",(long)(q-b.p),b.name.c_str(),b.n); failures++; break; }
	}
	printf("DONE %d\n",failures); return 0;
}
