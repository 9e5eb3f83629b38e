// C25: every native call frees, or hands to exactly one returned Buffer, each block it allocates; memory of the caller's Buffers stays the caller's.
#include "bind.h"
extern "C" void harness_init() { bind_init((int)ys_param("isa")); }
enum { ENCODE, ENCODETO, ENCODEINCR, DECODE, DECODETO, DECODEINCR, CRC, COMBINE, ZEROES, MULTIPLY, SHIFT };
static const char* NAME[]={"encode","encodeTo","encodeIncr","decode","decodeTo","decodeIncr","crc32","crc32_combine","crc32_zeroes","crc32_multiply","crc32_shift"};
enum { K_UNDEF, K_NUM, K_NEG, K_B0, K_B4, K_B5, K_BIG, K_BOOL, K_COUNT };
static v8::Value* mk(int k) {
	switch(k) {
		case K_UNDEF: return bUndef(); case K_NUM: return bNum(2); case K_NEG: return bNum(-1); case K_BOOL: return bBool(1);
		default: { int n=k==K_B0?0:k==K_B4?4:k==K_B5?5:96; v8::Value* v=bAlloc(n,0,"argument"); for(int i=0;i<n;i++) v->data[i]=(uint8_t)(i*7+19); return v; }
	}
}
static v8::Value* A[4]; static int AC;
static void release1(v8::Value* v) { // what the garbage collector does with a Buffer nobody refers to any more
	if(!v || v->tag!=v8::YV_BUF) return;
	for(int i=0;i<AC;i++) if(v==A[i]) return; // the caller's own
	for(int i=0;i<AC;i++) if(A[i]&&A[i]->tag==v8::YV_BUF&&v->data&&v->len) ys_assert(v->data!=A[i]->data,"C25: a returned Buffer uses the memory of one passed in");
	if(v->freecb) v->freecb((char*)v->data,v->hint); else free(v->data);
}
static void release(v8::Value* v) {
	if(!v) return; release1(v);
	if(v->tag==v8::YV_OBJ) { v8::Object* o=static_cast<v8::Object*>(v); for(int i=0;i<o->nprops;i++) { bool dup=false; for(int j=0;j<i;j++) dup|=o->vals[j]==o->vals[i]; if(!dup) release1(o->vals[i]); } }
}
static void bothCalls(int api, int order) {
	uint64_t before=ys_heap_live();
	v8::Value* r1=bCall(NAME[api],AC,A[0],A[1],A[2],A[3]); uint64_t mid=ys_heap_live(); if(B_threw) { ys_assert(mid==before,"C25: a call that throws leaves memory allocated"); ys_reach("threw"); }
	v8::Value* r2=bCall(NAME[api],AC,A[0],A[1],A[2],A[3]);
	if(order) { release(r2); release(r1); } else { release(r1); release(r2); }
	ys_assert(ys_heap_live()==before,"C25: memory allocated by a call is neither freed nor owned by a returned Buffer");
	for(int i=0;i<AC;i++) if(A[i]->tag==v8::YV_BUF&&A[i]->len) { volatile uint8_t x=A[i]->data[A[i]->len-1]; (void)x; } // still there
	ys_reach("released");
}
extern "C" void harness() {
	int mode=(int)ys_param("mode"), api=(int)ys_param("api");
	AC=(int)ys_param("argc"); for(int i=0;i<4;i++) A[i]=0;
	if(mode==0) { for(int i=0;i<AC;i++) A[i]=mk(ys_choose("kind",K_COUNT)); ys_fork_index(1); bothCalls(api,0); return; }
	int n=(int)ys_param("n"), out=(int)ys_param_or("out",-1), w0=(int)ys_param_or("w0",0);
	A[0]=bAlloc(n,(size_t)ys_param_or("al",0),"data"); for(int i=0;i<n;i++) A[0]->data[i]= i>=w0 ? ys_byte("in") : (uint8_t)('b'+i%8);
	ys_fork_index(1); int p=1; if(out>=0 && p<4) A[p++]=bAlloc(out,0,"output");
	if(api<=ENCODEINCR) { if(p<4) A[p++]=bNum((int32_t)ys_param_or("line",128)); if(p<4) A[p++]=bNum((int32_t)ys_param_or("col",0)); }
	else if(api<=DECODETO) { if(p<4) A[p++]=bBool(ys_param_or("raw",0)); }
	else if(api==DECODEINCR) { if(out>=0) A[2]=A[1]; A[1]=bNum(ys_param_or("st",0)); p=3; }
	else if(api==CRC) A[1]=bCrc(ys_u32("crc"));
	else if(api==COMBINE||api==MULTIPLY) { A[0]=bCrc(0x12345678); A[1]=bCrc(0x9abcdef1); A[2]=bNum(n); }
	else { A[0]=bNum(ys_param_or("line",5)); A[1]=bCrc(0x12345678); }
	for(int i=0;i<AC;i++) if(!A[i]) A[i]=bUndef();
	bothCalls(api,1);
}
