// Native binding with the kernels replaced by recorders: sizes and integers as large as the argument types allow (C16, C09, C17).
#include "bind.h"
using namespace RapidYenc;
extern "C" void harness_init() { bind_init((int)ys_param("isa")); }
static int calls, rLine, rCol, rEnd, rWhich, rState; static const unsigned char* rSrc; static unsigned char* rDst; static size_t rLen, rRet; static size_t rTouch; static uint32_t rInit;
static size_t recEnc(int line, int* col, const unsigned char* HEDLEY_RESTRICT s, unsigned char* HEDLEY_RESTRICT d, size_t n, int end) {
	calls++; rLine=line; rCol=*col; rSrc=s; rDst=d; rLen=n; rEnd=end; if(rTouch) d[rTouch-1]=1; return rRet; }
static YencDecoderEnd recDec(int w, const unsigned char** s, unsigned char** d, size_t n, YencDecoderState* st) { calls++; rWhich=w; rSrc=*s; rDst=*d; rLen=n; rState=st?(int)*st:-1; *s+=n; *d+=rRet; if(st) *st=YDEC_STATE_EQ; return YDEC_END_NONE; }
static YencDecoderEnd recD0(const unsigned char** s, unsigned char** d, size_t n, YencDecoderState* st) { return recDec(0,s,d,n,st); }
static YencDecoderEnd recD1(const unsigned char** s, unsigned char** d, size_t n, YencDecoderState* st) { return recDec(1,s,d,n,st); }
static YencDecoderEnd recD2(const unsigned char** s, unsigned char** d, size_t n, YencDecoderState* st) { return recDec(2,s,d,n,st); }
static uint32_t recCrc(const void* p, size_t n, uint32_t init) { calls++; rSrc=(const unsigned char*)p; rLen=n; rInit=init; return (uint32_t)rRet; }
static v8::Value* vbuf(uint64_t n, const char* name) { return bBuf((uint8_t*)ys_alloc(1,64,0,name),(size_t)n); } // a length no test could allocate
extern "C" void harness() {
	int mode=(int)ys_param("mode"); calls=0; rTouch=0; rRet=0;
	_do_encode=recEnc; _do_decode=recD0; _do_decode_raw=recD1; _do_decode_end_raw=recD2; _do_crc32_incremental=recCrc;
	{ // is the recorder actually in the way of this entry point?
		v8::Value* b=bAlloc(200,0,"probe"); for(int i=0;i<200;i++) b->data[i]='b'; v8::Value* o=bAlloc(1200,0,"probe output");
		if(mode<2) bCall("encodeTo",2,b,o); else if(mode==2) bCall("decodeTo",2,b,o); else if(mode==3) bCall("decodeIncr",3,b,bNum(0),o); else bCall("crc32",1,b);
		if(calls!=1 || rSrc!=b->data || rLen!=200) { ys_reach("not observable"); return; }
		calls=0;
	}
	if(mode==0) { // encodeTo: any lengths; line size and column any 32-bit ints
		int argc=(int)ys_param("argc"), fixed=(int)ys_param_or("line",-1), bits=(int)ys_param_or("lbits",46);
		uint64_t n=ys_u64("len"), m=ys_u64("output length"); ys_assume(n<=((uint64_t)1<<bits)); ys_assume(m<=((uint64_t)1<<(bits+3)));
		int32_t line= argc<3 ? 128 : fixed>=0 ? fixed : (int32_t)ys_u32("line"), col= argc<4 ? 0 : (int32_t)ys_u32("col");
		if(argc>=3 && fixed<0) ys_assume(line<(int)ys_param_or("lmax",256));
		v8::Value *b=vbuf(n,"data"), *o=vbuf(m,"output"); rRet=7;
		v8::Value* r=bCall("encodeTo",argc,b,o,bNum(line),bNum(col));
		bool threw=B_threw, called=calls!=0;
		int eline= line==0?128:line, bad= line<0 || col<0 || col>eline;
		if(n==0) { if(!bad) ys_assert(!threw && !called && r->num==0,"C16: empty input does not give an empty result"); return; }
		if(!bad) {
			uint64_t need=2*n+66+2*((2*n)/(uint64_t)(uint32_t)eline);
			if(m>=need) ys_assert(!threw,"C17: encodeTo demands more space than maxSize"); // maxSize >= need is shown for index.js
			ys_assert(threw==(m<need),"C16: encodeTo accepts a too small output or rejects one of maxSize bytes");
		} else ys_assert(threw,"C16: an invalid line size or column is not rejected");
		ys_assert(called!=threw,"C16: encoding starts although the call is rejected (or not at all)");
		if(called) {
			ys_assert(calls==1 && rSrc==b->data && rDst==o->data && rLen==n && rLine==eline && rCol==(col==eline?0:col) && rEnd,"C16: encodeTo does not pass the given values through");
			ys_assert(r->num==7,"C16: encodeTo does not return the length"); ys_reach("accepted");
		} else ys_reach("rejected");
	} else if(mode==1) { // encode: the memory it allocates holds the longest possible encoding
		uint64_t n=(uint64_t)ys_param("n"); int line=(int)ys_param("line"), col=(int)ys_param_or("col",0);
		uint64_t first=(uint64_t)(line-col), worst=2*n; // all characters escaped: a break before every character that starts at or after the line size
		{ uint64_t c=(uint64_t)col; if(line<=2) { uint64_t per=1; (void)per; worst=2*n+2*(n-((uint64_t)col<(uint64_t)line?1:0)); } else { uint64_t k0=(first+1)/2; if(n>k0) { uint64_t per=((uint64_t)line+1)/2; worst+=2*((n-k0-1)/per+1); } } (void)c; }
		v8::Value* b=vbuf(n,"data"); rTouch=(size_t)worst; rRet=(size_t)1;
		v8::Value* r=bCall("encode",3,b,bNum(line),bNum(col));
		ys_assert(calls==1 && rLen==n && rLine==line && rCol==col && rEnd,"C16: encode does not pass the given values through"); (void)r;
		ys_reach("allocated");
	} else if(mode==2) { // decodeTo
		int argc=(int)ys_param("argc"), flag=(int)ys_param_or("flag",0); uint64_t n=ys_u64("len"), m=ys_u64("output length"); ys_assume(n<=((uint64_t)1<<48)); ys_assume(m<=((uint64_t)1<<48));
		v8::Value *b=vbuf(n,"data"), *o=vbuf(m,"output"); rRet=5;
		v8::Value* r=bCall("decodeTo",argc,b,o,bBool(flag)); bool threw=B_threw, called=calls!=0;
		if(n==0) { ys_assert(!threw && !called && r->num==0,"C16: empty input does not give an empty result"); return; }
		ys_assert(threw==(m<n),"C16: decodeTo does not reject exactly the outputs smaller than the input");
		ys_assert(called!=threw,"C16: decoding starts although the call is rejected (or not at all)");
		if(called) { ys_assert(calls==1 && rSrc==b->data && rDst==o->data && rLen==n && rWhich==(argc>2&&flag?1:0),"C16: decodeTo does not pass the given values through"); ys_assert(r->num==5,"C16: decodeTo does not return the length"); ys_reach("accepted"); } else ys_reach("rejected");
	} else if(mode==3) { // decodeIncr with an output buffer
		uint64_t n=ys_u64("len"), m=ys_u64("output length"); ys_assume(n<=((uint64_t)1<<30)); ys_assume(m<=((uint64_t)1<<48)); int st=ys_choose("state",7);
		v8::Value *b=vbuf(n,"data"), *o=vbuf(m,"output"); rRet=5;
		v8::Value* r=bCall("decodeIncr",3,b,bNum(st),o); bool threw=B_threw, called=calls!=0;
		if(n==0) { ys_assert(!called,"C16: decoding starts for an empty input"); return; }
		ys_assert(threw==(m<n),"C16: decodeIncr does not reject exactly the outputs smaller than the input");
		ys_assert(called!=threw,"C16: decoding starts although the call is rejected (or not at all)");
		if(called) {
			ys_assert(calls==1 && rSrc==b->data && rDst==o->data && rLen==n && rWhich==2 && rState==st,"C16: decodeIncr does not pass the given values through");
			v8::Object* q=static_cast<v8::Object*>(r); bool obj=r->tag==v8::YV_OBJ; v8::Value *rd=obj?q->get("read"):0,*wr=obj?q->get("written"):0,*s2=obj?q->get("state"):0,*e2=obj?q->get("ended"):0;
			ys_assert(rd&&wr&&s2&&e2,"C16: decodeIncr result lacks a key"); if(rd&&wr&&s2&&e2) ys_assert(rd->num==(int64_t)n && wr->num==5 && s2->num==YDEC_STATE_EQ && e2->num==0,"C16: decodeIncr does not return what the decoder reported");
			ys_reach("accepted");
		} else ys_reach("rejected");
	} else if(mode==4) { // crc32: any length, any initial value
		int argc=(int)ys_param("argc"); uint64_t n=ys_u64("len"); ys_assume(n<=((uint64_t)1<<48)); uint32_t c=ys_u32("initial"), ret=ys_u32("result"); rRet=ret;
		v8::Value* b=vbuf(n,"data"); v8::Value* r=bCall("crc32",argc,b,bCrc(c));
		ys_assert(!B_threw && isCrc(r),"C16: crc32 rejects a valid call"); if(B_threw||!isCrc(r)) return;
		if(n>0) ys_assert(calls==1 && rSrc==b->data && rLen==n && rInit==(argc>1?c:0),"C16: crc32 does not pass the given values through");
		if(calls==1) ys_assert(rdCrc(r)==ret,"C16: crc32 does not return what the kernel computed"); ys_reach("accepted");
	}
}
