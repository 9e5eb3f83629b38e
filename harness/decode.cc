// Decoder harness: C04 C05 C06 C07 C08 C10 (the driver selects tasks and which assertions count for which property).
#include "decspec.h"
#include "isa.h"
#include "decoder.h"
using namespace RapidYenc;
static uint8_t plainDom[256], nlDom[256], eqDom[256], spDom[256];
extern "C" void harness_init() {
	for(int i=0;i<256;i++) plainDom[i] = !(i=='\r'||i=='\n'||i=='='||i=='.');
	nlDom['\n']=1; nlDom['b']=1; eqDom['=']=1; eqDom['b']=1;
	for(const char* p="\r\n=.yb"; *p; p++) spDom[(int)*p]=1;
	int isa=(int)ys_param("isa");
	if(isa!=ISA_GEN) { isa_cpuid(isa); decoder_init(); }
}
static int fxN, fxV, bg;
static uint8_t inByte(int i, int w0, int w1, int dm) {
	if(i>=w1 && i<w1+fxN) return ((fxV>>(i-w1))&1) ? (dm==3?'=':'\n') : 'b'; // fixed lanes: the mask patterns are divided over several tasks
	if(i<w0||i>=w1) {
		if(bg) { // busy background: line breaks, escapes and dots at fixed places, other bytes arbitrary plain ones
			unsigned q=(unsigned)(i*bg+bg/3);
			if(q%17==2) return '='; if(q%17==4) return (q%34==4)?'\r':'\n'; if(q%17==9) return '\r'; if(q%17==10) return '\n'; if(q%17==11 && q%3) return '.';
		}
		return ys_byte_in("in", plainDom);
	}
	switch(dm) { case 1: return ys_byte_in("in", spDom); case 2: return ys_byte_in("in", nlDom); case 3: return ys_byte_in("in", eqDom); default: return ys_byte("in"); }
}
static DecSpec D, D2;
static void check_out(DecSpec& s, int from, int upto, const uint8_t* out, int len, const char* msg) {
	int o=0; int ok=1;
	for(int k=from;k<upto;k++) {
		int e=(int)ys_concretize(s.emit[k]);
		if(e) { if(o<len) ok &= (out[o]==s.val[k]); o++; }
	}
	ys_assert(o==len, msg);
	ys_assert(ok, msg);
}
extern "C" void harness() {
	int api=(int)ys_param("api"); // 0 plain decode, 1 dot-unstuffing decode, 2 incremental decode with end search
	int n=(int)ys_param("n"), al=(int)ys_param_or("al",0), w0=(int)ys_param_or("w0",0), w1=(int)ys_param_or("w1",n), dm=(int)ys_param_or("dm",0);
	int dal=(int)ys_param_or("dal",0), mode=(int)ys_param_or("mode",0), st=(int)ys_param_or("st",0);
	fxN=(int)ys_param_or("fxn",0); fxV=(int)ys_param_or("fxv",0); bg=(int)ys_param_or("bg",0);
	uint8_t* src=(uint8_t*)ys_alloc(n,64,al,"source"); isa_lookahead(src);
	uint8_t* copy=(uint8_t*)ys_alloc(n,64,0,"copy");
	for(int i=0;i<n;i++) { src[i]=inByte(i,w0,w1,dm); copy[i]=src[i]; }
	ys_fork_index((int)ys_param_or("fork",1));
	if(st<0) st=ys_choose("state",7);
	if(mode==1) { // in place against a separate buffer
		uint8_t* buf=(uint8_t*)ys_alloc(n,64,al,"buffer"); isa_lookahead(buf); for(int i=0;i<n;i++) buf[i]=src[i];
		uint8_t* out=(uint8_t*)ys_alloc(n,64,dal,"output"); ys_readonly(src);
		if(api<2) {
			size_t l1=decode(api,src,out,n,0), l2=decode(api,buf,buf,n,0);
			ys_assert(l1==l2,"C08: in-place decoding returns a different length");
			ys_assert_eq(out,buf,l1,"C08: in-place decoding gives different bytes");
			ys_observe("out",out,l1);
		} else {
			YencDecoderState s1=(YencDecoderState)st, s2=(YencDecoderState)st;
			const void *p1=src,*p2=buf; void *d1=out,*d2=buf;
			int e1=decode_end(&p1,&d1,n,&s1), e2=decode_end(&p2,&d2,n,&s2);
			size_t l1=(uint8_t*)d1-out, l2=(uint8_t*)d2-buf;
			ys_assert(l1==l2,"C08: in-place incremental decoding returns a different length");
			ys_assert(e1==e2 && s1==s2 && (const uint8_t*)p1-src==(const uint8_t*)p2-buf,"C08: in-place incremental decoding ends or stops differently");
			ys_assert_eq(out,buf,l1,"C08: in-place incremental decoding gives different bytes");
			ys_observe("out",out,l1);
		}
		ys_reach("inplace");
		return;
	}
	if(mode==2) { // split independence of the real code
		int cut=(int)ys_param("cut");
		uint8_t* o1=(uint8_t*)ys_alloc(n,64,0,"output"); uint8_t* o2=(uint8_t*)ys_alloc(n,64,0,"output of chunks");
		YencDecoderState s1=(YencDecoderState)st, s2=(YencDecoderState)st;
		uint8_t* c1=(uint8_t*)ys_alloc(cut,64,al,"chunk 1"); uint8_t* c2=(uint8_t*)ys_alloc(n-cut,64,(int)ys_param_or("al2",0),"chunk 2"); isa_lookahead(c1); isa_lookahead(c2);
		for(int i=0;i<cut;i++) c1[i]=src[i];
		for(int i=cut;i<n;i++) c2[i-cut]=src[i];
		ys_readonly(src); ys_readonly(c1); ys_readonly(c2);
		const void* p=src; void* d=o1; int e1=decode_end(&p,&d,n,&s1);
		const void* q=c1; void* d2=o2; int e2=decode_end(&q,&d2,cut,&s2); size_t rd=(const uint8_t*)q-c1;
		if(!e2) { ys_assert(rd==(size_t)cut,"C06: first chunk not consumed although not ended"); q=c2; e2=decode_end(&q,&d2,n-cut,&s2); rd=cut+((const uint8_t*)q-c2); ys_reach("second"); }
		size_t l1=(uint8_t*)d-o1, l2=(uint8_t*)d2-o2;
		ys_assert(e1==e2,"C06: end detection depends on the split");
		ys_assert(rd==(size_t)((const uint8_t*)p-src),"C06: read position depends on the split");
		ys_assert(s1==s2,"C06: final state depends on the split");
		ys_assert(l1==l2,"C06: output length depends on the split");
		ys_assert_eq(o1,o2,l1,"C06: output depends on the split");
		ys_observe("out",o1,l1);
		ys_reach("split");
		return;
	}
	ys_readonly(src);
	uint8_t* out=(uint8_t*)ys_alloc(n,64,dal,"output");
	if(api<2) {
		const char* msg = api? "C05: output differs from decoding with stuffed dots removed" : "C04: output differs from plain yEnc decoding";
		D.run(api,0,copy,n); // the reference first: it is then shared by all paths of the real code
		size_t len=decode(api,src,out,n,0);
		len=ys_concretize(len);
		ys_assert(len<=(size_t)n,"C10: more bytes written than read");
		check_out(D,D.P,D.N,out,(int)len,msg);
		ys_observe("out",out,len);
		ys_reach("decode");
	} else {
		YencDecoderState state=(YencDecoderState)st; const void* sp=src; void* dp=out;
		if(n) D.run(1,st,copy,n);
		int fst = n? D.final_state() : st;
		int ended=decode_end(&sp,&dp,n,&state);
		int rd=(int)ys_concretize((const uint8_t*)sp-src); int len=(int)ys_concretize((uint8_t*)dp-out); ended=(int)ys_concretize(ended);
		ys_assert(len<=rd && rd<=n,"C10: more bytes written than read");
		if(n==0) { ys_assert(!ended && (int)state==st,"C06: empty input changes the state"); return; }
		int stop=D.P+rd;
		int early=0; for(int k=D.P;k<stop-(ended?1:0);k++) early |= D.endf[k];
		ys_assert(!early,"C07: decoding went past the end of the yEnc data");
		if(ended) {
			ys_assert(rd>0 && D.endf[stop-1]==ended,"C07: end reported where the data does not end");
			ys_assert(state==(ended==1?YDEC_STATE_NONE:YDEC_STATE_CRLF),"C07: wrong state after the end");
			// the terminator itself produces no output
			D.emit[stop-1]=0;
			ys_reach("ended");
		} else {
			ys_assert(rd==n,"C07: input not consumed although the end was not reached");
			ys_assert((int)state==fst,"C06: returned state does not describe the stream position");
			ys_reach("open");
		}
		check_out(D,D.P,stop,out,len,"C07: output differs from the decoded data before the end");
		ys_observe("out",out,len); uint8_t t[3]={(uint8_t)ended,(uint8_t)state,(uint8_t)rd}; ys_observe("res",t,3);
	}
}
