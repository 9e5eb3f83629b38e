// Native binding, end to end with the real kernels: C16 (argument checks, pass-through), C09 (sizes the binding allocates), C19.
#include "bind.h"
#include "encspec.h"
#include "decspec.h"
extern "C" void harness_init() { bind_init((int)ys_param("isa")); }
enum { ENCODE, ENCODETO, ENCODEINCR, DECODE, DECODETO, DECODEINCR, CRC, COMBINE, ZEROES, MULTIPLY, SHIFT };
static const char* NAME[]={"encode","encodeTo","encodeIncr","decode","decodeTo","decodeIncr","crc32","crc32_combine","crc32_zeroes","crc32_multiply","crc32_shift"};
enum { K_UNDEF, K_NUM, K_NEG, K_STR, K_OBJ, K_B0, K_B3, K_B4, K_B5, K_BIG, K_BOOL, K_COUNT };
static v8::Value* mk(int k) {
	v8::Value* v;
	switch(k) {
		case K_UNDEF: return bUndef();
		case K_NUM: return bNum(2);
		case K_NEG: return bNum(-1);
		case K_STR: v=new v8::Value(); v->tag=v8::YV_STR; v->str="abcd"; return v;
		case K_OBJ: v=new v8::Value(); v->tag=v8::YV_OBJ; return v;
		case K_BOOL: return bBool(1);
		default: { int n=k==K_B0?0:k==K_B3?3:k==K_B4?4:k==K_B5?5:96; v=bAlloc(n,0,"argument"); for(int i=0;i<n;i++) v->data[i]=(uint8_t)(i*7+19); return v; }
	}
}
static bool isBuf(int k) { return k>=K_B0 && k<=K_BIG; }
static int blen(int k) { return k==K_B0?0:k==K_B3?3:k==K_B4?4:k==K_B5?5:k==K_BIG?96:0; }
static bool isNum(int k) { return k==K_NUM||k==K_NEG; }
static int numv(int k) { return k==K_NUM?2:-1; }
static int maxSz(int n, int line) { return 2*n+66+2*(2*n/line); }
// 1: must be rejected, 0: must be accepted, -1: not specified
static int verdictEnc(int outLen, int n, int argc, const int* k, int p) {
	int line=128, unk=0;
	if(argc>p) { if(!isNum(k[p])) unk=1; else { if(numv(k[p])<0) return n?1:-1; line=numv(k[p]); } }
	if(argc>p+1) { if(!isNum(k[p+1])) unk=1; else if(numv(k[p+1])<0) return n?1:-1; }
	if(n==0) return unk?-1:0;
	if(outLen>=0) { if(outLen<maxSz(n,2) && outLen<maxSz(n,128)) return 1; if(unk) return -1; return outLen<maxSz(n,line); }
	return unk?-1:0;
}
static int verdict(int api, int argc, const int* k) {
	switch(api) {
	case ENCODE: if(argc<1||!isBuf(k[0])) return 1; return verdictEnc(-1,blen(k[0]),argc,k,1);
	case ENCODETO: if(argc<2||!isBuf(k[0])||!isBuf(k[1])) return 1; return verdictEnc(blen(k[1]),blen(k[0]),argc,k,2);
	case ENCODEINCR: if(argc<1||!isBuf(k[0])) return 1; if(argc>1 && isBuf(k[1])) { int v=verdictEnc(blen(k[1]),blen(k[0]),argc,k,2); return blen(k[0])?v:-1; } return verdictEnc(-1,blen(k[0]),argc,k,1);
	case DECODE: if(argc<1||!isBuf(k[0])) return 1; return 0;
	case DECODETO: if(argc<2||!isBuf(k[0])||!isBuf(k[1])) return 1; return blen(k[1])<blen(k[0]);
	case DECODEINCR: if(argc<1||!isBuf(k[0])) return 1; if(argc>2 && isBuf(k[2]) && blen(k[2])<blen(k[0])) return 1; if(argc>1 && k[1]!=K_NUM) return -1; return 0;
	case CRC: if(argc<1||!isBuf(k[0])) return 1; if(argc>1) { if(isBuf(k[1])) return k[1]!=K_B4; return isNum(k[1])||k[1]==K_STR||k[1]==K_OBJ ? 1 : -1; } return 0;
	case COMBINE: if(argc<3||k[0]!=K_B4||k[1]!=K_B4) return 1; return k[2]==K_NUM?0:-1;
	case MULTIPLY: if(argc<2||k[0]!=K_B4||k[1]!=K_B4) return 1; return 0;
	default: if(argc<1) return 1; if(argc>1) { if(isBuf(k[1])) { if(k[1]!=K_B4) return 1; } else return isNum(k[1])||k[1]==K_STR||k[1]==K_OBJ ? 1 : -1; } return isNum(k[0])?0:-1;
	}
}
static EncRef R; static uint8_t ref[3000];
static DecSpec D;
static int refDecode(int raw, const uint8_t* in, int n, uint8_t* o) { // non-incremental decoding
	D.run(raw,raw?0:3,in,n); int l=0;
	for(int i=D.P;i<D.N;i++) if(ys_concretize(D.emit[i])) o[l++]=D.val[i];
	return l;
}
extern "C" void harness() {
	int mode=(int)ys_param("mode"), api=(int)ys_param_or("api",0);
	if(mode==0) { // argument kinds and counts
		int argc=(int)ys_param("argc"), k[4]={0,0,0,0}; v8::Value* a[4]={0,0,0,0}; uint8_t snap[4][96];
		for(int i=0;i<argc;i++) { k[i]=ys_choose("kind",K_COUNT); a[i]=mk(k[i]); for(int j=0;j<blen(k[i]);j++) snap[i][j]=a[i]->data[j]; }
		int want=verdict(api,argc,k);
		if(want<0) { ys_reach("unspecified"); return; }
		v8::Value* r=bCall(NAME[api],argc,a[0],a[1],a[2],a[3]);
		if(want==1) {
			ys_assert(B_threw,"C16: a call with missing, wrongly typed or too small arguments is not rejected");
			if(B_threw) for(int i=0;i<argc;i++) for(int j=0;j<blen(k[i]);j++) ys_assert(a[i]->data[j]==snap[i][j],"C16: a rejected call wrote to a buffer");
			ys_reach("rejected");
		} else { ys_assert(!B_threw,"C16: a valid call is rejected"); ys_reach("accepted"); }
		uint8_t o[2]={(uint8_t)B_threw,(uint8_t)(r?r->tag:99)}; ys_observe("result",o,2);
		return;
	}
	if(mode==1) { // encoding: every 32-bit line size and column
		int n=(int)ys_param("n"), argc=(int)ys_param("argc"), outLen=(int)ys_param_or("out",-1), window=(int)ys_param_or("win",0), lz=(int)ys_param_or("line",-1), buf0=api!=ENCODE && outLen>=0;
		uint8_t in[512]; v8::Value* b=bAlloc(n,0,"data"); static const uint8_t pat[]={'b',19,'b','c',(uint8_t)('\t'-42),4,'e','f'};
		for(int i=0;i<n;i++) in[i]=b->data[i]= (i<window) ? ys_byte("in") : pat[i%8]; // pat: plain, '=' (escaped), plain, plain, TAB, '.', plain, plain
		ys_readonly(b->data); ys_fork_index(1);
		int extra=buf0?2:1; // index of the line size argument
		int32_t line=128, col=0; v8::Value* a[4]={b,0,0,0}; int ac=argc;
		v8::Value* out=0; if(buf0) { out=bAlloc(outLen,0,"output"); for(int i=0;i<outLen;i++) out->data[i]=0xEE; a[1]=out; }
		if(argc>extra) { line = lz>=0 ? lz : (int32_t)ys_u32("line"); a[extra]=bNum(line); }
		if(argc>extra+1) { col=(int32_t)ys_u32("col"); a[extra+1]=bNum(col); }
		int want=0, eline=line==0?128:line, ecol=col; // decided by case split
		if(line<0) want=1; else if(col<0 || col>eline) want=1;
		if(!want) { if(ecol==eline) ecol=0; if(buf0 && n>0) { uint64_t need=2*(uint64_t)n+66+2*((2*(uint64_t)n)/(uint32_t)eline); if((uint64_t)outLen<need) want=1; } }
		if(n==0 && (want || (api==ENCODEINCR && buf0))) return; // not specified
		v8::Value* r=bCall(NAME[api],ac,a[0],a[1],a[2],a[3]);
		if(want) {
			ys_assert(B_threw,"C16: an invalid line size, column or output size is not rejected");
			if(B_threw&&out) for(int i=0;i<outLen;i++) ys_assert(out->data[i]==0xEE,"C16: a rejected call wrote to the output");
			ys_reach("rejected"); return;
		}
		ys_assert(!B_threw,"C16: a valid line size, column and output size are rejected"); if(B_threw) return;
		int end=api!=ENCODEINCR; R.prepare(in,n); int rl=R.text(eline,ecol,end,ref);
		uint8_t* got=0; size_t gl=0;
		if(api==ENCODE) { ys_assert(r->tag==v8::YV_BUF,"C16: encode does not return a Buffer"); if(r->tag!=v8::YV_BUF) return; got=r->data; gl=r->len; }
		else if(api==ENCODETO) { ys_assert(r->tag==v8::YV_NUM,"C16: encodeTo does not return a number"); got=out->data; gl=(size_t)r->num; }
		else {
			v8::Object* o=static_cast<v8::Object*>(r); v8::Value* w=r->tag==v8::YV_OBJ?o->get("written"):0; ys_assert(w!=0,"C16: encodeIncr result has no written"); if(!w) return; gl=(size_t)w->num;
			v8::Value* q=o->get("output"); if(!out && n) { ys_assert(q&&q->tag==v8::YV_BUF,"C16: encodeIncr result has no output"); if(!q||q->tag!=v8::YV_BUF) return; ys_assert(q->len==gl,"C16: encodeIncr output length"); got=q->data; } else if(out) got=out->data;
		}
		gl=ys_concretize(gl);
		ys_assert(gl==(size_t)rl,"C16: encoding does not use the given line size and column"); if(gl!=(size_t)rl) return;
		if(rl) ys_assert_eq(got,ref,rl,"C16: encoding does not use the given line size and column");
		if(out) for(int i=rl+64;i<outLen;i++) ys_assert(out->data[i]==0xEE,"C09: bytes beyond the encoding and its slack were overwritten");
		if(rl) ys_observe("out",got,rl); ys_reach("encoded");
		return;
	}
	if(mode==2) { // decoding through the API: defaults, flags, in place
		int n=(int)ys_param("n"), argc=(int)ys_param("argc"), raw=(int)ys_param_or("raw",0), place=(int)ys_param_or("place",0), st=(int)ys_param_or("st",0), w0=(int)ys_param_or("w0",0);
		uint8_t in[64], exp[64]; v8::Value* b=bAlloc(n,(size_t)ys_param_or("al",0),"data");
		for(int i=0;i<n;i++) in[i]=b->data[i]=i>=w0?ys_byte("in"):(uint8_t)('b'+i%8);
		v8::Value* out= place==1 ? b : bAlloc(n+(int)ys_param_or("spare",0),0,"output"); if(place!=1) ys_readonly(b->data);
		ys_fork_index(1);
		if(api==DECODE||api==DECODETO) {
			int rl=refDecode(raw,in,n,exp); v8::Value* r;
			if(api==DECODE) r=bCall("decode",argc,b,bBool(raw)); else r=bCall("decodeTo",argc,b,out,bBool(raw));
			ys_assert(!B_threw,"C16: a valid call is rejected"); if(B_threw) return;
			ys_assert(r->tag==(api==DECODE?v8::YV_BUF:v8::YV_NUM),"C16: decode returns the wrong kind of value"); if(r->tag!=(api==DECODE?v8::YV_BUF:v8::YV_NUM)) return;
			size_t gl=ys_concretize(api==DECODE?r->len:(size_t)r->num); uint8_t* got=api==DECODE?r->data:out->data;
			ys_assert(gl==(size_t)rl,"C16: decoding does not follow the stripDots flag or returns the wrong length"); if(gl!=(size_t)rl) return;
			if(rl) { ys_assert_eq(got,exp,rl,"C16: decoding does not follow the stripDots flag or returns the wrong data"); ys_observe("out",got,rl); } ys_reach("decoded");
		} else {
			v8::Value* r= bCall("decodeIncr",argc,b,bNum(st),out); int s= argc>1 ? st : 0;
			ys_assert(!B_threw,"C16: a valid call is rejected"); if(B_threw) return;
			if(n==0) { ys_reach("decoded"); return; }
			ys_assert(r->tag==v8::YV_OBJ,"C16: decodeIncr does not return an object"); if(r->tag!=v8::YV_OBJ) return;
			v8::Object* o=static_cast<v8::Object*>(r); v8::Value *rd=o->get("read"),*wr=o->get("written"),*ou=o->get("output"),*en=o->get("ended"),*ns=o->get("state");
			ys_assert(rd&&wr&&en&&ns,"C16: decodeIncr result lacks a key"); if(!(rd&&wr&&en&&ns)) return;
			D.run(1,s,in,n); int stop=D.N, ended=0; for(int i=D.P;i<D.N;i++) if(ys_concretize(D.endf[i])) { ended=(int)ys_concretize(D.endf[i]); stop=i+1; D.emit[i]=0; break; }
			int rl=0; for(int i=D.P;i<stop;i++) if(ys_concretize(D.emit[i])) exp[rl++]=D.val[i];
			int fs = ended==1 ? 3 : ended==2 ? 0 : (int)ys_concretize(D.final_state());
			ys_assert((int64_t)ys_concretize(rd->num)==stop-D.P,"C16: decodeIncr reports the wrong number of bytes read");
			ys_assert((int64_t)ys_concretize(en->num)==ended,"C16: decodeIncr reports the wrong end"); ys_assert((int64_t)ys_concretize(ns->num)==fs,"C16: decodeIncr reports the wrong state");
			size_t gl=ys_concretize((size_t)wr->num); ys_assert(gl==(size_t)rl,"C16: decodeIncr reports the wrong number of bytes written"); if(gl!=(size_t)rl) return;
			uint8_t* got=out->data; if(argc<3) { ys_assert(ou&&ou->tag==v8::YV_BUF&&ou->len==gl,"C16: decodeIncr does not allocate the output"); if(!(ou&&ou->tag==v8::YV_BUF&&ou->len==gl)) return; got=ou->data; }
			if(rl) { ys_assert_eq(got,exp,rl,"C16: decodeIncr writes the wrong data"); ys_observe("out",got,rl); } ys_reach("decoded");
		}
		return;
	}
	if(mode==3) { // C19: nothing but the call's own buffers is written
		int n=(int)ys_param("n"), w0=(int)ys_param_or("w0",0), w1=(int)ys_param_or("w1",n), line=(int)ys_param_or("line",128); bind_share();
		if(ys_param_or("again",0)) { bind_again(); ys_reach("loaded again"); }
		v8::Value* b=bAlloc(n,(size_t)ys_param_or("al",0),"data"); static const uint8_t txt[]={'a','b','=','c','\r','\n','.','d'};
		for(int i=0;i<n;i++) b->data[i]=(i>=w0&&i<w1)?ys_byte("in"):ys_param_or("esc",0)?19:txt[(i*5+i/8)%8];
		ys_fork_index(1); int col=(int)ys_param_or("col",line/2);
		v8::Value* r=0;
		switch(api) {
			case ENCODE: r=bCall("encode",3,b,bNum(line),bNum(col)); break;
			case ENCODETO: r=bCall("encodeTo",4,b,bAlloc(maxSz(n,line),0,"output"),bNum(line),bNum(col)); break;
			case ENCODEINCR: r=bCall("encodeIncr",3,b,bNum(line),bNum(col)); break;
			case DECODE: r=bCall("decode",2,b,bBool(n&1)); break;
			case DECODETO: r=bCall("decodeTo",3,b,bAlloc(n,0,"output"),bBool(ys_param_or("raw",1))); break;
			case DECODEINCR: r=bCall("decodeIncr",2,b,bNum(ys_param_or("st",0))); break;
			case CRC: r=bCall("crc32",2,b,bCrc(0x12345678)); break;
			case COMBINE: r=bCall("crc32_combine",3,bCrc(0x12345678),bCrc(0x9abcdef1),bNum(n)); break;
			case ZEROES: r=bCall("crc32_zeroes",2,bNum(line),bCrc(0x12345678)); break;
			case MULTIPLY: r=bCall("crc32_multiply",2,bCrc(0x12345678),bCrc(0x9abcdef1)); break;
			default: r=bCall("crc32_shift",2,bNum(-line),bCrc(0x12345678)); break;
		}
		ys_shared_ro(0);
		ys_reach(r?"returned":"threw");
	}
}
