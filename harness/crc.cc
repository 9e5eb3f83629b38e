// CRC harness: C11 C12 C13 C14 C15 through the native binding's exported functions.
#include "bind.h"
static uint32_t P(uint32_t a) { return (a>>1) ^ (0xEDB88320u & (0u-(a&1))); } // times x
static uint32_t mulC(uint32_t a, uint32_t b) { // a*b, b concrete
	uint32_t r=0; for(int i=31;i>=0;i--) { if((b>>i)&1) r^=a; a=P(a); } return r;
}
static uint32_t mulS(uint32_t a, uint32_t b) { uint32_t r=0; for(int i=31;i>=0;i--) { r ^= (0u-((b>>i)&1)) & a; a=P(a); } return r; }
static uint32_t pw[32];
static uint32_t xpow(uint32_t e) { uint32_t r=0x80000000u; for(int i=0;i<32;i++) if((e>>i)&1) r=mulC(r,pw[i]); return r; }
static uint32_t refCrc(const uint8_t* p, size_t n, uint32_t c) { c=~c; for(size_t i=0;i<n;i++) { c^=p[i]; for(int k=0;k<8;k++) c=P(c); } return ~c; }
static v8::Value* bCrcEdge(uint32_t c) { // a CRC argument that ends where its page does, not to be written
	v8::Value* v=bBuf((uint8_t*)ys_alloc(4,4096,ys_param_or("low",0)?0:4092,"crc argument"),4); v->data[0]=c>>24; v->data[1]=c>>16; v->data[2]=c>>8; v->data[3]=c;
	ys_pages(v->data); ys_readonly(v->data); return v;
}
extern "C" void harness_init() {
	pw[0]=0x40000000u; for(int i=1;i<32;i++) pw[i]=mulC(pw[i-1],pw[i-1]);
	bind_init((int)ys_param("isa"));
}
// recorder for the exponent checks
static uint32_t recCrc, recN, recRet; static int recCount;
static uint32_t recorder(uint32_t c, uint32_t n) { recCount++; recCrc=c; recN=n; return recRet; }
static const uint64_t M=0xFFFFFFFFull;
static uint32_t fold(uint64_t x) { uint64_t s=(x>>32)+(x&M); return (uint32_t)s+(uint32_t)(s>>32); } // ~ x mod 2^32-1
static bool congruent(uint32_t a, uint32_t b) { return (a==b) | ((a==0)&(b==0xFFFFFFFFu)) | ((b==0)&(a==0xFFFFFFFFu)); }
static int64_t windowN() { // base plus a window of arbitrary bits
	long pos=ys_param_or("pos",0), bits=ys_param_or("bits",8), base=ys_param_or("base",0), neg=ys_param_or("neg",0);
	if(bits<0) return base;
	int64_t v = base + ((int64_t)ys_concretize((uint64_t)ys_range("n",0,(1l<<bits)-1))<<pos); // one path per value
	return neg ? -v : v;
}
extern "C" void harness() {
	int mode=(int)ys_param("mode");
	if(mode==0) {
		int n=(int)ys_param("n"), al=(int)ys_param_or("al",0), init=(int)ys_param_or("init",1);
		v8::Value* b=bAlloc(n,al,"data");
		int ends=(int)ys_param_or("ends",n); // arbitrary bytes at either end, fixed ones between
		for(int i=0;i<n;i++) b->data[i]= i<ends||i>=n-ends ? ys_byte("in") : (uint8_t)(i*37+i/256*11);
		ys_readonly(b->data);
		uint32_t c = init ? ys_bits32("initial") : 0;
		v8::Value* r = init ? bCall("crc32",2,b,bCrc(c)) : bCall("crc32",1,b);
		ys_assert(isCrc(r),"C11: crc32 does not return a 4 byte Buffer"); if(!isCrc(r)) return;
		uint32_t got=rdCrc(r), want=refCrc(b->data,n,c);
		ys_assert_eq(&got,&want,4,"C11: crc32 differs from CRC-32/IEEE");
		ys_observe("crc",r->data,4); ys_reach("crc");
	} else if(mode==1) {
		uint32_t x=ys_bits32("x"), y=ys_bits32("y");
		v8::Value* r=bCall("crc32_multiply",2,bCrc(x),bCrc(y));
		ys_assert(isCrc(r),"C14: crc32_multiply does not return a 4 byte Buffer"); if(!isCrc(r)) return;
		uint32_t got=rdCrc(r), want=mulS(x,y);
		ys_assert_eq(&got,&want,4,"C14: crc32_multiply is not the field product");
		ys_observe("product",r->data,4); ys_reach("product");
	} else if(mode==2) { // shift
		int64_t n=windowN(); int dflt=(int)ys_param_or("dflt",0);
		uint32_t c = dflt ? 0x80000000u : ys_bits32("crc");
		v8::Value* r= dflt ? bCall("crc32_shift",1,bNum(n)) : bCall("crc32_shift",2,bNum(n),bCrc(c));
		ys_assert(isCrc(r),"C15: crc32_shift does not return a 4 byte Buffer"); if(!isCrc(r)) return;
		uint32_t e = n<0 ? (uint32_t)(M-(uint64_t)(-n)%M) : (uint32_t)((uint64_t)n%M);
		uint32_t got=rdCrc(r), want=mulC(c,xpow(e));
		ys_assert_eq(&got,&want,4,"C15: crc32_shift is not multiplication by x^n");
		ys_observe("shifted",r->data,4); ys_reach("shifted");
	} else if(mode==3) { // zeroes
		int64_t n=windowN(); int dflt=(int)ys_param_or("dflt",0);
		uint32_t c = dflt ? 0 : ys_bits32("crc");
		v8::Value* r= dflt ? bCall("crc32_zeroes",1,bNum(n)) : bCall("crc32_zeroes",2,bNum(n),bCrc(c));
		ys_assert(isCrc(r),"C13: crc32_zeroes does not return a 4 byte Buffer"); if(!isCrc(r)) return;
		uint64_t k=(uint64_t)(n<0?-n:n)%M*8%M; uint32_t e = n<0 ? (uint32_t)(M-k) : (uint32_t)k;
		uint32_t got=rdCrc(r), want=~mulC(~c,xpow(e));
		ys_assert_eq(&got,&want,4, n<0 ? "C13: crc32_zeroes with negative n does not remove null bytes" : "C13: crc32_zeroes does not append null bytes");
		if(n>0 && n<=64) { uint8_t z[64]; for(int i=0;i<n;i++) z[i]=0; uint32_t w2=refCrc(z,(size_t)n,c); ys_assert_eq(&got,&w2,4,"C13: crc32_zeroes differs from the CRC of that many appended null bytes"); }
		if(ys_param_or("undo",0)) {
			v8::Value* q=bCall("crc32_zeroes",2,bNum(-n),r); ys_assert(isCrc(q),"C13: crc32_zeroes does not return a 4 byte Buffer"); if(!isCrc(q)) return;
			uint32_t back=rdCrc(q); ys_assert_eq(&back,&c,4,"C13: removing the appended null bytes does not give the CRC back");
		}
		ys_observe("zeroes",r->data,4); ys_reach("zeroes");
	} else if(mode==4) { // combine
		int64_t n=windowN();
		uint32_t c1=ys_bits32("crc1"), c2=ys_bits32("crc2");
		v8::Value* r=bCall("crc32_combine",3,bCrc(c1),bCrc(c2),bNum(n));
		ys_assert(isCrc(r),"C12: crc32_combine does not return a 4 byte Buffer"); if(!isCrc(r)) return;
		uint32_t e=(uint32_t)((uint64_t)n%M*8%M);
		uint32_t got=rdCrc(r), want=mulC(c1,xpow(e))^c2;
		ys_assert_eq(&got,&want,4,"C12: crc32_combine is not crc1 * x^(8 len) + crc2");
		ys_observe("combined",r->data,4); ys_reach("combined");
	} else if(mode==5) { // combine of the CRCs of two pieces
		int na=(int)ys_param("na"), nb=(int)ys_param("nb");
		v8::Value* a=bAlloc(na,0,"a"); v8::Value* b=bAlloc(nb,0,"b"); v8::Value* ab=bAlloc(na+nb,0,"ab");
		for(int i=0;i<na;i++) ab->data[i]=a->data[i]=ys_byte("a");
		for(int i=0;i<nb;i++) ab->data[na+i]=b->data[i]=ys_byte("b");
		v8::Value* ca=bCall("crc32",1,a); v8::Value* cb=bCall("crc32",1,b); v8::Value* cab=bCall("crc32",1,ab); v8::Value* seq=isCrc(ca)?bCall("crc32",2,b,ca):0;
		ys_assert(isCrc(ca)&&isCrc(cb)&&isCrc(cab)&&isCrc(seq),"C12: crc32 does not return a 4 byte Buffer"); if(!(isCrc(ca)&&isCrc(cb)&&isCrc(cab)&&isCrc(seq))) return;
		v8::Value* r=bCall("crc32_combine",3,ca,cb,bNum(nb));
		ys_assert(isCrc(r),"C12: crc32_combine does not return a 4 byte Buffer"); if(!isCrc(r)) return;
		uint32_t x=rdCrc(r), y=rdCrc(cab), z=rdCrc(seq);
		ys_assert_eq(&x,&y,4,"C12: crc32_combine of two pieces differs from the CRC of the concatenation");
		ys_assert_eq(&z,&y,4,"C11: hashing in two pieces differs from hashing at once");
		ys_observe("pieces",r->data,4); ys_reach("pieces");
	} else if(mode==7) { // memory: nothing is written, nothing read outside the pages the arguments lie in
		int n=(int)ys_param("n"), init=(int)ys_param_or("init",1); long off=ys_param_or("low",0) ? ys_param_or("al",0) : (4096-(n+ys_param_or("al",0))%4096)%4096;
		v8::Value* b=bBuf((uint8_t*)ys_alloc(n,4096,off,"data"),n);
		for(int i=0;i<n;i++) b->data[i] = n<ys_param_or("full",200) || i<8 || i>=n-8 ? ys_byte("in") : (uint8_t)(i*37);
		ys_pages(b->data); ys_readonly(b->data);
		v8::Value* c=bCrcEdge(ys_bits32("initial"));
		v8::Value* r = init ? bCall("crc32",2,b,c) : bCall("crc32",1,b);
		ys_assert(isCrc(r),"C26: crc32 does not return a 4 byte Buffer"); if(!isCrc(r)) return;
		ys_reach("hashed"); ys_observe("crc",r->data,4);
	} else if(mode==8) {
		uint32_t x=ys_bits32("x"), y=ys_bits32("y"); static const long ns[]={0,1,-1,5,-77,2147483647,-2147483647,1000000};
		int k=ys_choose("call",17); v8::Value* r=0;
		if(k==0) r=bCall("crc32_multiply",2,bCrcEdge(x),bCrcEdge(y));
		else if(k<9) r=bCall("crc32_shift",2,bNum(ns[k-1]),bCrcEdge(x));
		else r=bCall("crc32_zeroes",2,bNum(ns[k-9]),bCrcEdge(x));
		v8::Value* q=bCall("crc32_combine",3,bCrcEdge(x),bCrcEdge(y),bNum(k*1234567));
		ys_assert(isCrc(r)&&isCrc(q),"C26: a CRC function does not return a 4 byte Buffer"); if(!isCrc(r)||!isCrc(q)) return;
		ys_reach("computed"); ys_observe("crc",r->data,4);
	} else { // exponent arithmetic of the API, for every n at once: the shift kernel is replaced by a recorder
		int api=(int)ys_param("api"), neg=(int)ys_param_or("neg",0);
		crc_mul_func real=RapidYenc::_crc32_shift; RapidYenc::_crc32_shift=recorder; recCount=0; recRet=ys_u32("result");
		uint32_t c=ys_u32("crc"), c2=0; v8::Value* r; const char* bad; uint32_t e;
		if(api==2) {
			uint64_t len=ys_u64("len"); ys_assume(len<=9007199254740991ull); c2=ys_u32("crc2");
			r=bCall("crc32_combine",3,bCrc(c),bCrc(c2),bNum((int64_t)len)); bad="C12: crc32_combine shifts by a distance other than the length in bits";
			e=fold((len&M)<<3); uint32_t h=fold((len>>32)<<3); uint64_t s=(uint64_t)e+h; e=fold(s);
		} else {
			int32_t n=(int32_t)ys_u32("n"); ys_assume(neg ? n<0 : n>=0);
			uint64_t m = neg ? (uint64_t)(-(int64_t)n) : (uint64_t)n;
			r=bCall(api==1?"crc32_zeroes":"crc32_shift",2,bNum(n),bCrc(c)); bad=api==1?"C13: crc32_zeroes shifts by a distance other than n bytes":"C15: crc32_shift shifts by a distance other than n";
			e = api==1 ? fold(m<<3) : fold(m); if(neg) e=~e;
		}
		RapidYenc::_crc32_shift=real;
		if(recCount==1) {
			ys_assert(isCrc(r), bad); if(!isCrc(r)) return;
			ys_assert(congruent(recN,e),bad);
			uint32_t got=rdCrc(r), wc=c, wr=recRet; if(api==1) { wc=~c; wr=~recRet; } if(api==2) wr^=c2;
			ys_assert(recCrc==wc,bad); ys_assert(got==wr,bad);
			ys_reach("exponent");
		} else ys_reach("exponent not observable");
		if(isCrc(r)) ys_observe("result",r->data,4);
	}
}
