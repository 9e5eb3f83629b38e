// Encoder harness: C01 C02 C03 C09 C17.
#include "encspec.h"
#include "isa.h"
#include "encoder.h"
#include "decoder.h"
using namespace RapidYenc;
static uint8_t plainDom[256], spDom[256], eqDom[256];
static const uint8_t SP[]={0,'\r','\n','=','\t',' ','.'};
extern "C" void harness_init() {
	for(int i=0;i<256;i++) plainDom[i]=1;
	for(unsigned k=0;k<sizeof SP;k++) { plainDom[(uint8_t)(SP[k]-42)]=0; spDom[(uint8_t)(SP[k]-42)]=1; }
	spDom['b']=1; eqDom[(uint8_t)('='-42)]=1; eqDom['b']=1;
	int isa=(int)ys_param("isa");
	if(isa!=ISA_GEN) { isa_cpuid(isa); encoder_init(); decoder_init(); }
}
static int bg, fxN, fxV, w2, w3;
static uint8_t inByte(int i, int w0, int w1, int dm) {
	if(i>=w1 && i<w1+fxN) return ((fxV>>(i-w1))&1) ? (uint8_t)('='-42) : 'b';
	if((i<w0||i>=w1) && (i<w2||i>=w3)) {
		if(bg==1) return (uint8_t)(SP[i%4]-42);      // everything is escaped
		if(bg) { unsigned q=(unsigned)(i*bg+bg/3); if(q%11==2) return (uint8_t)(SP[q%4]-42); if(q%7==5) return (uint8_t)(SP[4+q%3]-42); }
		return ys_byte_in("in", plainDom);
	}
	switch(dm) { case 1: return ys_byte_in("in", spDom); case 3: return ys_byte_in("in", eqDom); case 4: return ys_byte_in("in", plainDom); default: return ys_byte("in"); }
}
static EncRef R;
static uint8_t ref[3000];
extern "C" void harness() {
	int n=(int)ys_param("n"), line=(int)ys_param("line"), col=(int)ys_param_or("col",0), al=(int)ys_param_or("al",0), dal=(int)ys_param_or("dal",0);
	int w0=(int)ys_param_or("w0",0), w1=(int)ys_param_or("w1",n), dm=(int)ys_param_or("dm",0), mode=(int)ys_param_or("mode",0), end=(int)ys_param_or("end",1);
	bg=(int)ys_param_or("bg",0); fxN=(int)ys_param_or("fxn",0); fxV=(int)ys_param_or("fxv",0);
	w2=(int)ys_param_or("w2",0); w3=(int)ys_param_or("w3",0);
	if(col<0) col=ys_choose("col",line); // every column of the line
	uint8_t* src=(uint8_t*)ys_alloc(n,64,al,"source");
	uint8_t* copy=(uint8_t*)ys_alloc(n,64,0,"copy");
	for(int i=0;i<n;i++) { src[i]=inByte(i,w0,w1,dm); copy[i]=src[i]; }
	ys_readonly(src);
	ys_fork_index(1);
	size_t maxlen = 2*(size_t)n + 2 + 64 + 2*((2*(size_t)n)/line); // documented worst case
	uint8_t* out=(uint8_t*)ys_alloc(maxlen,64,dal,"output");
	int c=col;
	if(mode==0) R.prepare(copy,n);
	size_t len=encode(line,&c,src,out,n,end);
	len=ys_concretize(len);
	ys_assert(len<=maxlen,"C09: returned length exceeds the documented maximum size");
	if(len>maxlen) return;
	if(mode==0) {
		int rl=R.text(line,col,end,ref);
		ys_assert(rl==(int)len,"C01: encoded length differs from the yEnc encoding");
		if(rl==(int)len) ys_assert_eq(out,ref,rl,"C01: encoded bytes differ from the yEnc encoding");
		ys_reach("encoded");
	} else if(mode==1) { // safety of the text itself
		long long cur=col; int sawBreak=0, pendEsc=0;
		ys_assert(len>=(size_t)n,"C02: output shorter than the data");
		for(size_t i=0;i<len;) {
			uint8_t ch=out[i];
			ys_assert(ch!=0,"C02: NUL in the output");
			if(ys_concretize((ch=='\r')|(ch=='\n'))) {
				ys_assert(ch=='\r' && i+1<len && out[i+1]=='\n',"C02: CR or LF that is not part of a CRLF pair");
				ys_assert(i+2<len,"C02: output ends in a line break");
				ys_assert(!pendEsc,"C02: line break directly after an escape character");
				ys_assert(cur>=line,"C02: line shorter than the line size");
				ys_assert(cur-1<=line,"C02: line longer than the line size plus one");
				if(i && !(sawBreak&2) && line>1) ys_assert(out[i-1]!='\t' && out[i-1]!=' ',"C02: white space at the end of a line");
				cur=0; i+=2; sawBreak=3; ys_reach("break"); continue;
			}
			if(cur==0) {
				ys_assert(ch!='.',"C02: a line starts with a dot");
				if(line>1) ys_assert(ch!='\t' && ch!=' ',"C02: white space at the start of a line");
			}
			pendEsc = pendEsc ? 0 : (int)ys_concretize(ch=='=');
			sawBreak&=1; cur++; i++;
		}
		ys_assert(cur-1<=line,"C02: last line longer than the line size plus one");
		ys_assert(!pendEsc,"C02: output ends in a lone escape character");
		if(end) ys_assert(out[len-1]!='\t' && out[len-1]!=' ',"C02: white space at the end of the output");
		ys_reach("text");
	} else if(mode==2) { // decoding gives the data back; also after NNTP dot stuffing
		uint8_t* enc=(uint8_t*)ys_alloc(2*len+2,64,(int)ys_param_or("al2",0),"stuffed"); size_t m=0;
		for(size_t i=0;i<len;i++) {
			int ls = i==0 ? 1 : (i>=2 && ys_concretize((out[i-2]=='\r') & (out[i-1]=='\n')));
			if(ls && ys_concretize(out[i]=='.')) enc[m++]='.';
			enc[m++]=out[i];
		}
		uint8_t* d0=(uint8_t*)ys_alloc(len,64,0,"decoded"); uint8_t* d1=(uint8_t*)ys_alloc(len,64,0,"decoded raw"); uint8_t* d2=(uint8_t*)ys_alloc(m,64,0,"decoded stuffed");
		size_t l0=ys_concretize(decode(0,out,d0,len,0)), l1=ys_concretize(decode(1,out,d1,len,0)), l2=ys_concretize(decode(1,enc,d2,m,0));
		ys_assert(l0==(size_t)n && (col>0 || l1==(size_t)n) && l2==(size_t)n,"C03: decoding returns a different length");
		if(l0==(size_t)n) ys_assert_eq(d0,copy,n,"C03: plain decoding does not return the data");
		if(l1==(size_t)n && col==0) ys_assert_eq(d1,copy,n,"C03: unstuffing decode does not return the data");
		if(l2==(size_t)n) ys_assert_eq(d2,copy,n,"C03: decoding the dot-stuffed text does not return the data");
		ys_reach("roundtrip");
	} else if(mode==4) { // what maxSize and minSize are about
		ys_assert(len<=maxlen-64,"C17: an encoding is longer than the worst case maxSize allows for");
		ys_assert(len>=(size_t)n+2*((size_t)(n-1)/line),"C17: an encoding is shorter than minSize");
		ys_reach("length");
	} else if(mode==3) ys_reach("memory");
	ys_observe("out",out,len);
}
