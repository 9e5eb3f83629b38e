// C18: kernel selection for every content of the CPU identification registers and XCR0.
#include "ys.h"
#include "common.h"
#include "encoder.h"
#include "decoder.h"
#include "crc.h"
using namespace RapidYenc;
enum { SSSE3=1, SSE41=2, POPCNT=4, AVX=8, AVX2=16, BMI1=32, BMI2=64, LZCNT=128, PCLMUL=256, VPCLMUL=512, A512F=1<<10, A512BW=1<<11, A512VL=1<<12, A512VBMI2=1<<13, EVEX512=1<<14, OTHER=0xff<<15 };
static const char* NOT_REPORTED="C18: a selected kernel uses instructions that are not reported as available and enabled";
extern "C" void harness_init() {}
static uint32_t bit(uint32_t v, int b) { return (v>>b)&1; }
extern "C" void harness() {
	int all=(int)ys_param_or("all",0); uint32_t sig,c1,d1,x,b7,c7,d7,d71,b24; uint64_t xcr;
	if(all==1) { sig=0x000806F8; c1=0xFFFFFFFF; d1=0xFFFFFFFF; x=0xFFFFFFFF; b7=0xFFFFFFFF; c7=0xFFFFFFFF; d7=0xFFFFFFFF; d71=0xFFFFFFFF; b24=0x00070001; xcr=0xE7; }
	else if(all==2) { sig=0; c1=d1=x=b7=c7=d7=d71=b24=0; xcr=0; }
	else { sig=ys_u32("signature"); c1=ys_u32("leaf1 ecx"); d1=ys_u32("leaf1 edx"); x=ys_u32("80000001 ecx"); b7=ys_u32("leaf7 ebx"); c7=ys_u32("leaf7 ecx"); d7=ys_u32("leaf7 edx"); d71=ys_u32("leaf7.1 edx"); b24=ys_u32("leaf24 ebx"); xcr=ys_u64("xcr0"); }
	ys_set_cpuid(0,0,0,0x24); ys_set_cpuid(0x80000000,0,0,0x80000008);
	ys_set_cpuid(1,0,0,sig); ys_set_cpuid(1,0,2,c1); ys_set_cpuid(1,0,3,d1); ys_set_cpuid(0x80000001,0,2,x);
	ys_set_cpuid(7,0,0,1); ys_set_cpuid(7,0,1,b7); ys_set_cpuid(7,0,2,c7); ys_set_cpuid(7,0,3,d7); ys_set_cpuid(7,1,3,d71); ys_set_cpuid(0x24,0,1,b24); ys_set_xcr0(xcr);
	// what the machine offers; bits of the AVX state count only if the OS saves it
	uint32_t os=bit(c1,27)&bit(c1,26), avxs=os & bit((uint32_t)xcr,1) & bit((uint32_t)xcr,2), zs=avxs & bit((uint32_t)xcr,5) & bit((uint32_t)xcr,6) & bit((uint32_t)xcr,7), avx=bit(c1,28)&avxs;
	uint32_t lz=bit(x,5), f512=avx&zs&bit(b7,16), ten=avx&zs&bit(d71,19)&(uint32_t)((b24&0xff)>=1)&bit(b24,17);
	uint32_t ok = bit(c1,9)*SSSE3 | (bit(c1,19)|avx)*SSE41 | (bit(c1,23)|lz)*POPCNT | avx*AVX | (avx&bit(b7,5))*AVX2 | bit(b7,3)*BMI1 | bit(b7,8)*BMI2 | lz*LZCNT | bit(c1,1)*PCLMUL | (avx&bit(c7,10))*VPCLMUL
		| (f512|ten)*A512F | ((f512&bit(b7,30))|ten)*A512BW | ((f512&bit(b7,31))|ten)*A512VL | ((f512&bit(c7,6))|ten)*A512VBMI2 | (f512 | (ten&bit(b24,18)))*EVEX512;
	uint32_t use;
	ys_features(1);
	encoder_init(); decoder_init(); crc32_init();
	use=ys_features(1); ys_assert(!(use>>31) | os,"C18: the extended state register is read although the OS does not offer it");
	use|= ys_fn_features((void*)_do_encode) | ys_fn_features((void*)_do_decode) | ys_fn_features((void*)_do_decode_raw) | ys_fn_features((void*)_do_decode_end_raw) | ys_fn_features((void*)_do_crc32_incremental) | ys_fn_features((void*)_crc32_shift) | ys_fn_features((void*)_crc32_multiply);
	use&=0x7fffffff;
	ys_assert((use & ~ok)==0,NOT_REPORTED);
	if(ys_in_engine() && ys_param_or("run",1)) { // run each of them: everything they call counts as well
		static uint8_t in[320], out[1000]; for(int i=0;i<320;i++) in[i]=(uint8_t)("abc=\r\n.y"[i%8]+i/8); int col=0;
		encode(64,&col,in,out,320,1); use|=ys_features(1)&0x7fffffff; ys_assert((use & ~ok)==0,NOT_REPORTED);
		decode(0,in,out,320,0); decode(1,in,out,320,0); const void* s=in; void* d=out; YencDecoderState st=YDEC_STATE_CRLF; decode_end(&s,&d,320,&st); use|=ys_features(1)&0x7fffffff; ys_assert((use & ~ok)==0,NOT_REPORTED);
		uint32_t c=crc32(in,320,1); c=crc32_shift(c,12345); c=crc32_multiply(c,c|1); use|=ys_features(1)&0x7fffffff; ys_assert((use & ~ok)==0,NOT_REPORTED);
	}
	if(all==1) {
		ys_assert((ys_fn_features((void*)_do_encode)&A512VBMI2)!=0,"C18: a fully capable CPU does not get the accelerated encoder");
		ys_assert((ys_fn_features((void*)_do_decode)&ys_fn_features((void*)_do_decode_raw)&ys_fn_features((void*)_do_decode_end_raw)&A512VBMI2)!=0,"C18: a fully capable CPU does not get the accelerated decoder");
		ys_assert((ys_fn_features((void*)_do_crc32_incremental)&VPCLMUL)!=0,"C18: a fully capable CPU does not get the accelerated CRC"); ys_reach("capable");
	}
	if(all==2) { ys_assert(use==0,"C18: accelerated code is selected although no features are reported"); ys_reach("bare"); }
	uint8_t o[4]; if(all) { o[0]=(uint8_t)encode_isa_level(); o[1]=(uint8_t)(encode_isa_level()>>8); o[2]=(uint8_t)decode_isa_level(); o[3]=(uint8_t)(decode_isa_level()>>8); ys_observe("levels",o,4); }
	ys_reach("selected");
}
