// Reference model of yEnc decoding, written from the property statements (history based, no kernels, no state machine shortcuts).
#pragma once
#include "ys.h"
struct DecSpec {
	enum { MAX=1200 };
	uint8_t h[MAX]; uint8_t mk[MAX], es[MAX], ls[MAX], dot[MAX], emit[MAX], val[MAX], endf[MAX];
	int P, N;
	static int prefix(int state, uint8_t* o) { // the characters a decoder state stands for
		switch(state) {
			case 0: o[0]='\r'; o[1]='\n'; return 2;
			case 1: o[0]='='; return 1;
			case 2: o[0]='\r'; return 1;
			case 3: return 0;
			case 4: o[0]='\r'; o[1]='\n'; o[2]='.'; return 3;
			case 5: o[0]='\r'; o[1]='\n'; o[2]='.'; o[3]='\r'; return 4;
			default: o[0]='\r'; o[1]='\n'; o[2]='='; return 3;
		}
	}
	// raw: remove stuffed dots; flags are 0/1 and may be symbolic
	void run(int raw, int state, const uint8_t* in, int n) {
		P = prefix(state, h); for(int i=0;i<n;i++) h[P+i]=in[i];
		N = P+n;
		for(int k=0;k<N;k++) {
			uint8_t c=h[k];
			es[k] = k>0 ? mk[k-1] : 0;
			ls[k] = k>1 ? (uint8_t)((h[k-2]=='\r') & (h[k-1]=='\n') & (es[k-1]^1)) : 0;
			dot[k] = (uint8_t)(raw & ls[k] & (c=='.'));
			mk[k] = (uint8_t)((c=='=') & (es[k]^1));
			uint8_t nl = (uint8_t)(((c=='\r')|(c=='\n')) & (es[k]^1));
			emit[k] = (uint8_t)((dot[k]|mk[k]|nl)^1);
			val[k] = (uint8_t)(c - 42 - (es[k]<<6));
			uint8_t ctl=0, art=0;
			if(k>0) { ctl = (uint8_t)((c=='y') & (h[k-1]=='=') & (ls[k-1] | (k>1?dot[k-2]:0))); }
			if(k>1) { art = (uint8_t)((c=='\n') & (h[k-1]=='\r') & dot[k-2]); }
			endf[k] = (uint8_t)(ctl | (art<<1)); // 1 = control line, 2 = end of article
		}
	}
	// decoder state a stream that has read everything is left in
	int final_state() {
		if(N==0) return 3;
		int k=N-1; uint8_t c=h[k];
		uint64_t r=3;
		r = ys_select(dot[k], 4, r);
		r = ys_select(c=='\n' && 0, 0, r);
		if(k>0) r = ys_select((c=='\n') & (h[k-1]=='\r'), 0, r);
		r = ys_select(c=='\r', 2, r);
		if(k>0) r = ys_select((c=='\r') & dot[k-1], 5, r);
		r = ys_select(mk[k], 1, r);
		r = ys_select(mk[k] & (ls[k] | (k>0?dot[k-1]:0)), 6, r);
		return (int)r;
	}
};
