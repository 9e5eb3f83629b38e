// Reference model of yEnc encoding, written from the property statements: a byte-at-a-time description with a running column.
#pragma once
#include "ys.h"
struct EncRef {
	enum { MAX=800 };
	uint8_t v[MAX], crit[MAX], ws[MAX], dot[MAX]; int n;
	void prepare(const uint8_t* in, int n_) {
		n=n_;
		for(int i=0;i<n;i++) {
			uint8_t c=(uint8_t)(in[i]+42); v[i]=c;
			crit[i]=(uint8_t)((c==0)|(c=='\r')|(c=='\n')|(c=='='));
			ws[i]=(uint8_t)((c=='\t')|(c==' ')); dot[i]=(uint8_t)(c=='.');
		}
	}
	// expected text; which characters are escaped is resolved per path
	int text(int64_t line, int64_t col, int atEnd, uint8_t* o) {
		int len=0;
		for(int i=0;i<n;i++) {
			if(col>=line) { o[len++]='\r'; o[len++]='\n'; col=0; }
			uint8_t e=crit[i];
			if(col==0) e |= ws[i]|dot[i];
			if(col==line-1 || (atEnd && i==n-1)) e |= ws[i];
			if(ys_concretize(e)) { o[len++]='='; o[len++]=(uint8_t)(v[i]+64); col+=2; } else { o[len++]=v[i]; col++; }
		}
		return len;
	}
};
