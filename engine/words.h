// Words (<=64 bit) over boolean literals, with a concrete fast path.
#pragma once
#include "terms.h"

struct Word { uint32_t w; uint32_t s; uint64_t v; }; // s==0: concrete value v; else id of an interned literal vector

static inline uint64_t maskw(unsigned w) { return w>=64 ? ~0ull : (1ull<<w)-1; }
static inline Word C(unsigned w, uint64_t v) { return Word{w,0,v&maskw(w)}; }

struct Words {
	Terms T;
	std::vector<Lit> pool; // literal vectors
	struct BV { uint32_t off, len; };
	std::vector<BV> bvs;
	std::unordered_multimap<uint64_t,uint32_t> bvTab;
	std::unordered_map<uint64_t,Word> memo; // keyed by hash of op; verified
	struct MK { uint32_t op; Word a,b; Word r; };
	std::unordered_multimap<uint64_t,MK> opMemo;
	Words() { bvs.push_back(BV{0,0}); }

	uint32_t intern(const Lit* l, unsigned n) {
		uint64_t h=n; for(unsigned i=0;i<n;i++) h = mix64(h*0x9e3779b97f4a7c15ull + l[i]);
		auto r=bvTab.equal_range(h);
		for(auto it=r.first;it!=r.second;++it) { BV& b=bvs[it->second]; if(b.len==n&&!memcmp(&pool[b.off],l,n*sizeof(Lit))) return it->second; }
		uint32_t off=pool.size(); pool.insert(pool.end(), l, l+n);
		bvs.push_back(BV{off,n}); bvTab.emplace(h,bvs.size()-1);
		return bvs.size()-1;
	}
	Word mk(const Lit* l, unsigned n) {
		uint64_t v=0; bool conc=true;
		for(unsigned i=0;i<n;i++) { if(l[i]>1) { conc=false; break; } v |= (uint64_t)l[i]<<i; }
		if(conc) return Word{n,0,v};
		return Word{n,intern(l,n),0};
	}
	Word mk(const std::vector<Lit>& l) { return mk(l.data(), l.size()); }
	Lit bit(const Word& a, unsigned i) const { return a.s ? pool[bvs[a.s].off+i] : (Lit)((a.v>>i)&1); }
	void bits(const Word& a, Lit* out) const { if(a.s) memcpy(out,&pool[bvs[a.s].off],a.w*sizeof(Lit)); else for(unsigned i=0;i<a.w;i++) out[i]=(a.v>>i)&1; }
	bool same(const Word& a, const Word& b) const { return a.w==b.w&&a.s==b.s&&(a.s||a.v==b.v); }

	bool memoFind(uint32_t op, const Word& a, const Word& b, Word& r, uint64_t& h) {
		h = mix64(op*0x9e3779b97f4a7c15ull + a.s + ((uint64_t)a.w<<40)) ; h = mix64(h + a.v); h = mix64(h + b.s*0x100000001b3ull); h = mix64(h + b.v + ((uint64_t)b.w<<32));
		auto q=opMemo.equal_range(h);
		for(auto it=q.first;it!=q.second;++it) { MK& m=it->second; if(m.op==op&&same(m.a,a)&&same(m.b,b)) { r=m.r; return true; } }
		return false;
	}
	void memoPut(uint64_t h, uint32_t op, const Word& a, const Word& b, const Word& r) { opMemo.emplace(h, MK{op,a,b,r}); }

	void addBits(const Lit* a, const Lit* b, Lit cin, Lit* o, unsigned n, Lit* cout=nullptr) {
		Lit c=cin;
		for(unsigned i=0;i<n;i++) {
			Lit x=T.mkXor2(a[i],b[i]);
			o[i]=T.mkXor2(x,c);
			if(i+1<n||cout) c=T.mkIte(x,c,a[i]);
		}
		if(cout) *cout=c;
	}
	// Linear forms: sums and differences of wide words are kept as k0+k1*w1+..., so that one sum built in two ways is one word.
	struct LF { uint64_t k; std::vector<std::pair<uint32_t,uint64_t>> t; bool operator==(const LF& o) const { return k==o.k&&t==o.t; } };
	std::unordered_map<uint32_t,LF> lfOf;                        // of a literal vector, if it is not its own only term
	std::unordered_multimap<uint64_t,std::pair<LF,Word>> lfTab;  // the word first built for a form
	bool lfGet(const Word& a, LF& f) const {
		if(!a.s) { f.k=a.v; f.t.clear(); return true; }
		auto it=lfOf.find(a.s); if(it!=lfOf.end()) f=it->second; else { f.k=0; f.t.assign(1,{a.s,1}); }
		return true;
	}
	static void lfSum(LF& f, const LF& g, uint64_t m, unsigned w) { // f += m*g
		f.k=(f.k+m*g.k)&maskw(w); std::vector<std::pair<uint32_t,uint64_t>> o; size_t i=0,j=0;
		while(i<f.t.size()||j<g.t.size()) {
			if(j==g.t.size()||(i<f.t.size()&&f.t[i].first<g.t[j].first)) o.push_back(f.t[i++]);
			else { uint64_t c=m*g.t[j].second; uint32_t id=g.t[j].first; j++; if(i<f.t.size()&&f.t[i].first==id) c+=f.t[i++].second; c&=maskw(w); if(c) o.push_back({id,c}); }
		}
		f.t.swap(o);
	}
	uint64_t lfHash(const LF& f, unsigned w) const { uint64_t h=mix64(f.k+w); for(auto& p: f.t) h=mix64(h+p.first*0x9e3779b97f4a7c15ull+mix64(p.second)); return h; }
	bool lfFind(const LF& f, unsigned w, uint64_t h, Word& r) const { auto q=lfTab.equal_range(h); for(auto it=q.first;it!=q.second;++it) if(it->second.second.w==w&&it->second.first==f) { r=it->second.second; return true; } return false; }
	void lfPut(const LF& f, uint64_t h, const Word& r) { if(r.s) { lfOf.emplace(r.s,f); lfTab.emplace(h,std::make_pair(f,r)); } }
	// a+m*b by its linear form: true if the answer is known, else f and h are to be put with the result
	bool lfTry(const Word& a, const Word& b, uint64_t m, LF& f, uint64_t& h, Word& r) {
		LF g; lfGet(a,f); lfGet(b,g); if(f.t.size()+g.t.size()>12) { h=0; return false; }
		lfSum(f,g,m,a.w);
		if(f.t.empty()) { r=C(a.w,f.k); return true; }
		if(f.k==0&&f.t.size()==1&&f.t[0].second==1) { r=Word{a.w,f.t[0].first,0}; return true; }
		h=lfHash(f,a.w)|1; return lfFind(f,a.w,h,r);
	}
	Word add(const Word& a, const Word& b) {
		if(!a.s&&!b.s) return C(a.w,a.v+b.v);
		if(!b.s&&b.v==0) return a; if(!a.s&&a.v==0) return b;
		Word r; uint64_t h; if(memoFind(1,a,b,r,h)) return r;
		LF f; uint64_t fh=0; if(a.w>=32&&lfTry(a,b,1,f,fh,r)) { memoPut(h,1,a,b,r); return r; }
		Lit x[64],y[64],o[64]; bits(a,x); bits(b,y); addBits(x,y,L0,o,a.w); r=mk(o,a.w); memoPut(h,1,a,b,r); if(fh) lfPut(f,fh,r); return r;
	}
	Word sub(const Word& a, const Word& b) {
		if(!a.s&&!b.s) return C(a.w,a.v-b.v);
		if(!b.s&&b.v==0) return a;
		if(same(a,b)) return C(a.w,0);
		Word r; uint64_t h; if(memoFind(2,a,b,r,h)) return r;
		LF f; uint64_t fh=0; if(a.w>=32&&lfTry(a,b,~0ull,f,fh,r)) { memoPut(h,2,a,b,r); return r; }
		Lit x[64],y[64],o[64]; bits(a,x); bits(b,y); for(unsigned i=0;i<a.w;i++) y[i]^=1; addBits(x,y,L1,o,a.w); r=mk(o,a.w); memoPut(h,2,a,b,r); if(fh) lfPut(f,fh,r); return r;
	}
	Word neg(const Word& a) { return sub(C(a.w,0),a); }
	Word band(const Word& a, const Word& b) {
		if(!a.s&&!b.s) return C(a.w,a.v&b.v);
		Lit x[64],y[64]; bits(a,x); bits(b,y); for(unsigned i=0;i<a.w;i++) x[i]=T.mkAnd(x[i],y[i]); return mk(x,a.w);
	}
	Word bor(const Word& a, const Word& b) {
		if(!a.s&&!b.s) return C(a.w,a.v|b.v);
		Lit x[64],y[64]; bits(a,x); bits(b,y); for(unsigned i=0;i<a.w;i++) x[i]=T.mkOr(x[i],y[i]); return mk(x,a.w);
	}
	Word bxor(const Word& a, const Word& b) {
		if(!a.s&&!b.s) return C(a.w,a.v^b.v);
		Lit x[64],y[64]; bits(a,x); bits(b,y); for(unsigned i=0;i<a.w;i++) x[i]=T.mkXor2(x[i],y[i]); return mk(x,a.w);
	}
	Word bnot(const Word& a) { return bxor(a,C(a.w,~0ull)); }
	Word shlc(const Word& a, unsigned n) {
		if(n>=a.w) return C(a.w,0); if(!a.s) return C(a.w,a.v<<n);
		Word r; LF f; uint64_t h=0; if(a.w>=32&&n&&lfTry(C(a.w,0),a,1ull<<n,f,h,r)) return r;
		Lit x[64],o[64]; bits(a,x); for(unsigned i=0;i<a.w;i++) o[i]= i<n?L0:x[i-n]; r=mk(o,a.w); if(h) lfPut(f,h,r); return r;
	}
	Word shrc(const Word& a, unsigned n, bool arith) {
		Lit x[64],o[64]; bits(a,x); Lit f=arith?x[a.w-1]:L0;
		for(unsigned i=0;i<a.w;i++) o[i]= (i+n<a.w)?x[i+n]:f; return mk(o,a.w);
	}
	// kind 0 shl, 1 lshr, 2 ashr
	Word shift(const Word& a, const Word& b, int kind) {
		if(!b.s) {
			if(b.v>=a.w) return kind==2 ? shrc(a,a.w-1,true) : C(a.w,0);
			return kind==0?shlc(a,b.v):shrc(a,b.v,kind==2);
		}
		Word r=a; unsigned k=0;
		for(;(1u<<k)<a.w;k++) {
			Word s = kind==0?shlc(r,1u<<k):shrc(r,1u<<k,kind==2);
			r = select(bit(b,k), s, r);
		}
		Lit big=L0; for(unsigned i=k;i<b.w;i++) big=T.mkOr(big,bit(b,i));
		return select(big, kind==2?shrc(a,a.w-1,true):C(a.w,0), r);
	}
	Word select(Lit c, const Word& a, const Word& b) {
		if(c==L1) return a; if(c==L0) return b; if(same(a,b)) return a;
		Lit x[64],y[64]; bits(a,x); bits(b,y); for(unsigned i=0;i<a.w;i++) x[i]=T.mkIte(c,x[i],y[i]); return mk(x,a.w);
	}
	Lit eq(const Word& a, const Word& b) {
		if(!a.s&&!b.s) return a.v==b.v;
		if(a.s&&a.s==b.s) return L1;
		Lit r=L1; for(unsigned i=0;i<a.w;i++) { r=T.mkAnd(r, T.mkXor2(bit(a,i),bit(b,i))^1); if(r==L0) break; } return r;
	}
	Lit ult(const Word& a, const Word& b) {
		if(!a.s&&!b.s) return a.v<b.v;
		if(a.s&&a.s==b.s) return L0;
		Lit r=L0;
		for(unsigned i=0;i<a.w;i++) { Lit x=bit(a,i),y=bit(b,i); r=T.mkIte(T.mkXor2(x,y), y, r); }
		return r;
	}
	Word flipSign(const Word& a) { return bxor(a, C(a.w,1ull<<(a.w-1))); }
	Lit slt(const Word& a, const Word& b) { return ult(flipSign(a),flipSign(b)); }
	Word mul(const Word& a, const Word& b) {
		if(!a.s&&!b.s) return C(a.w,a.v*b.v);
		if(a.s&&!b.s) return mul(b,a);
		Word r=C(a.w,0);
		for(unsigned i=0;i<a.w;i++) { Lit c=bit(a,i); if(c==L0) continue; r=add(r, select(c, shlc(b,i), C(a.w,0))); }
		return r;
	}
	void udivrem(const Word& a, const Word& b, Word& q, Word& r) {
		unsigned n=a.w;
		if(!a.s&&!b.s) { if(b.v==0) { q=C(n,0); r=a; } else { q=C(n,a.v/b.v); r=C(n,a.v%b.v);} return; }
		if(!b.s&&b.v&&!(b.v&(b.v-1))) { unsigned k=__builtin_ctzll(b.v); q=shrc(a,k,false); r=band(a,C(n,b.v-1)); return; }
		std::vector<Lit> rem(n+1,L0), bb(n+1,L0), qb(n,L0);
		for(unsigned i=0;i<n;i++) bb[i]=bit(b,i);
		for(int i=n-1;i>=0;i--) {
			for(int j=n;j>0;j--) rem[j]=rem[j-1];
			rem[0]=bit(a,i);
			Lit lt=L0; for(unsigned j=0;j<=n;j++) lt=T.mkIte(T.mkXor2(rem[j],bb[j]), bb[j], lt);
			Lit ge=lt^1; qb[i]=ge;
			if(ge==L0) continue;
			std::vector<Lit> nb(n+1),o(n+1); for(unsigned j=0;j<=n;j++) nb[j]=bb[j]^1;
			addBits(rem.data(), nb.data(), L1, o.data(), n+1);
			for(unsigned j=0;j<=n;j++) rem[j]=T.mkIte(ge,o[j],rem[j]);
		}
		q=mk(qb.data(),n); r=mk(rem.data(),n);
	}
	Word absW(const Word& a) { return select(bit(a,a.w-1), neg(a), a); }
	Word sdivrem(const Word& a, const Word& b, bool rem) {
		if(!a.s&&!b.s) {
			int64_t x=(int64_t)(a.v<<(64-a.w))>>(64-a.w), y=(int64_t)(b.v<<(64-b.w))>>(64-b.w);
			if(y==0) return C(a.w,0);
			if(y==-1) return rem?C(a.w,0):C(a.w,-(uint64_t)x);
			return C(a.w, rem? x%y : x/y);
		}
		Word q,r; udivrem(absW(a),absW(b),q,r);
		if(rem) return select(bit(a,a.w-1), neg(r), r);
		return select(T.mkXor2(bit(a,a.w-1),bit(b,b.w-1)), neg(q), q);
	}
	Word zext(const Word& a, unsigned w) { if(!a.s) return C(w,a.v); Lit x[64]; bits(a,x); for(unsigned i=a.w;i<w;i++) x[i]=L0; return mk(x,w); }
	Word sext(const Word& a, unsigned w) {
		Lit x[64]; bits(a,x); for(unsigned i=a.w;i<w;i++) x[i]=x[a.w-1]; return mk(x,w);
	}
	Word trunc(const Word& a, unsigned w) { if(!a.s) return C(w,a.v); Lit x[64]; bits(a,x); return mk(x,w); }
	Word extract(const Word& a, unsigned lo, unsigned w) { if(!a.s) return C(w,a.v>>lo); Lit x[64]; bits(a,x); return mk(x+lo,w); }
	Word popcnt(const Word& a) {
		if(!a.s) return C(a.w,__builtin_popcountll(a.v));
		// recursive adder tree over the bits
		std::vector<Word> l; for(unsigned i=0;i<a.w;i++) { Lit b=bit(a,i); if(b!=L0) l.push_back(mk(&b,1)); }
		unsigned need=1; while((1u<<need)<=a.w) need++;
		if(need>a.w) need=a.w;
		for(auto& x: l) x=zext(x,need);
		while(l.size()>1) { std::vector<Word> n; for(size_t i=0;i+1<l.size();i+=2) n.push_back(add(l[i],l[i+1])); if(l.size()&1) n.push_back(l.back()); l.swap(n); }
		return l.empty()?C(a.w,0):zext(l[0],a.w);
	}
	Word clz(const Word& a) { Word r=C(a.w,a.w); for(unsigned i=0;i<a.w;i++) r=select(bit(a,i), C(a.w,a.w-1-i), r); return r; }
	Word ctz(const Word& a) { Word r=C(a.w,a.w); for(int i=a.w-1;i>=0;i--) r=select(bit(a,i), C(a.w,i), r); return r; }
	Word uminmax(const Word& a, const Word& b, bool mx, bool sg) { Lit l = sg?slt(a,b):ult(a,b); return mx?select(l,b,a):select(l,a,b); }
};
