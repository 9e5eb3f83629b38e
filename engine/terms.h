// Boolean term DAG used by ysym: hash-consed literals with truth tables over byte variables, AND, n-ary XOR and ITE.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <algorithm>
#include <functional>

typedef uint32_t Lit;
static const Lit L0 = 0, L1 = 1;

struct TT {
	uint64_t w[4];
	bool operator==(const TT& o) const { return w[0]==o.w[0]&&w[1]==o.w[1]&&w[2]==o.w[2]&&w[3]==o.w[3]; }
	bool empty() const { return !(w[0]|w[1]|w[2]|w[3]); }
	bool get(unsigned i) const { return (w[i>>6]>>(i&63))&1; }
	void set(unsigned i) { w[i>>6] |= 1ull<<(i&63); }
	int first() const { for(int i=0;i<4;i++) if(w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
	int count() const { int n=0; for(int i=0;i<4;i++) n+=__builtin_popcountll(w[i]); return n; }
	TT operator&(const TT& o) const { return TT{{w[0]&o.w[0],w[1]&o.w[1],w[2]&o.w[2],w[3]&o.w[3]}}; }
	TT operator|(const TT& o) const { return TT{{w[0]|o.w[0],w[1]|o.w[1],w[2]|o.w[2],w[3]|o.w[3]}}; }
	TT operator^(const TT& o) const { return TT{{w[0]^o.w[0],w[1]^o.w[1],w[2]^o.w[2],w[3]^o.w[3]}}; }
	TT operator~() const { return TT{{~w[0],~w[1],~w[2],~w[3]}}; }
};
static const TT TT_ZERO = {{0,0,0,0}};
static const TT TT_FULL = {{~0ull,~0ull,~0ull,~0ull}};

static inline uint64_t mix64(uint64_t x) { x ^= x>>33; x *= 0xff51afd7ed558ccdull; x ^= x>>33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x>>33; return x; }
struct TTHash { size_t operator()(const TT& t) const { return mix64(t.w[0] + 0x9e3779b97f4a7c15ull*mix64(t.w[1] + 0x9e3779b97f4a7c15ull*mix64(t.w[2] + mix64(t.w[3])*31))); } };

enum NT : uint8_t { N_CONST, N_TT, N_AND, N_XOR, N_ITE };
struct Node { NT t; uint32_t a, b, c; };

struct Var { std::string name; TT dom; int order; };

// ---- open addressing table (key: 3 x u32 + tag) -> u32
struct ConsTable {
	struct E { uint32_t k0,k1,k2,v; };
	std::vector<E> tab; size_t n; size_t mask;
	ConsTable(): tab(1<<16, E{0,0,0,0}), n(0), mask((1<<16)-1) {}
	static size_t h(uint32_t a, uint32_t b, uint32_t c) { return mix64(((uint64_t)a<<32|b) ^ ((uint64_t)c*0x9e3779b97f4a7c15ull)); }
	uint32_t* find(uint32_t a, uint32_t b, uint32_t c) {
		size_t i = h(a,b,c)&mask;
		while(tab[i].v) { if(tab[i].k0==a&&tab[i].k1==b&&tab[i].k2==c) return &tab[i].v; i=(i+1)&mask; }
		return nullptr;
	}
	void insert(uint32_t a, uint32_t b, uint32_t c, uint32_t v) {
		if(n*10 > tab.size()*6) grow();
		size_t i = h(a,b,c)&mask;
		while(tab[i].v) i=(i+1)&mask;
		tab[i] = E{a,b,c,v}; n++;
	}
	void grow() {
		std::vector<E> old; old.swap(tab);
		tab.assign(old.size()*2, E{0,0,0,0}); mask = tab.size()-1;
		for(auto& e: old) if(e.v) { size_t i=h(e.k0,e.k1,e.k2)&mask; while(tab[i].v) i=(i+1)&mask; tab[i]=e; }
	}
};

struct Terms {
	std::vector<Node> nodes;
	std::vector<TT> tts;
	std::unordered_map<TT,uint32_t,TTHash> ttIdx;
	std::vector<Var> vars;
	std::vector<Lit> arena; // xor lists
	ConsTable ttTab, andTab, iteTab;
	std::unordered_multimap<uint64_t,uint32_t> xorTab;
	bool anf = false;
	Terms() { nodes.push_back(Node{N_CONST,0,0,0}); }

	uint32_t newNode(NT t, uint32_t a, uint32_t b, uint32_t c) { nodes.push_back(Node{t,a,b,c}); if(nodes.size() > (1u<<30)) { fprintf(stderr,"term overflow\n"); exit(3);} return nodes.size()-1; }
	int newVar(const std::string& name, const TT& dom, int order) { vars.push_back(Var{name,dom,order}); return vars.size()-1; }
	uint32_t internTT(const TT& t) {
		auto it = ttIdx.find(t); if(it!=ttIdx.end()) return it->second;
		tts.push_back(t); ttIdx[t]=tts.size()-1; return tts.size()-1;
	}
	Lit mkTT(uint32_t var, TT t) {
		const TT& d = vars[var].dom; t = t & d;
		if(t.empty()) return L0;
		if(t == d) return L1;
		bool neg = false;
		if(t.get(d.first())) { t = d & ~t; neg = true; }
		uint32_t ti = internTT(t);
		if(uint32_t* f = ttTab.find(var, ti, 0)) return (*f<<1)|neg;
		uint32_t n = newNode(N_TT, var, ti, 0);
		ttTab.insert(var, ti, 0, n);
		return (n<<1)|neg;
	}
	bool isTT(Lit l) const { return nodes[l>>1].t == N_TT; }
	NT type(Lit l) const { return nodes[l>>1].t; }
	uint32_t ttVar(Lit l) const { return nodes[l>>1].a; }
	TT ttOf(Lit l) const { // table of the literal within its domain
		const Node& n = nodes[l>>1]; TT t = tts[n.b];
		if(l&1) t = vars[n.a].dom & ~t;
		return t;
	}
	Lit mkAnd(Lit a, Lit b) {
		if(a==b) return a;
		if(a==(b^1) || a==L0 || b==L0) return L0;
		if(a==L1) return b; if(b==L1) return a;
		if(a>b) std::swap(a,b);
		if(isTT(a) && isTT(b) && ttVar(a)==ttVar(b)) return mkTT(ttVar(a), ttOf(a)&ttOf(b));
		if(uint32_t* f = andTab.find(a,b,0)) { return *f-2; }
		Lit r = mkAndSlow(a,b);
		andTab.insert(a,b,0,r+2);
		return r;
	}
	Lit mkAndSlow(Lit a, Lit b) {
		if(anf) {
			if(a&1) { Lit p=mkAnd(a^1,b); return mkXor2(p,b); }
			if(b&1) { Lit p=mkAnd(a,b^1); return mkXor2(p,a); }
			for(int k=0;k<2;k++) {
				Lit x=k?b:a, y=k?a:b;
				if(type(x)==N_XOR) {
					std::vector<Lit> l; Node n=nodes[x>>1];
					for(uint32_t i=0;i<n.b;i++) l.push_back(mkAnd(arena[n.a+i], y));
					return mkXor(l);
				}
			}
		}
		for(int k=0;k<2;k++) {
			Lit x=k?b:a, y=k?a:b;
			if(type(x)==N_AND) {
				Node n = nodes[x>>1];
				if(!(x&1)) {
					if(y==n.a||y==n.b) return x;
					if(y==(n.a^1)||y==(n.b^1)) return L0;
					if(isTT(y)) {
						if(isTT(n.a)&&ttVar(n.a)==ttVar(y)) return mkAnd(mkAnd(n.a,y), n.b);
						if(isTT(n.b)&&ttVar(n.b)==ttVar(y)) return mkAnd(mkAnd(n.b,y), n.a);
					}
				} else {
					if(y==(n.a^1)||y==(n.b^1)) return y;      // !(a&b) & !a = !a
					if(y==n.a) return mkAnd(n.a, n.b^1);       // !(a&b) & a = a & !b
					if(y==n.b) return mkAnd(n.b, n.a^1);
				}
			}
		}
		if(a>b) std::swap(a,b);
		uint32_t n = newNode(N_AND, a, b, 0);
		return n<<1;
	}
	Lit mkOr(Lit a, Lit b) { return mkAnd(a^1,b^1)^1; }
	std::vector<Lit> xs_;
	Lit mkXor2(Lit a, Lit b) {
		if(a<2) return b^a; if(b<2) return a^b;
		if((a^b)<2) return a^b;
		if(isTT(a)&&isTT(b)&&ttVar(a)==ttVar(b)) return mkTT(ttVar(a), ttOf(a)^ttOf(b));
		Lit l[2]={a,b}; return mkXorN(l,2);
	}
	Lit mkXor(const std::vector<Lit>& v) { return mkXorN(v.data(), v.size()); }
	Lit mkXorN(const Lit* v, size_t cnt) {
		std::vector<Lit>& xs = xs_; xs.clear();
		uint32_t par=0;
		for(size_t i=0;i<cnt;i++) {
			Lit l=v[i]; par ^= l&1; l&=~1u;
			if(l==L0) continue;
			const Node& n = nodes[l>>1];
			if(n.t==N_XOR) xs.insert(xs.end(), arena.begin()+n.a, arena.begin()+n.a+n.b);
			else xs.push_back(l);
		}
		std::sort(xs.begin(), xs.end());
		// cancel pairs
		size_t o=0;
		for(size_t i=0;i<xs.size();) {
			size_t j=i; while(j<xs.size()&&xs[j]==xs[i]) j++;
			if((j-i)&1) xs[o++]=xs[i];
			i=j;
		}
		xs.resize(o);
		// merge truth tables of the same variable
		static std::vector<std::pair<uint32_t,Lit>> tl; tl.clear();
		o=0;
		for(size_t i=0;i<xs.size();i++) if(isTT(xs[i])) tl.push_back({ttVar(xs[i]),xs[i]}); else xs[o++]=xs[i];
		xs.resize(o);
		if(!tl.empty()) {
			std::sort(tl.begin(), tl.end());
			for(size_t i=0;i<tl.size();) {
				size_t j=i+1;
				if(j<tl.size()&&tl[j].first==tl[i].first) {
					TT t = tts[nodes[tl[i].second>>1].b];
					for(;j<tl.size()&&tl[j].first==tl[i].first;j++) t = t ^ tts[nodes[tl[j].second>>1].b];
					Lit l = mkTT(tl[i].first, t);
					par ^= l&1; l&=~1u; if(l!=L0) xs.push_back(l);
				} else xs.push_back(tl[i].second);
				i=j;
			}
			std::sort(xs.begin(), xs.end());
		}
		if(xs.empty()) return par;
		if(xs.size()==1) return xs[0]^par;
		uint64_t h=xs.size(); for(Lit l: xs) h = mix64(h*0x9e3779b97f4a7c15ull + l);
		auto r = xorTab.equal_range(h);
		for(auto it=r.first; it!=r.second; ++it) {
			const Node& n = nodes[it->second];
			if(n.b==xs.size() && !memcmp(&arena[n.a], xs.data(), xs.size()*sizeof(Lit))) return (it->second<<1)|par;
		}
		uint32_t off = arena.size(); arena.insert(arena.end(), xs.begin(), xs.end());
		uint32_t n = newNode(N_XOR, off, xs.size(), 0);
		xorTab.emplace(h, n);
		return (n<<1)|par;
	}
	Lit mkIte(Lit c, Lit a, Lit b) {
		if(c==L1) return a; if(c==L0) return b;
		if(a==b) return a;
		if(c&1) { c^=1; std::swap(a,b); }
		if(a==(b^1)) return mkXor2(c, b);
		if(a==L1||a==c) return mkOr(c,b);
		if(a==L0||a==(c^1)) return mkAnd(c^1,b);
		if(b==L0||b==c) return mkAnd(c,a);
		if(b==L1||b==(c^1)) return mkOr(c^1,a);
		if(anf) { Lit d=mkXor2(a,b); return mkXor2(mkAnd(c,d), b); }
		if(isTT(c)) {
			uint32_t v=ttVar(c); TT tc=ttOf(c);
			bool ta=isTT(a)&&ttVar(a)==v, tb=isTT(b)&&ttVar(b)==v;
			if(ta&&tb) return mkTT(v, (tc&ttOf(a))|(ttOf(b)&~tc));
			if(ta) { // a may be constant under c
				TT x=ttOf(a)&tc; if(x.empty()) return mkAnd(c^1,b); if(x==tc) return mkOr(c,b);
			}
			if(tb) {
				TT nc=vars[v].dom&~tc; TT x=ttOf(b)&nc; if(x.empty()) return mkAnd(c,a); if(x==nc) return mkOr(c^1,a);
			}
		}
		// strip redundant tests of the same condition
		if(type(a)==N_ITE && nodes[a>>1].c==c) { return mkIte(c, nodes[a>>1].a^(a&1), b); }
		if(type(b)==N_ITE && nodes[b>>1].c==c) { return mkIte(c, a, nodes[b>>1].b^(b&1)); }
		bool neg=false;
		if(a&1) { a^=1; b^=1; neg=true; }
		if(uint32_t* f = iteTab.find(c,a,b)) return ((*f)-2)^neg;
		uint32_t n = newNode(N_ITE, a, b, c);
		iteTab.insert(c,a,b,(n<<1)+2);
		return (n<<1)^neg;
	}
};
