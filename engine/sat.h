// Incremental SAT back end (MiniSat): persistent Tseitin encoding of the term DAG, queries as assumptions, decisions limited to the query's cone.
#include <minisat/core/Solver.h>
namespace MS = Minisat;
struct Sat {
	MS::Solver s; std::vector<int> nv; std::vector<std::vector<int>> vb; // node -> var, byte var -> bit vars
	std::map<std::tuple<int,int,std::vector<uint64_t>>,MS::Lit> tt; MS::Lit tru; std::vector<int> dec; std::vector<uint32_t> mark; uint32_t epoch=0;
	Sat() { tru=MS::mkLit(nvar(false)); s.addClause(tru); }
	int nvar(bool d) { return s.newVar(MS::lbool((uint8_t)2), d); }
	const std::vector<int>& bits(int v) {
		if((int)vb.size()<=v) vb.resize(v+1);
		if(vb[v].empty()) { for(int i=0;i<8;i++) vb[v].push_back(nvar(false)); const TT& d=T.vars[v].dom; if(!(d==TT_FULL)) s.addClause(table(v,d)); }
		return vb[v];
	}
	MS::Lit table(int v, const TT& t) { std::vector<bool> b(256); for(int i=0;i<256;i++) b[i]=t.get(i); return tab(v,8,b); }
	MS::Lit tab(int v, int k, const std::vector<bool>& t) {
		bool a0=true,a1=true; for(bool b: t) if(b) a0=false; else a1=false;
		if(a0) return ~tru; if(a1) return tru;
		std::vector<uint64_t> key((t.size()+63)/64,0); for(size_t i=0;i<t.size();i++) if(t[i]) key[i>>6]|=1ull<<(i&63);
		auto kk=std::make_tuple(v,k,key); auto it=tt.find(kk); if(it!=tt.end()) return it->second;
		size_t h=t.size()/2; std::vector<bool> lo(t.begin(),t.begin()+h), hi(t.begin()+h,t.end());
		MS::Lit r;
		if(lo==hi) r=tab(v,k-1,lo);
		else { MS::Lit c=MS::mkLit(bits(v)[k-1]); MS::Lit a=tab(v,k-1,hi), b=tab(v,k-1,lo); r=mux(c,a,b); }
		tt[kk]=r; return r;
	}
	MS::Lit mux(MS::Lit c, MS::Lit a, MS::Lit b) {
		if(a==b) return a;
		if(a==tru&&b==~tru) return c; if(a==~tru&&b==tru) return ~c;
		MS::Lit r=MS::mkLit(nvar(false));
		s.addClause(~c,~a,r); s.addClause(~c,a,~r); s.addClause(c,~b,r); s.addClause(c,b,~r); s.addClause(~a,~b,r); s.addClause(a,b,~r);
		return r;
	}
	MS::Lit lit(Lit l) { if(l<2) return l?tru:~tru; MS::Lit x=node(l>>1); return (l&1)?~x:x; }
	std::vector<MS::Lit> nl; std::vector<char> have;
	MS::Lit node(uint32_t n) {
		if(nl.size()<T.nodes.size()) { nl.resize(T.nodes.size()); have.resize(T.nodes.size(),0); }
		if(have[n]) return nl[n];
		Node nd=T.nodes[n]; MS::Lit r;
		if(nd.t==N_TT) r=table(nd.a,T.tts[nd.b]);
		else if(nd.t==N_AND) { MS::Lit a=lit(nd.a), b=lit(nd.b); r=MS::mkLit(nvar(false)); s.addClause(~r,a); s.addClause(~r,b); s.addClause(r,~a,~b); }
		else if(nd.t==N_ITE) { MS::Lit c=lit(nd.c),a=lit(nd.a),b=lit(nd.b); r=mux(c,a,b); }
		else { r=~tru; bool first=true; for(uint32_t i=0;i<nd.b;i++) { MS::Lit x=lit(T.arena[nd.a+i]); if(first) { r=x; first=false; continue; }
			MS::Lit q=MS::mkLit(nvar(false)); s.addClause(~q,r,x); s.addClause(~q,~r,~x); s.addClause(q,~r,x); s.addClause(q,r,~x); r=q; } }
		if(nl.size()<T.nodes.size()) { nl.resize(T.nodes.size()); have.resize(T.nodes.size(),0); }
		nl[n]=r; have[n]=1; return r;
	}
	void markDec(int v) { s.setDecisionVar(v,true); dec.push_back(v); }
	// roots: literals of the term DAG that must hold; doms: (byte var, allowed values)
	int check(const std::vector<Lit>& roots, const std::vector<std::pair<int,TT>>& doms) {
		MS::vec<MS::Lit> as; 
		for(int v: dec) s.setDecisionVar(v,false); dec.clear();
		for(Lit l: roots) as.push(lit(l));
		for(auto& d: doms) { bits(d.first); if(!(d.second==T.vars[d.first].dom)) as.push(table(d.first,d.second)); for(int b: vb[d.first]) markDec(b); }
		epoch++; if(mark.size()<T.nodes.size()) mark.resize(T.nodes.size(),0);
		std::vector<uint32_t> st; auto push=[&](Lit l){ if(l>1&&mark[l>>1]!=epoch) { mark[l>>1]=epoch; st.push_back(l>>1); } };
		for(Lit l: roots) push(l);
		while(!st.empty()) { uint32_t n=st.back(); st.pop_back(); const Node& nd=T.nodes[n]; 
			if(nd.t==N_AND) { push(nd.a); push(nd.b); markDec(MS::var(nl[n])); } else if(nd.t==N_ITE) { push(nd.a); push(nd.b); push(nd.c); markDec(MS::var(nl[n])); } else if(nd.t==N_XOR) for(uint32_t i=0;i<nd.b;i++) push(T.arena[nd.a+i]); }
		if(satConfBudget<0) s.budgetOff(); else s.setConfBudget(satConfBudget);
		MS::lbool r=s.solveLimited(as);
		if(r==MS::lbool((uint8_t)0)) return 1; if(r==MS::lbool((uint8_t)1)) return 0; return -1;
	}
	static long satConfBudget;
	int value(int v) { int x=0; for(int b=0;b<8;b++) if(s.model[vb[v][b]]==MS::lbool((uint8_t)0)) x|=1<<b; return x; }
};
long Sat::satConfBudget=-1;
static Sat* sat=nullptr;
