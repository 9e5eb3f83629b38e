#include <cstdarg>
#include <unistd.h>
// ysym: bit-precise symbolic executor for LLVM IR (see DESIGN.md).
#include "words.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Support/raw_ostream.h>
#include <signal.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <z3.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <set>
#include <deque>
#include <unordered_set>

using namespace llvm;
static Words W;
static Terms& T = W.T;
typedef SmallVector<Word,1> Val;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
#include <fcntl.h>
static std::string outBuf; static int lockFd=-1;
static void outFlush() { // workers share stdout: whole lines under a lock
	struct flock fl; memset(&fl,0,sizeof fl); fl.l_type=F_WRLCK; if(lockFd>=0) fcntl(lockFd,F_SETLKW,&fl);
	size_t p=0; while(p<outBuf.size()) { ssize_t k=write(1,outBuf.data()+p,outBuf.size()-p); if(k<=0) break; p+=k; } outBuf.clear();
	fl.l_type=F_UNLCK; if(lockFd>=0) fcntl(lockFd,F_SETLK,&fl);
}
static void outf(const char* fmt, ...) { char* q=nullptr; va_list ap; va_start(ap,fmt); int n=vasprintf(&q,fmt,ap); va_end(ap); if(n>0) outBuf.append(q,n); free(q); }
[[noreturn]] static void die(const std::string& m);
static std::string jesc(const std::string& s) { std::string o; for(char c: s) { if(c=='"'||c=='\\') { o+='\\'; o+=c; } else if((unsigned char)c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
[[noreturn]] static void die(const std::string& m) { outBuf+="{\"type\":\"error\",\"msg\":\""+jesc(m)+"\"}\n"; outFlush(); _exit(3); }

// ---------------------------------------------------------------- stats
static struct Stats { uint64_t instrs=0, branches=0, forks=0, paths=0, queries=0, qsat=0, qunsat=0, qunknown=0, zq=0, asserts=0, assertsByRewrite=0, assertsBySolver=0, violations=0, infeasible=0, reach=0, traces=0; double ztime=0; } S;

// ---------------------------------------------------------------- program
struct Gep { int64_t off; SmallVector<std::pair<int,int64_t>,2> idx; };
struct Inst {
	unsigned op; int dst=-1; SmallVector<int,4> o; unsigned w=0; // element width
	unsigned n=1; // number of words of result
	const Instruction* I=nullptr; int gep=-1; unsigned pred=0; int64_t imm=0; int b0=-1,b1=-1; const Function* callee=nullptr; int cid=-1;
	int sub=0;
};
struct Phi { int dst; SmallVector<std::pair<int,int>,2> in; };
struct Block { std::vector<Phi> phis; std::vector<Inst> ins; };
struct Fn { bool used=false; uint32_t feat=0; const Function* F=nullptr; std::vector<Block> blocks; unsigned nslots=0; SmallVector<int,8> args; std::vector<Gep> geps; };

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static DenseMap<const Function*, Fn*> fns;
static std::vector<Val> consts; static DenseMap<const Constant*, int> constIdx;
static DenseMap<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t,const Function*> faddr;

// ---------------------------------------------------------------- memory
typedef uint32_t MB; // <256 concrete, else 256 + word id (8-bit word)
struct ObjData { std::vector<MB> b; };
enum { OF_GLOBAL=1, OF_CONST=2, OF_FREED=4, OF_RO=8, OF_MUX=16, OF_HEAP=32, OF_SHARED=64, OF_EXEMPT=128, OF_C=256, OF_PAGE=512, OF_UNIT=1024 };
struct Obj { uint64_t base, size; std::shared_ptr<ObjData> d; uint32_t flags; uint32_t ver; const char* name; };
static uint32_t verCounter=1;

struct Frame { Fn* fn; int blk=0, idx=0; std::vector<Val> regs; int retDst=-1; size_t stackMark=0; uint64_t spMark=0; };
struct Input { int var; uint64_t v; const char* name; };
struct CpuRow { uint32_t leaf, sub; Word r[4]; };
struct State {
	std::vector<Frame> fr;
	std::vector<Obj> glob, heap, stack;
	uint64_t heapPtr=0x200000000000ull, stackPtr=0x600000000000ull;
	std::unordered_map<int,TT> dom;
	std::vector<Lit> cons; std::unordered_set<int> consVars;
	std::unordered_map<Lit,bool> known; // keyed by positive literal
	std::vector<uint8_t> model;
	std::vector<Input> inputs;
	std::vector<CpuRow> cpu; Word xcr0=C(64,0);
	std::vector<std::pair<std::string,std::vector<MB>>> obs;
	std::shared_ptr<DenseMap<Lit,Lit>> simpCache;
	int nvars=0; int nuninit=0;
	bool sharedRO=false, oob=false; int depth=0;
	bool quiet=false, forkIdx=false; uint32_t feat=0;
};

static std::map<std::string,long> params;
static std::map<std::string,int> varKey;
static std::set<std::string> assertMsgs;
static std::map<std::string,uint64_t> reachCount;
static std::vector<const char*> strPool;
static const char* internStr(const std::string& s) { static std::set<std::string> st; return st.insert(s).first->c_str(); }

// ---------------------------------------------------------------- Z3
static bool useZ3=false; static uint64_t xcheck=97; static double tStart;
static Z3_context zc=nullptr; static Z3_solver zs; static std::vector<Z3_ast> zlit; static std::vector<std::vector<Z3_ast>> zvar; static Z3_sort zbool; 
static void zinit() {
	if(zc) return;
	Z3_config cfg=Z3_mk_config(); zc=Z3_mk_context_rc(cfg); Z3_del_config(cfg);
	zbool=Z3_mk_bool_sort(zc);
	zs=Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc,"QF_FD")); Z3_solver_inc_ref(zc,zs);
	Z3_params p=Z3_mk_params(zc); Z3_params_inc_ref(zc,p); Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"timeout"), useZ3?120000:2000); Z3_solver_set_params(zc,zs,p);
	zlit.push_back(Z3_mk_false(zc)); Z3_inc_ref(zc,zlit[0]);
}
static Z3_ast zbit(int var, int b) {
	if((int)zvar.size()<=var) zvar.resize(var+1);
	auto& v=zvar[var];
	if(v.empty()) for(int i=0;i<8;i++) { char n[32]; snprintf(n,32,"v%d_%d",var,i); Z3_ast a=Z3_mk_const(zc,Z3_mk_string_symbol(zc,n),zbool); Z3_inc_ref(zc,a); v.push_back(a); }
	return v[b];
}
static std::map<std::tuple<int,int,std::vector<uint64_t>>,Z3_ast> ztt;
static Z3_ast zkeep(Z3_ast a) { Z3_inc_ref(zc,a); return a; }
// table of 2^k entries (k bits of the variable) as a decision DAG
static Z3_ast zTab(int var, int k, const std::vector<bool>& t) {
	bool all0=true, all1=true; for(bool b: t) { if(b) all0=false; else all1=false; }
	if(all0) return Z3_mk_false(zc); if(all1) return Z3_mk_true(zc);
	std::vector<uint64_t> key((t.size()+63)/64,0); for(size_t i=0;i<t.size();i++) if(t[i]) key[i>>6]|=1ull<<(i&63);
	auto kk=std::make_tuple(var,k,key); auto it=ztt.find(kk); if(it!=ztt.end()) return it->second;
	size_t h=t.size()/2; std::vector<bool> lo(t.begin(),t.begin()+h), hi(t.begin()+h,t.end());
	Z3_ast r = lo==hi ? zTab(var,k-1,lo) : Z3_mk_ite(zc, zbit(var,k-1), zTab(var,k-1,hi), zTab(var,k-1,lo));
	zkeep(r); ztt[kk]=r; return r;
}
static Z3_ast zTT(int var, const TT& t) { std::vector<bool> v(256); for(int i=0;i<256;i++) v[i]=t.get(i); return zTab(var,8,v); }
static Z3_ast zNode(uint32_t n) {
	if(zlit.size()<T.nodes.size()) zlit.resize(T.nodes.size(),nullptr);
	if(zlit[n]) return zlit[n];
	Node nd=T.nodes[n]; Z3_ast r;
	auto L=[&](Lit l)->Z3_ast { Z3_ast a=zNode(l>>1); return (l&1)?Z3_mk_not(zc,a):a; };
	if(nd.t==N_TT) r=zTT(nd.a, T.tts[nd.b]);
	else if(nd.t==N_AND) { Z3_ast x[2]; x[0]=zkeep(L(nd.a)); x[1]=zkeep(L(nd.b)); r=Z3_mk_and(zc,2,x); }
	else if(nd.t==N_ITE) { Z3_ast c=zkeep(L(nd.c)),a=zkeep(L(nd.a)),b=zkeep(L(nd.b)); r=Z3_mk_ite(zc,c,a,b); }
	else { r=nullptr; for(uint32_t i=0;i<nd.b;i++) { Z3_ast x=zkeep(L(T.arena[nd.a+i])); r = r? zkeep(Z3_mk_xor(zc,r,x)) : x; } }
	if(zlit.size()<T.nodes.size()) zlit.resize(T.nodes.size(),nullptr);
	zkeep(r); zlit[n]=r; return r;
}
static Z3_ast zLit(Lit l) { Z3_ast a=zNode(l>>1); return (l&1)?Z3_mk_not(zc,a):a; }

// support sets
static std::unordered_map<uint32_t, std::shared_ptr<std::vector<int>>> supCache;
static std::shared_ptr<std::vector<int>> supportOf(Lit l) {
	uint32_t n=l>>1; auto it=supCache.find(n); if(it!=supCache.end()) return it->second;
	std::vector<int> vs; std::vector<uint32_t> st{n}; std::unordered_set<uint32_t> seen{n};
	while(!st.empty()) { uint32_t x=st.back(); st.pop_back(); const Node& nd=T.nodes[x];
		auto push=[&](Lit q){ if(q>1&&seen.insert(q>>1).second) st.push_back(q>>1); };
		if(nd.t==N_TT) vs.push_back(nd.a); else if(nd.t==N_AND) { push(nd.a); push(nd.b); } else if(nd.t==N_ITE) { push(nd.a); push(nd.b); push(nd.c); }
		else if(nd.t==N_XOR) for(uint32_t i=0;i<nd.b;i++) push(T.arena[nd.a+i]); }
	std::sort(vs.begin(),vs.end()); vs.erase(std::unique(vs.begin(),vs.end()),vs.end());
	auto p=std::make_shared<std::vector<int>>(vs); supCache[n]=p; return p;
}
static TT domOf(const State& s, int v) { auto it=s.dom.find(v); return it==s.dom.end()?T.vars[v].dom:it->second; }

static uint8_t modelVal(const State& s, int v) { return v<(int)s.model.size()? s.model[v] : (uint8_t)T.vars[v].dom.first(); }
struct Evaluator {
	const State& s; DenseMap<uint32_t,char> memo;
	Evaluator(const State& st): s(st) {}
	bool lit(Lit l) { return node(l>>1)^(l&1); }
	bool node(uint32_t n) {
		if(n==0) return false; const Node& nd=T.nodes[n];
		if(nd.t==N_TT) return T.tts[nd.b].get(modelVal(s,nd.a));
		auto it=memo.find(n); if(it!=memo.end()) return it->second;
		bool r;
		if(nd.t==N_AND) r=lit(nd.a)&&lit(nd.b); else if(nd.t==N_ITE) r=lit(nd.c)?lit(nd.a):lit(nd.b);
		else { r=false; for(uint32_t i=0;i<nd.b;i++) r^=lit(T.arena[nd.a+i]); }
		memo[n]=r; return r;
	}
	uint64_t word(const Word& w) { if(!w.s) return w.v; uint64_t v=0; for(unsigned i=0;i<w.w;i++) v|=(uint64_t)lit(W.bit(w,i))<<i; return v; }
};
// simplify a literal under the path's domains and known literals
struct Simplifier {
	State& s; DenseMap<Lit,Lit>& memo;
	static DenseMap<Lit,Lit>& cache(State& s) { if(!s.simpCache) s.simpCache=std::make_shared<DenseMap<Lit,Lit>>(); return *s.simpCache; }
	Simplifier(State& st): s(st), memo(cache(st)) {}
	Lit lit(Lit l) { return node(l&~1u)^(l&1); }
	Lit node(Lit p) {
		if(p==0) return 0;
		auto k=s.known.find(p); if(k!=s.known.end()) return k->second?L1:L0;
		Node nd=T.nodes[p>>1];
		if(nd.t==N_TT) {
			auto d=s.dom.find(nd.a); if(d==s.dom.end()) return p;
			TT t=T.tts[nd.b]&d->second; if(t.empty()) return L0; if(t==d->second) return L1; return p;
		}
		auto it=memo.find(p); if(it!=memo.end()) return it->second;
		Lit r;
		if(nd.t==N_AND) { Lit a=lit(nd.a); r = a==L0?L0:T.mkAnd(a,lit(nd.b)); }
		else if(nd.t==N_ITE) { Lit c=lit(nd.c); r = c==L1?lit(nd.a):c==L0?lit(nd.b):T.mkIte(c,lit(nd.a),lit(nd.b)); }
		else { std::vector<Lit> v(nd.b); for(uint32_t i=0;i<nd.b;i++) v[i]=lit(T.arena[nd.a+i]); r=T.mkXor(v); }
		if(r!=p && r>1) { auto k2=s.known.find(r&~1u); if(k2!=s.known.end()) r=(k2->second?L1:L0)^(r&1); 
			else if(T.isTT(r)) { Lit q=r&~1u; Lit z=node(q); r=z^(r&1); } }
		memo[p]=r; return r;
	}
	Word word(const Word& w) { if(!w.s) return w; Lit x[64]; W.bits(w,x); for(unsigned i=0;i<w.w;i++) x[i]=lit(x[i]); return W.mk(x,w.w); }
};
static Word simpW(State& s, const Word& w) { if(!w.s) return w; if(s.dom.empty()&&s.known.empty()) return w; Simplifier q(s); return q.word(w); }
static Lit simpL(State& s, Lit l) { if(l<2) return l; if(s.dom.empty()&&s.known.empty()) return l; Simplifier q(s); return q.lit(l); }

#include "sat.h"
// is (path && c) satisfiable? on success *m (if given) becomes a model

static void initModel(State& s, std::vector<uint8_t>* m) {
	*m=s.model; m->resize(std::max(m->size(),T.vars.size()));
	for(size_t v=s.model.size();v<m->size();v++) (*m)[v]=T.vars[v].dom.first();
}
static int z3check(State& s, Lit c, const std::vector<Lit>& sel, const std::unordered_set<int>& vs, std::vector<uint8_t>* m) {
	zinit();
	Z3_solver_push(zc,zs);
	Z3_solver_assert(zc,zs,zLit(c));
	for(Lit l: sel) Z3_solver_assert(zc,zs,zLit(l));
	for(int v: vs) { TT d=domOf(s,v); if(!(d==TT_FULL)) Z3_solver_assert(zc,zs,zTT(v,d)); }
	Z3_lbool r=Z3_solver_check(zc,zs);
	if(r==Z3_L_TRUE && m) {
		initModel(s,m);
		Z3_model md=Z3_solver_get_model(zc,zs); Z3_model_inc_ref(zc,md);
		for(int v: vs) { int val=0; for(int b=0;b<8;b++) { Z3_ast o; if(Z3_model_eval(zc,md,zbit(v,b),1,&o)) if(Z3_get_bool_value(zc,o)==Z3_L_TRUE) val|=1<<b; } (*m)[v]=val; }
		Z3_model_dec_ref(zc,md);
	}
	Z3_solver_pop(zc,zs,1);
	return r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
}
static int solve(State& s, Lit c, std::vector<uint8_t>* m) {
	if(c==L0) return 0;
	S.queries++;
	double t0=now();
	// slice
	std::unordered_set<int> vs; std::vector<int> todo; 
	for(int v: *supportOf(c)) if(vs.insert(v).second) todo.push_back(v);
	std::vector<char> used(s.cons.size(),0); std::vector<Lit> sel;
	bool changed=true;
	while(changed) { changed=false;
		for(size_t i=0;i<s.cons.size();i++) if(!used[i]) {
			auto sp=supportOf(s.cons[i]); bool hit=false; for(int v: *sp) if(vs.count(v)) { hit=true; break; }
			if(hit) { used[i]=1; sel.push_back(s.cons[i]); changed=true; for(int v: *sp) vs.insert(v); }
		} }
	int res;
	static uint64_t qn=0; qn++;
	static double xtime=0; bool x = xcheck && (qn%xcheck)==0 && xtime < 0.1*(now()-tStart)+0.2;
	if(useZ3||x) { double tx=now(); res=z3check(s,c,sel,vs,useZ3?m:nullptr); S.zq++; xtime+=now()-tx; }
	if(!useZ3) {
		if(!sat) sat=new Sat();
		std::vector<Lit> roots(sel); roots.push_back(c); std::vector<std::pair<int,TT>> doms; for(int v: vs) doms.push_back({v,domOf(s,v)});
		int r2=sat->check(roots,doms);
		if(x && r2>=0 && res>=0 && r2!=res) die("solver disagreement between MiniSat and Z3");
		res=r2;
		if(res==1&&m) { initModel(s,m); for(int v: vs) (*m)[v]=sat->value(v); }
	}
	if(res==1) S.qsat++; else if(res==0) S.qunsat++; else S.qunknown++;
	S.ztime+=now()-t0;
	if(res<0) die("solver returned unknown");
	return res;
}

// add a constraint known to be consistent; model must already satisfy it (or m given)
static void addCons(State& s, Lit c) {
	if(c==L1) return;
	if(c==L0) die("adding false constraint");
	if(T.isTT(c)) { int v=T.ttVar(c); s.dom[v]=domOf(s,v)&T.ttOf(c); s.simpCache.reset(); return; }
	if(T.type(c)==N_AND && !(c&1)) { Lit a=T.nodes[c>>1].a,b=T.nodes[c>>1].b; addCons(s,a); addCons(s,b); return; }
	s.cons.push_back(c); for(int v: *supportOf(c)) s.consVars.insert(v);
	s.known[c&~1u]=!(c&1); s.simpCache.reset();
}
static void setModelVar(State& s, int v, uint8_t x) { if((int)s.model.size()<=v) { size_t o=s.model.size(); s.model.resize(v+1); for(size_t i=o;i<s.model.size();i++) s.model[i]=T.vars[i].dom.first(); } s.model[v]=x; }

// decide a literal on the path. returns bit0: can be false, bit1: can be true; mF/mT models for the side not satisfied by the current model
static int decide(State& s, Lit& c, std::vector<uint8_t>& other, bool& cur) {
	c=simpL(s,c);
	if(c==L0) return 1; if(c==L1) return 2;
	if(T.isTT(c) && !s.consVars.count(T.ttVar(c))) {
		int v=T.ttVar(c); TT d=domOf(s,v), t=d&T.ttOf(c);
		cur=t.get(modelVal(s,v));
		TT o = cur ? (d&~t) : t;
		if(o.empty()) return cur?2:1;
		other=s.model; if((int)other.size()<=v) { size_t q=other.size(); other.resize(v+1); for(size_t i=q;i<other.size();i++) other[i]=T.vars[i].dom.first(); }
		other[v]=o.first();
		return 3;
	}
	Evaluator ev(s); cur=ev.lit(c);
	if(solve(s, cur?c^1:c, &other)) return 3;
	// the other side is impossible: remember
	Lit k=cur?c:c^1; s.known[k&~1u]=!(k&1); s.simpCache.reset();
	return cur?2:1;
}

// ---------------------------------------------------------------- type helpers
static unsigned elemW(Type* t) {
	if(auto* v=dyn_cast<FixedVectorType>(t)) t=v->getElementType();
	if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth();
	if(t->isVoidTy()) return 0;
	if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32;
	std::string s; raw_string_ostream o(s); t->print(o); die("elemW: unsupported type "+o.str());
}
// number of words in the flattened representation
static unsigned nWords(Type* t) {
	if(auto* st=dyn_cast<StructType>(t)) { unsigned n=0; for(Type* e: st->elements()) n+=nWords(e); return n; }
	if(auto* at=dyn_cast<ArrayType>(t)) return at->getNumElements()*nWords(at->getElementType());
	if(auto* v=dyn_cast<FixedVectorType>(t)) return v->getNumElements()*nWords(v->getElementType());
	if(t->isIntegerTy()&&t->getIntegerBitWidth()>64) return (t->getIntegerBitWidth()+63)/64;
	if(t->isVoidTy()) return 0;
	return 1;
}
static void flatTypes(Type* t, uint64_t off, std::vector<std::pair<uint64_t,unsigned>>& out) { // (byte offset, width) of each word
	if(auto* st=dyn_cast<StructType>(t)) { auto* sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) flatTypes(st->getElementType(i),off+sl->getElementOffset(i),out); return; }
	if(auto* at=dyn_cast<ArrayType>(t)) { uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) flatTypes(at->getElementType(),off+i*es,out); return; }
	if(auto* v=dyn_cast<FixedVectorType>(t)) { unsigned w=elemW(v); if(w%8) die("vector of sub-byte elements in memory"); for(unsigned i=0;i<v->getNumElements();i++) out.push_back({off+i*w/8,w}); return; }
	if(t->isIntegerTy()&&t->getIntegerBitWidth()>64) { unsigned w=t->getIntegerBitWidth(); for(unsigned i=0;i<w;i+=64) out.push_back({off+i/8,std::min(64u,w-i)}); return; }
	out.push_back({off,elemW(t)});
}
struct MemT { std::vector<std::pair<uint64_t,unsigned>> f; uint64_t size; bool bytes; };
static DenseMap<Type*,MemT*> memTypes;
static MemT* memT(Type* t) { auto it=memTypes.find(t); if(it!=memTypes.end()) return it->second; auto* m=new MemT(); flatTypes(t,0,m->f); m->size=DL->getTypeStoreSize(t); memTypes[t]=m; return m; }

// ---------------------------------------------------------------- constants
static Val evalConst(const Constant* c);
static void flatConst(const Constant* c, Val& out) {
	Type* t=c->getType();
	if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
		std::vector<std::pair<uint64_t,unsigned>> f;
		if(auto* v=dyn_cast<FixedVectorType>(t)) { for(unsigned i=0;i<v->getNumElements();i++) out.push_back(C(elemW(v),0)); return; }
		flatTypes(t,0,f); for(auto& x: f) out.push_back(C(x.second,0)); return;
	}
	if(auto* ci=dyn_cast<ConstantInt>(c)) { unsigned w=ci->getBitWidth(); if(w<=64) out.push_back(C(w,ci->getZExtValue())); else { APInt v=ci->getValue(); for(unsigned i=0;i<w;i+=64) { unsigned k=std::min(64u,w-i); out.push_back(C(k,v.extractBits(k,i).getZExtValue())); } } return; }
	if(isa<ConstantPointerNull>(c)) { out.push_back(C(64,0)); return; }
	if(auto* cf=dyn_cast<ConstantFP>(c)) { APInt v=cf->getValueAPF().bitcastToAPInt(); out.push_back(C(v.getBitWidth(),v.getZExtValue())); return; }
	if(auto* cd=dyn_cast<ConstantDataSequential>(c)) { for(unsigned i=0;i<cd->getNumElements();i++) flatConst(cd->getElementAsConstant(i),out); return; }
	if(isa<ConstantAggregate>(c)) { for(unsigned i=0;i<c->getNumOperands();i++) flatConst(cast<Constant>(c->getOperand(i)),out); return; }
	if(auto* gv=dyn_cast<GlobalValue>(c)) { if(auto* ga=dyn_cast<GlobalAlias>(gv)) { flatConst(ga->getAliasee(),out); return; } auto it=gaddr.find(gv); if(it==gaddr.end()) die("no address for "+gv->getName().str()); out.push_back(C(64,it->second)); return; }
	if(auto* ce=dyn_cast<ConstantExpr>(c)) {
		if(auto* g=dyn_cast<GEPOperator>(ce)) { APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) die("const gep"); Val b; flatConst(cast<Constant>(g->getPointerOperand()),b); out.push_back(C(64,b[0].v+off.getZExtValue())); return; }
		if(ce->getOpcode()==Instruction::PtrToInt||ce->getOpcode()==Instruction::IntToPtr||ce->getOpcode()==Instruction::BitCast||ce->getOpcode()==Instruction::Trunc) { Val b; flatConst(ce->getOperand(0),b); if(b.size()!=1) die("const cast"); out.push_back(C(elemW(t),b[0].v)); return; }
		if(ce->getOpcode()==Instruction::Sub||ce->getOpcode()==Instruction::Add) { Val a,b; flatConst(ce->getOperand(0),a); flatConst(ce->getOperand(1),b); out.push_back(ce->getOpcode()==Instruction::Sub?C(elemW(t),a[0].v-b[0].v):C(elemW(t),a[0].v+b[0].v)); return; }
	}
	std::string s; raw_string_ostream o(s); c->print(o); die("constant: "+o.str());
}
static Val evalConst(const Constant* c) { Val v; flatConst(c,v); return v; }
static int constSlot(const Constant* c) { auto it=constIdx.find(c); if(it!=constIdx.end()) return it->second; consts.push_back(evalConst(c)); int i=-(int)consts.size(); constIdx[c]=i; return i; } // consts[-i-1]

// ---------------------------------------------------------------- decoding
// instruction sets a function was compiled for (harness/isa.h lists the bits)
static uint32_t featuresOf(const Function* F) {
	static const char* names[]={"ssse3","sse4.1","popcnt","avx","avx2","bmi","bmi2","lzcnt","pclmul","vpclmulqdq","avx512f","avx512bw","avx512vl","avx512vbmi2","evex512","avx512vbmi","gfni","vaes","sha","avx512dq","avx512cd","avx512bitalg","avx512vpopcntdq"};
	std::string a=","+F->getFnAttribute("target-features").getValueAsString().str()+","; uint32_t m=0;
	for(unsigned i=0;i<sizeof names/sizeof *names;i++) if(a.find(std::string(",+")+names[i]+",")!=std::string::npos) m|=1u<<i;
	if(m&4) { bool has=false; for(auto& b: *F) for(auto& i: b) if(auto* c=dyn_cast<CallBase>(&i)) if(auto* G=c->getCalledFunction()) if(G->getName().starts_with("llvm.ctpop")) has=true; if(!has) m&=~4u; } // implied by AVX for the compiler; counts where a bit count is computed
	return m;
}
static Fn* getFn(const Function* F) {
	auto it=fns.find(F); if(it!=fns.end()) return it->second;
	if(F->isDeclaration()) return nullptr;
	Fn* f=new Fn(); f->F=F; fns[F]=f; f->feat=featuresOf(F);
	DenseMap<const Value*,int> slot; DenseMap<const BasicBlock*,int> bidx;
	for(auto& a: F->args()) { slot[&a]=f->nslots; f->args.push_back(f->nslots++); }
	int bi=0; for(auto& b: *F) { bidx[&b]=bi++; for(auto& i: b) if(!i.getType()->isVoidTy()) slot[&i]=f->nslots++; }
	auto op=[&](const Value* v)->int { if(auto* c=dyn_cast<Constant>(v)) return constSlot(c); auto q=slot.find(v); if(q==slot.end()) { if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)||isa<BasicBlock>(v)) return -1; die("no slot"); } return q->second; };
	f->blocks.resize(bi);
	for(auto& b: *F) {
		Block& B=f->blocks[bidx[&b]];
		for(auto& i: b) {
			if(auto* p=dyn_cast<PHINode>(&i)) { Phi ph; ph.dst=slot[p]; for(unsigned k=0;k<p->getNumIncomingValues();k++) ph.in.push_back({bidx[p->getIncomingBlock(k)],op(p->getIncomingValue(k))}); B.phis.push_back(ph); continue; }
			if(isa<DbgInfoIntrinsic>(&i)) continue;
			Inst n; n.op=i.getOpcode(); n.I=&i; if(!i.getType()->isVoidTy()) { n.dst=slot[&i]; Type* t=i.getType(); if(t->isIntegerTy()||t->isPointerTy()||t->isVectorTy()) n.w=elemW(t); n.n=nWords(t); }
			if(auto* br=dyn_cast<BranchInst>(&i)) { n.b0=bidx[br->getSuccessor(0)]; if(br->isConditional()) { n.b1=bidx[br->getSuccessor(1)]; n.o.push_back(op(br->getCondition())); } }
			else if(auto* sw=dyn_cast<SwitchInst>(&i)) { n.o.push_back(op(sw->getCondition())); n.b0=bidx[sw->getDefaultDest()]; for(auto& cs: sw->cases()) { n.o.push_back(constSlot(cs.getCaseValue())); n.o.push_back(bidx[cs.getCaseSuccessor()]); } }
			else if(auto* g=dyn_cast<GetElementPtrInst>(&i)) {
				Gep gp; gp.off=0; n.o.push_back(op(g->getPointerOperand()));
				if(g->getType()->isVectorTy()) die("vector gep");
				auto gt=gep_type_begin(g);
				for(auto it=gt;it!=gep_type_end(g);++it) { const Value* idx=it.getOperand();
					if(StructType* st=it.getStructTypeOrNull()) gp.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
					else { int64_t sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto* ci=dyn_cast<ConstantInt>(idx)) gp.off+=ci->getSExtValue()*sz; else gp.idx.push_back({op(idx),sz}); } }
				n.gep=f->geps.size(); f->geps.push_back(gp);
			}
			else if(auto* cb=dyn_cast<CallBase>(&i)) { for(auto& a: cb->args()) n.o.push_back(op(a)); if(!cb->isInlineAsm()) { const Value* cv=cb->getCalledOperand()->stripPointerCasts(); if(auto* ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject(); n.callee=dyn_cast<Function>(cv); if(!n.callee) n.o.push_back(op(cb->getCalledOperand())); } }
			else { for(auto& u: i.operands()) n.o.push_back(op(u)); }
			if(auto* ic=dyn_cast<ICmpInst>(&i)) { n.pred=ic->getPredicate(); }
			B.ins.push_back(n);
		}
	}
	return f;
}

// ---------------------------------------------------------------- worklist / results
static std::vector<std::unique_ptr<State>> work;
static double tLimit=1e18; static uint64_t maxPaths=~0ull; static uint64_t instrLimit=20000000;
static std::string onlyProp; static bool lenient=false; static uint64_t seed=1;
static long maxTraces=2; static bool stopTask=false; static int maxViol=1; static uint64_t pathInstr=0;
struct PathEnd {};   // path finished (normally or not)

static void jsonInputs(State& s, std::string& o) {
	o+="\"inputs\":["; bool first=true;
	for(auto& in: s.inputs) { char b[64]; snprintf(b,64,"%s[\"%s\",%llu]", first?"":",", in.name, (unsigned long long)(in.var>=0?modelVal(s,in.var):in.v)); o+=b; first=false; }
	o+="]";
}
static std::string jsonParams() { std::string o="\"params\":{"; bool f=true; for(auto& p: params) { o+=(f?"":",")+std::string("\"")+p.first+"\":"+std::to_string(p.second); f=false; } return o+"}"; }
static void where(State& s, std::string& o) { o="["; for(int i=s.fr.size()-1;i>=0;i--) { o+=(i==(int)s.fr.size()-1?"\"":",\"")+s.fr[i].fn->F->getName().str()+"\""; } o+="]"; }
static void violation(State& s, const std::string& kind, const std::string& msg) {
	S.violations++;
	std::string o="{\"type\":\"violation\",\"kind\":\""+kind+"\",\"msg\":\""+jesc(msg)+"\","; std::string w; where(s,w); o+="\"stack\":"+w+","; jsonInputs(s,o); o+=","+jsonParams()+",\"oob\":"+(s.oob?"true":"false")+"}\n";
	outBuf+=o; outFlush();
	if((int)S.violations>=maxViol) stopTask=true;
	throw PathEnd();
}
static void trace(State& s) {
	Evaluator ev(s);
	std::string o="{\"type\":\"trace\","; jsonInputs(s,o); o+=","+jsonParams()+",\"obs\":["; bool first=true;
	for(auto& ob: s.obs) { o+=first?"[\"":",[\""; first=false; o+=ob.first+"\",\""; for(MB m: ob.second) { unsigned v = m<256? m : (unsigned)ev.word(Word{8,m-256,0}); char b[4]; snprintf(b,4,"%02x",v); o+=b; } o+="\"]"; }
	o+="]}\n"; outBuf+=o; S.traces++;
}

static std::unique_ptr<State> clone(State& s) { auto n=std::make_unique<State>(s); n->depth++; S.forks++; return n; }

// ---------------------------------------------------------------- memory access
static Obj* findIn(std::vector<Obj>& v, uint64_t a) {
	size_t lo=0, hi=v.size(); while(lo<hi) { size_t m=(lo+hi)/2; if(v[m].base<=a) lo=m+1; else hi=m; }
	if(!lo) return nullptr; Obj& o=v[lo-1]; if(a < o.base+o.size || (o.size==0&&a==o.base)) return &o; return nullptr;
}
static Obj* findObj(State& s, uint64_t a) {
	if(a>=0x600000000000ull) return findIn(s.stack,a);
	if(a>=0x200000000000ull) return findIn(s.heap,a);
	return findIn(s.glob,a);
}
static std::string describe(State& s, uint64_t a, uint64_t n) {
	char b[256]; Obj* best=nullptr; int64_t bd=1<<30;
	for(auto* v: {&s.glob,&s.heap,&s.stack}) for(auto& o: *v) { if(o.flags&OF_FREED) continue; int64_t d = a<o.base ? (int64_t)(o.base-a) : a>=o.base+o.size ? (int64_t)(a-(o.base+o.size)+1) : 0; if(d<bd) { bd=d; best=&o; } }
	if(best) snprintf(b,256,"access of %llu byte(s) at offset %lld of object '%s' (size %llu)", (unsigned long long)n, (long long)(a-best->base), best->name?best->name:"?", (unsigned long long)best->size);
	else snprintf(b,256,"access of %llu byte(s) at address %#llx", (unsigned long long)n, (unsigned long long)a);
	return b;
}
// In lenient mode (every check but the memory-safety ones) harness buffers grow on an out-of-bounds access: bytes read there are arbitrary.
static Obj* growFor(State& s, uint64_t a, uint64_t n, Obj* only=nullptr) {
	Obj* best=only; int64_t bd=2048;
	if(!only) for(auto& o: s.heap) { if(o.flags&OF_FREED) continue; int64_t d = a+n<o.base ? (int64_t)(o.base-a-n) : a>o.base+o.size ? (int64_t)(a-(o.base+o.size)) : 0; if(d<bd) { bd=d; best=&o; } }
	if(!best) return nullptr;
	auto d=std::make_shared<ObjData>(*best->d);
	if(a<best->base) { uint64_t k=best->base-a; d->b.insert(d->b.begin(),k,0xffffffffu); best->base=a; best->size+=k; }
	if(a+n>best->base+best->size) { best->size=a+n-best->base; d->b.resize(best->size,0xffffffffu); }
	best->d=d; s.oob=true; return best;
}
static Obj& checkAccess(State& s, uint64_t a, uint64_t n, bool write) {
	Obj* o=findObj(s,a);
	if(lenient && (!o || a+n > o->base+o->size) && a>=0x200000000000ull && a<0x600000000000ull) { if(Obj* g=growFor(s,a,n)) o=g; }
	if(!write && (!o || a+n > o->base+o->size)) // reads of other bytes in the pages (or 16 byte units) an object lies in, where that is allowed: arbitrary bytes
		for(auto& g: s.heap) if(unsigned sh=g.flags&OF_PAGE?12:g.flags&OF_UNIT?4:0) if(g.size && a>>sh>=g.base>>sh && (a+n-1)>>sh<=(g.base+g.size-1)>>sh) { o=growFor(s,a,n,&g); break; }
	if(!o || (o->flags&OF_FREED) || a+n > o->base+o->size) violation(s,"memory", std::string(write?"out-of-bounds write: ":"out-of-bounds read: ")+describe(s,a,n)+(o&&(o->flags&OF_FREED)?" (freed)":""));
	if(write) {
		if(o->flags&OF_CONST) violation(s,"memory","write to constant object "+describe(s,a,n));
		if((o->flags&OF_RO) && !lenient) violation(s,"memory","write to read-only buffer: "+describe(s,a,n));
		if(s.sharedRO && (o->flags&OF_SHARED)) violation(s,"shared","write to shared state after initialisation: "+describe(s,a,n));
	}
	return *o;
}
static MB freshUninit(State& s);
static inline MB rdByte(State& s, Obj& o, uint64_t i) { MB m=o.d->b[i]; if(m==0xffffffffu) { if(o.d.use_count()>1) o.d=std::make_shared<ObjData>(*o.d); m=freshUninit(s); o.d->b[i]=m; } return m; }
static inline void wrPrep(Obj& o) { if(o.d.use_count()>1) o.d=std::make_shared<ObjData>(*o.d); if(o.flags&OF_GLOBAL) o.ver=verCounter++; }
static inline MB toMB(const Word& w8) { return w8.s? 256+w8.s : (MB)w8.v; }
static inline Word fromMB(MB m) { return m<256? C(8,m) : Word{8,m-256,0}; }

static Word ldWord(State& s, Obj& o, uint64_t off, unsigned w) {
	unsigned nb=(w+7)/8; uint64_t v=0; bool conc=true; MB m[8];
	for(unsigned i=0;i<nb;i++) { m[i]=rdByte(s,o,off+i); if(m[i]>=256) conc=false; else v|=(uint64_t)m[i]<<(8*i); }
	if(conc) return C(w,v);
	if(w==8) return fromMB(m[0]);
	Lit x[64]; for(unsigned i=0;i<nb;i++) W.bits(fromMB(m[i]),x+8*i);
	return W.mk(x,w);
}
static void stWord(Obj& o, uint64_t off, const Word& w) {
	unsigned nb=(w.w+7)/8;
	if(!w.s) { for(unsigned i=0;i<nb;i++) o.d->b[off+i]=(w.v>>(8*i))&255; return; }
	if(w.w==8) { o.d->b[off]=toMB(w); return; }
	Lit x[72]; W.bits(w,x); for(unsigned i=w.w;i<nb*8;i++) x[i]=L0;
	for(unsigned i=0;i<nb;i++) o.d->b[off+i]=toMB(W.mk(x+8*i,8));
}
static void replaceRegs(State& s, const Word& from, const Word& to) {
	for(auto& f: s.fr) for(auto& r: f.regs) for(auto& w: r) if(w.s==from.s&&w.s) w=to;
}
// make a word concrete on this path, forking one state per other feasible value (they re-execute the current instruction)
static uint64_t concretize(State& s, Word w) {
	if(!w.s) return w.v;
	Word o=w; w=simpW(s,w);
	if(!w.s) { replaceRegs(s,o,w); return w.v; }
	uint64_t v=0;
	for(int i=w.w-1;i>=0;i--) {
		Lit c=W.bit(w,i); if(c<2) { v|=(uint64_t)c<<i; continue; }
		std::vector<uint8_t> other; bool cur=true; int r=decide(s,c,other,cur);
		if(r==3) { auto n=clone(s); n->model=other; addCons(*n,cur?c^1:c); work.push_back(std::move(n)); addCons(s,cur?c:c^1); }
		else cur = r==2;
		v|=(uint64_t)cur<<i;
	}
	replaceRegs(s,o,C(w.w,v)); if(o.s!=w.s) replaceRegs(s,w,C(w.w,v));
	return v;
}
// ---- table lookups with symbolic index: decision DAG over the address bits
struct TabDD { // per (object base, version, residual byte offset, shift)
	struct N { int lo, hi; int bit; MB leaf; };
	std::vector<N> n; int root;
};
static std::map<std::tuple<uint64_t,uint32_t,uint64_t,unsigned>,std::unique_ptr<TabDD>> tabs;
static TabDD* getTab(Obj& o, uint64_t resid, unsigned sh) {
	auto k=std::make_tuple(o.base,o.ver,resid,sh); auto it=tabs.find(k); if(it!=tabs.end()) return it->second.get();
	auto t=std::make_unique<TabDD>();
	unsigned nb=0; while(((uint64_t)1<<(nb+sh))<o.size) nb++;
	uint64_t cnt=1ull<<nb; std::map<MB,int> leaf; std::map<std::tuple<int,int,int>,int> in;
	std::vector<int> cur(cnt); 
	for(uint64_t i=0;i<cnt;i++) { uint64_t off=(i<<sh)+resid; MB m = off<o.size? o.d->b[off] : 0; if(m==0xffffffffu) m=0; auto r=leaf.emplace(m,(int)t->n.size()); if(r.second) t->n.push_back(TabDD::N{-1,-1,-1,m}); cur[i]=r.first->second; }
	for(unsigned b=0;b<nb;b++) { std::vector<int> nx(cur.size()/2); for(size_t i=0;i<nx.size();i++) { int lo=cur[2*i],hi=cur[2*i+1]; if(lo==hi) { nx[i]=lo; continue; } auto r=in.emplace(std::make_tuple((int)b,lo,hi),(int)t->n.size()); if(r.second) t->n.push_back(TabDD::N{lo,hi,(int)b,0}); nx[i]=r.first->second; } cur.swap(nx); }
	t->root=cur[0]; TabDD* p=t.get(); tabs[k]=std::move(t); return p;
}
static Word instTab(TabDD* t, const Lit* idx) { // idx[b] literal for index bit b
	std::vector<char> have(t->n.size(),0); std::vector<Word> val(t->n.size());
	std::function<Word(int)> rec=[&](int n)->Word {
		if(have[n]) return val[n]; TabDD::N& nd=t->n[n]; Word r;
		if(nd.bit<0) r=fromMB(nd.leaf); else { Lit c=idx[nd.bit]; r = c==L1?rec(nd.hi): c==L0?rec(nd.lo): W.select(c,rec(nd.hi),rec(nd.lo)); }
		have[n]=1; val[n]=r; return r;
	};
	return rec(t->root);
}
// affine table (e.g. CRC slices): value = T[0] ^ XOR of T[1<<b]^T[0] over set bits
static std::map<std::tuple<uint64_t,uint32_t,uint64_t,unsigned>,int> affine;
static bool isAffine(Obj& o, uint64_t resid, unsigned sh, unsigned nbits) {
	auto k=std::make_tuple(o.base,o.ver,resid,sh); auto it=affine.find(k); if(it!=affine.end()) return it->second;
	bool ok=true; uint64_t cnt=1ull<<nbits;
	auto at=[&](uint64_t i)->int { uint64_t off=(i<<sh)+resid; if(off>=o.size) return -1; MB m=o.d->b[off]; return m<256?(int)m:-1; };
	if(((cnt-1)<<sh)+resid >= o.size) ok=false;
	for(uint64_t i=0;i<cnt&&ok;i++) { int v=at(i); if(v<0) { ok=false; break; } if(i&(i-1)) { uint64_t lowb=i&-i; int a=at(i^lowb), b=at(lowb), z=at(0); if(v!=(a^b^z)) ok=false; } }
	affine[k]=ok; return ok;
}
// table whose entries are affine (over GF(2)) in the symbolic address bits, e.g. CRC slices: any object, any set of at most 12 symbolic bits
struct AffTab { std::shared_ptr<ObjData> keep; bool ok; };
static std::map<std::tuple<const ObjData*,uint64_t,uint64_t,uint64_t>,AffTab> affTabs;
static bool loadAffine(State& s, const Word& addr, MemT* mt, Val& out) {
	Lit ab[64]; W.bits(addr,ab); uint64_t c=0, mask=0; SmallVector<int,12> sb;
	for(int i=0;i<64;i++) if(ab[i]>1) { if(sb.size()>=12) return false; sb.push_back(i); mask|=1ull<<i; } else c|=(uint64_t)(ab[i]&1)<<i;
	if(sb.size()<3) return false;
	Obj* o=findObj(s,c); if(!o||(o->flags&OF_FREED)||c+mask+mt->size>o->base+o->size) return false;
	unsigned bits=0; for(auto& f: mt->f) bits+=f.second; if(bits>512) return false;
	auto key=std::make_tuple((const ObjData*)o->d.get(),c-o->base,mask,mt->size); auto it=affTabs.find(key);
	auto sub=[&](unsigned i) { uint64_t a=0; for(size_t k=0;k<sb.size();k++) if((i>>k)&1) a|=1ull<<sb[k]; return a; };
	uint64_t off=c-o->base;
	if(it==affTabs.end()) {
		bool ok=true;
		for(uint64_t q=0;q<mt->size&&ok;q++) { MB z=o->d->b[off+q]; if(z>=256) { ok=false; break; }
			for(unsigned i=1;i<(1u<<sb.size())&&ok;i++) { MB v=o->d->b[off+sub(i)+q]; if(v>=256) ok=false; else if(i&(i-1)) { unsigned lb=i&-i; if(v!=(o->d->b[off+sub(i^lb)+q]^o->d->b[off+sub(lb)+q]^z)) ok=false; } } }
		it=affTabs.emplace(key,AffTab{o->d,ok}).first;
	}
	if(!it->second.ok) return false;
	for(auto& f: mt->f) { Lit x[64]; for(unsigned k=0;k<f.second;k++) { uint64_t q=off+f.first+k/8; unsigned b=k&7; unsigned z=o->d->b[q]; std::vector<Lit> l; l.push_back((z>>b)&1); for(size_t j=0;j<sb.size();j++) if(((o->d->b[q+(1ull<<sb[j])]^z)>>b)&1) l.push_back(ab[sb[j]]); x[k]=T.mkXor(l); } out.push_back(W.mk(x,f.second)); }
	return true;
}
// address that depends on one input byte only: tabulate the loaded value over that byte's remaining values
static bool loadOneVar(State& s, const Word& addr, MemT* mt, Val& out) {
	Lit ab[64]; W.bits(addr,ab); int var=-1;
	for(int i=0;i<64;i++) if(ab[i]>1) { if(!T.isTT(ab[i])) return false; int v=T.ttVar(ab[i]); if(var<0) var=v; else if(v!=var) return false; }
	if(var<0) return false;
	TT dom=T.vars[var].dom; auto it=s.dom.find(var); if(it!=s.dom.end()) dom=dom&it->second;
	TT at[64]; for(int i=0;i<64;i++) if(ab[i]>1) at[i]=T.ttOf(ab[i]);
	unsigned bits=0; for(auto& f: mt->f) bits+=f.second; if(bits>512) return false;
	std::vector<TT> res(bits,TT_ZERO); Obj* o=nullptr;
	for(int x=0;x<256;x++) if(dom.get(x)) {
		uint64_t a=0; for(int i=0;i<64;i++) a|=(uint64_t)(ab[i]>1? at[i].get(x): (ab[i]&1))<<i;
		if(!o||a<o->base||a+mt->size>o->base+o->size) { o=findObj(s,a); if(!o||(o->flags&OF_FREED)||a+mt->size>o->base+o->size) return false; }
		unsigned p=0;
		for(auto& f: mt->f) for(unsigned k=0;k<f.second;k+=8) { MB m=o->d->b[a-o->base+f.first+k/8]; if(m>=256) return false; for(unsigned b=0;b<8&&k+b<f.second;b++,p++) if((m>>b)&1) res[p].set(x); }
	}
	unsigned p=0; for(auto& f: mt->f) { Lit x[64]; for(unsigned b=0;b<f.second;b++,p++) x[b]= res[p].empty()? L0 : res[p]==dom? L1 : T.mkTT(var,res[p]); out.push_back(W.mk(x,f.second)); }
	return true;
}
static bool bitVec(Type* t) { auto* v=dyn_cast<FixedVectorType>(t); return v && elemW(v)<8; } // vectors of i1 live in memory as integers
static Val load(State& s, const Word& addrIn, Type* t, unsigned align) {
	if(bitVec(t)) {
		unsigned n=cast<FixedVectorType>(t)->getNumElements(); if(elemW(t)!=1||n>64) die("bit vector in memory");
		Val iv=load(s,addrIn,Type::getIntNTy(t->getContext(),n),align), r; for(unsigned i=0;i<n;i++) { Lit l=W.bit(iv[0],i); r.push_back(W.mk(&l,1)); } return r;
	}
	MemT* mt=memT(t); Word addr=addrIn;
	if(addr.s) {
		addr=simpW(s,addr);
		if(addr.s) {
			if(!T.anf && (!s.forkIdx || mt->size<=8)) { Val ov; if(loadOneVar(s,addr,mt,ov)) return ov; }
			{ Val ov; if(loadAffine(s,addr,mt,ov)) return ov; }
			Obj* o=nullptr; if(!s.forkIdx) { Evaluator ev(s); uint64_t mv=ev.word(addr); o=findObj(s,mv); if(o && mv+mt->size>o->base+o->size) o=nullptr; }
			if(o && (o->flags&(OF_GLOBAL|OF_MUX))) {
				// all address bits above the object must be constant, low bits < size
				unsigned ob=0; while((1ull<<ob)<o->size) ob++;
				Lit ab[64]; W.bits(addr,ab); bool ok=true; unsigned sh=64, nsym=0;
				for(unsigned i=0;i<64;i++) if(ab[i]>1) { if(i>=ob) ok=false; if(sh==64) sh=i; nsym++; }
				if(ok && (o->base&((1ull<<ob)-1))==0 && nsym<=20) {
					// in range on every value of the path?
					Lit bad = W.ult(C(64,o->base+o->size-mt->size), addr);
					if(bad!=L0) { std::vector<uint8_t> m; bad=simpL(s,bad); if(bad!=L0 && solve(s,bad,&m)) { s.model=m; Evaluator e2(s); violation(s,"memory","out-of-bounds read: "+describe(s,e2.word(addr),mt->size)); } }
					// residual low bits below sh are constant
					uint64_t resid=0; for(unsigned i=0;i<sh;i++) resid|=(uint64_t)(ab[i]&1)<<i;
					Val v; unsigned nbits=ob-sh;
					bool dense=true; for(unsigned i=sh;i<ob;i++) if(ab[i]<2) dense=false;
					for(auto& f: mt->f) {
						unsigned nb=(f.second+7)/8; Lit x[64];
						for(unsigned k=0;k<nb;k++) {
							uint64_t bo=resid+f.first+k; // may exceed 1<<sh: fold into index
							uint64_t r2=bo; Word by;
							if(T.anf || (dense && isAffine(*o,r2,sh,nbits))) {
								if(!isAffine(*o,r2,sh,nbits)) { TabDD* td=getTab(*o,r2,sh); by=instTab(td,ab+sh); W.bits(by,x+8*k); continue; }
								auto at=[&](uint64_t i)->unsigned { return o->d->b[(i<<sh)+r2]; };
								unsigned z=at(0);
								for(unsigned q=0;q<8;q++) { std::vector<Lit> l; l.push_back((z>>q)&1); for(unsigned b=0;b<nbits;b++) if(((at(1ull<<b)^z)>>q)&1) l.push_back(ab[sh+b]); x[k*8+q]=T.mkXor(l); }
								continue;
							}
							TabDD* td=getTab(*o,r2,sh); by=instTab(td,ab+sh);
							W.bits(by,x+8*k);
						}
						v.push_back(W.mk(x,f.second));
					}
					return v;
				}
			}
			addr=C(64,concretize(s,addr));
		}
	}
	if(align>=16 && mt->size>=16 && (addr.v&(align-1))) violation(s,"alignment","misaligned vector load: "+describe(s,addr.v,mt->size));
	Obj& o=checkAccess(s,addr.v,mt->size,false);
	Val v; uint64_t off=addr.v-o.base; for(auto& f: mt->f) v.push_back(ldWord(s,o,off+f.first,f.second)); return v;
}
static void store(State& s, const Word& addr, const Val& v, Type* t, unsigned align) {
	if(bitVec(t)) { Lit x[64]; unsigned n=v.size(); if(elemW(t)!=1||n>64) die("bit vector in memory"); for(unsigned i=0;i<n;i++) x[i]=W.bit(v[i],0); Val iv; iv.push_back(W.mk(x,n)); store(s,addr,iv,Type::getIntNTy(t->getContext(),n),align); return; }
	MemT* mt=memT(t); uint64_t a=concretize(s,addr);
	if(align>=16 && mt->size>=16 && (a&(align-1))) violation(s,"alignment","misaligned vector store: "+describe(s,a,mt->size));
	Obj& o=checkAccess(s,a,mt->size,true); wrPrep(o);
	uint64_t off=a-o.base; for(size_t i=0;i<mt->f.size();i++) stWord(o,off+mt->f[i].first,v[i]);
}
static uint64_t alignUp(uint64_t a, uint64_t n) { return (a+n-1)/n*n; }
static uint64_t allocHeap(State& s, uint64_t size, const char* name, uint32_t flags, uint64_t align=64, uint64_t off=0, bool zero=false) {
	uint64_t a=alignUp(s.heapPtr,std::max<uint64_t>(align,4096))+off; s.heapPtr=a+size+8192;
	auto d=std::make_shared<ObjData>(); d->b.assign(size, zero?0:0xffffffffu);
	s.heap.push_back(Obj{a,size,d,flags|OF_HEAP,0,name}); return a;
}
static std::string cstr(State& s, uint64_t a) { std::string r; Obj* o=findObj(s,a); if(!o) return "?"; for(uint64_t i=a-o->base;i<o->size&&o->d->b[i];i++) r+=(char)o->d->b[i]; return r; }

static int getVar(const std::string& name, const TT& dom, int order) {
	char k[96]; snprintf(k,96,"%d:%016llx%016llx%016llx%016llx",order,(unsigned long long)dom.w[0],(unsigned long long)dom.w[1],(unsigned long long)dom.w[2],(unsigned long long)dom.w[3]);
	auto it=varKey.find(k); if(it!=varKey.end()) return it->second;
	int v=T.newVar(name,dom,order); varKey[k]=v; return v;
}
static Word varWord(int v, unsigned w) {
	Lit x[8]; for(unsigned b=0;b<w;b++) { TT t=TT_ZERO; for(int i=0;i<256;i++) if((i>>b)&1) t.set(i); x[b]=T.mkTT(v,t); }
	return W.mk(x,w);
}
static Word newInput(State& s, const std::string& name, const TT& dom, unsigned w=8) {
	uint64_t ord=s.nvars; int v=getVar(name,dom,s.nvars++);
	if(v>=(int)s.model.size() && !(dom.count()==1)) { // arbitrary (seeded) first model, so that traces differ
		size_t k=s.model.size(); s.model.resize(v+1); for(;k<s.model.size();k++) s.model[k]=T.vars[k].dom.first();
		uint64_t h=(ord+seed*1000003)*0x9E3779B97F4A7C15ull; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; int i=h&255; while(!dom.get(i)) i=(i+1)&255; s.model[v]=i;
	} s.inputs.push_back(Input{v,0,internStr(name)});
	return varWord(v,w);
}
static MB freshUninit(State& s) { int v=getVar("uninit",TT_FULL,1000000+s.nuninit++); return toMB(varWord(v,8)); }

// ---------------------------------------------------------------- asserts
static void doAssert(State& s, Lit bad, const std::string& msg) {
	if(!onlyProp.empty() && msg.size()>4 && msg[0]=='C' && msg[3]==':' && msg.compare(0,3,onlyProp)) return;
	S.asserts++; assertMsgs.insert(msg);
	bad=simpL(s,bad);
	if(bad==L0) { S.assertsByRewrite++; return; }
	std::vector<uint8_t> m;
	Evaluator ev(s);
	S.assertsBySolver++;
	if(ev.lit(bad)) { violation(s,"assert",msg); }
	if(solve(s,bad,&m)) { s.model=m; violation(s,"assert",msg); }
	s.known[bad&~1u]=(bad&1); s.simpCache.reset();
}
#include "exec.h"
#include "main.h"
