// instruction semantics, intrinsics and the main loop
#define REG(i) ((i)<0?consts[-(i)-1]:f->regs[i])

static void flatLits(const Val& v, std::vector<Lit>& o) { for(auto& w: v) { size_t n=o.size(); o.resize(n+w.w); W.bits(w,&o[n]); } }
static Val regroup(const Val& v, unsigned n, unsigned w, unsigned total) {
	Val r;
	bool conc=true; for(auto& x: v) if(x.s) { conc=false; break; }
	// fast paths
	if(conc && v.size()&&v[0].w%8==0 && w%8==0) {
		std::vector<uint8_t> b; for(auto& x: v) for(unsigned i=0;i<x.w;i+=8) b.push_back(x.v>>i);
		size_t p=0; for(unsigned i=0;i<n;i++) { unsigned ww=std::min<unsigned>(w,total-i*w); uint64_t q=0; for(unsigned k=0;k<ww;k+=8) q|=(uint64_t)b[p++]<<k; r.push_back(C(ww,q)); }
		return r;
	}
	std::vector<Lit> l; flatLits(v,l);
	size_t p=0; for(unsigned i=0;i<n;i++) { unsigned ww=std::min<unsigned>(w,total-i*w); r.push_back(W.mk(&l[p],ww)); p+=ww; }
	return r;
}
static Word satAdd(const Word& a, const Word& b, bool sg, bool sub) {
	unsigned w=a.w; Word x= sg?W.sext(a,w+1):W.zext(a,w+1), y=sg?W.sext(b,w+1):W.zext(b,w+1);
	if(!sg) { Word r=sub?W.sub(x,y):W.add(x,y); Lit ov=W.bit(r,w); return W.select(ov, C(w, sub?0:~0ull), W.trunc(r,w)); }
	Word x2=W.sext(a,w+2>64?64:w+2), y2=W.sext(b,w+2>64?64:w+2); Word r=sub?W.sub(x2,y2):W.add(x2,y2);
	Lit sgn=W.bit(r,r.w-1), t=W.bit(r,w-1); // overflow if sign differs from bit w-1 within range
	Lit ov=T.mkXor2(W.bit(r,w),t);
	return W.select(ov, W.select(sgn, C(w,1ull<<(w-1)), C(w,(1ull<<(w-1))-1)), W.trunc(r,w));
}
static Word mux16(const Val& tab, unsigned base, const Word& idx, unsigned nb) { // tab[base + idx(low nb bits)]
	if(!idx.s) return tab[base+(idx.v&((1u<<nb)-1))];
	std::vector<Word> cur; for(unsigned i=0;i<(1u<<nb);i++) cur.push_back(tab[base+i]);
	for(unsigned b=0;b<nb;b++) { std::vector<Word> nx; Lit c=W.bit(idx,b); for(size_t i=0;i<cur.size();i+=2) nx.push_back(W.select(c,cur[i+1],cur[i])); cur.swap(nx); }
	return cur[0];
}
static void clmul(const Word& a, const Word& b, Lit* out128) {
	Lit x[64],y[64]; W.bits(a,x); W.bits(b,y);
	std::vector<Lit> acc;
	for(int k=0;k<128;k++) { acc.clear(); for(int i=std::max(0,k-63);i<=std::min(63,k);i++) { if(x[i]==L0||y[k-i]==L0) continue; Lit p=T.mkAnd(x[i],y[k-i]); if(p!=L0) acc.push_back(p); } out128[k]=T.mkXor(acc); }
}
static Word crcStep(const Word& c, const Word& d, unsigned n, uint32_t poly) { // a CRC instruction: n bits of d, lowest first
	Lit r[32]; W.bits(c,r);
	for(unsigned i=0;i<n;i++) { Lit fb=T.mkXor2(r[0],W.bit(d,i)); for(int b=0;b<31;b++) r[b]=r[b+1]; r[31]=L0; for(int b=0;b<32;b++) if((poly>>b)&1) r[b]=T.mkXor2(r[b],fb); }
	return W.mk(r,32);
}
// Interpreter for AT&T inline assembler on 64-bit words: moves, loads, arithmetic, local labels. Operands $n and named registers.
static int64_t asmExpr(const char*& p, int lvl=0) {
	auto ws=[&]{ while(isspace((unsigned char)*p)) p++; };
	ws(); int64_t v;
	if(lvl==2) { if(*p=='(') { p++; v=asmExpr(p); ws(); if(*p!=')') die("asm expression"); p++; return v; } if(*p=='-') { p++; return -asmExpr(p,2); } char* e; v=(int64_t)strtoull(p,&e,0); if(e==p) die(std::string("asm expression ")+p); p=e; return v; }
	v=asmExpr(p,lvl+1);
	for(;;) { ws(); char c=*p; if(lvl==0&&(c=='+'||c=='-')) { p++; int64_t r=asmExpr(p,1); v= c=='+'? v+r : v-r; } else if(lvl==1&&(c=='*'||c=='/')) { p++; int64_t r=asmExpr(p,2); v= c=='*'? v*r : v/r; } else return v; }
}
static void runX86(State& s, const std::string& a, std::vector<Word>& opnd, const Word& cx) {
	std::vector<std::string> lines; { std::string t; for(char c: a) { if(c=='\n'||c==';') { lines.push_back(t); t=""; } else t+=c; } lines.push_back(t); }
	auto trim=[](std::string t) { size_t b=t.find_first_not_of(" \t\r"), e=t.find_last_not_of(" \t\r"); return b==std::string::npos? std::string() : t.substr(b,e-b+1); };
	std::map<std::string,Word> rg; rg["rcx"]=cx;
	auto reg=[&](const std::string& n)->Word& { auto it=rg.find(n); if(it==rg.end()) { Lit u[64]; for(int q=0;q<8;q++) W.bits(fromMB(freshUninit(s)),u+8*q); it=rg.emplace(n,W.mk(u,64)).first; } return it->second; };
	struct Loc { Word* r; unsigned sh, w; };
	// a register operand: w==0 leaves the width to the instruction
	auto loc=[&](const std::string& o)->Loc {
		if(o[0]=='$') { unsigned w=0, sh=0; int q=atoi(o.c_str()+(o[1]=='{'?2:1)); size_t c=o.find(':'); if(c!=std::string::npos) switch(o[c+1]) { case 'b': w=8; break; case 'w': w=16; break; case 'k': w=32; break; case 'q': w=64; break; case 'h': w=8; sh=8; break; default: die("asm operand "+o); } if(q<0||(size_t)q>=opnd.size()) die("asm operand "+o); return {&opnd[q],sh,w}; }
		std::string n=o.substr(1); std::string f; unsigned w=64, sh=0; 
		if(n.size()==3&&n[0]=='r'&&!isdigit(n[1])) f=n;
		else if(n.size()==3&&n[0]=='e') { f="r"+n.substr(1); w=32; }
		else if(n.size()==2&&n[1]=='x') { f="r"+n; w=16; } else if(n.size()==2&&(n[1]=='i'||n[1]=='p')) { f="r"+n; w=16; }
		else if(n.size()==2&&n[1]=='l') { f=std::string("r")+n[0]+"x"; w=8; } else if(n.size()==2&&n[1]=='h') { f=std::string("r")+n[0]+"x"; w=8; sh=8; }
		else if(n.size()==3&&n[2]=='l') { f="r"+n.substr(0,2); w=8; }
		else if(n[0]=='r'&&isdigit(n[1])) { char c=n.back(); f=n; if(!isdigit(c)) { f.pop_back(); w= c=='d'?32: c=='w'?16: 8; } }
		else die("asm register "+o);
		return {&reg(f),sh,w};
	};
	auto rd=[&](const Loc& l, unsigned w)->Word { Word v=*l.r; return l.sh? W.extract(v,l.sh,w) : W.trunc(v,w); };
	auto wr=[&](const Loc& l, const Word& v) { if(v.w>=32) { *l.r=W.zext(v,64); return; } Lit o[64],n[64]; W.bits(*l.r,o); W.bits(v,n); for(unsigned i=0;i<v.w;i++) o[l.sh+i]=n[i]; *l.r=W.mk(o,64); };
	auto isReg=[&](const std::string& o) { return o[0]=='%' || (o[0]=='$'&&o[1]!='$'&&o.find('(')==std::string::npos); };
	auto isImm=[&](const std::string& o) { return o.compare(0,2,"$$")==0; };
	auto addr=[&](const std::string& o)->Word {
		size_t d=o.rfind('('); if(d==std::string::npos||o.back()!=')') die("asm operand "+o);
		std::string in=o.substr(d+1,o.size()-d-2), disp=trim(o.substr(0,d)); std::vector<std::string> pt; { std::string t; for(char c: in) { if(c==',') { pt.push_back(trim(t)); t=""; } else t+=c; } pt.push_back(trim(t)); }
		Word v=C(64,0); if(!disp.empty()) { const char* p=disp.c_str(); v=C(64,(uint64_t)asmExpr(p)); if(*p) die("asm displacement "+o); }
		if(!pt[0].empty()) v=W.add(v,rd(loc(pt[0]),64));
		if(pt.size()>1&&!pt[1].empty()) { int64_t sc=1; if(pt.size()>2) { const char* p=pt[2].c_str(); sc=asmExpr(p); } v=W.add(v,W.shift(rd(loc(pt[1]),64),C(64,sc==8?3:sc==4?2:sc==2?1:0),0)); }
		return v;
	};
	auto get=[&](const std::string& o, unsigned w)->Word {
		if(isImm(o)) { const char* p=o.c_str()+2; int64_t v=asmExpr(p); if(*p) die("asm immediate "+o); return C(w,(uint64_t)v); }
		if(isReg(o)) return rd(loc(o),w);
		Val v=load(s,addr(o),Type::getIntNTy(M->getContext(),w),1); return v[0];
	};
	auto put=[&](const std::string& o, const Word& v) { if(isImm(o)) die("asm destination"); if(isReg(o)) wr(loc(o),v); else { Val x; x.push_back(v); store(s,addr(o),x,Type::getIntNTy(M->getContext(),v.w),1); } };
	Lit CF=L0, ZF=L0; bool cfOk=false, zfOk=false; uint64_t steps=0;
	for(size_t pc=0;pc<lines.size();pc++) {
		if(++steps>1000000) die("asm steps");
		std::string l=trim(lines[pc]); size_t cm=l.find('#'); if(cm!=std::string::npos) l=trim(l.substr(0,cm));
		while(!l.empty()) { size_t c=0; while(c<l.size()&&(isalnum((unsigned char)l[c])||l[c]=='_'||l[c]=='.')) c++; if(c&&c<l.size()&&l[c]==':') l=trim(l.substr(c+1)); else break; }
		if(l.empty()) continue;
		size_t e=l.find_first_of(" \t"); std::string m=l.substr(0,e); std::vector<std::string> op;
		if(e!=std::string::npos) { std::string t; int dp=0; for(char c: l.substr(e)) { if(c=='(') dp++; if(c==')') dp--; if(c==','&&!dp) { op.push_back(trim(t)); t=""; } else t+=c; } op.push_back(trim(t)); }
		if(m[0]=='.'||m=="nop"||m=="pause"||m.compare(0,8,"prefetch")==0) continue;
		if(m[0]=='j') {
			Lit c; if(m=="jmp") c=L1;
			else { bool nC= m=="jb"||m=="jc"||m=="jae"||m=="jnc"||m=="ja"||m=="jbe", nZ= m=="je"||m=="jz"||m=="jne"||m=="jnz"||m=="ja"||m=="jbe"; if(!(nC||nZ)||(nC&&!cfOk)||(nZ&&!zfOk)) die("asm condition "+l);
				if(m=="jb"||m=="jc") c=CF; else if(m=="jae"||m=="jnc") c=CF^1; else if(m=="je"||m=="jz") c=ZF; else if(m=="jne"||m=="jnz") c=ZF^1; else { Lit be=T.mkIte(CF,L1,ZF); c= m=="ja"? be^1 : be; } }
			bool tk; if(c<=1) tk= c==L1; else { Word w1=W.mk(&c,1); tk=concretize(s,w1)&1; }
			if(!tk) continue;
			std::string n=op[0]; char dir=n.back(); n.pop_back(); long at=-1;
			auto has=[&](size_t k) { return trim(lines[k]).compare(0,n.size()+1,n+":")==0; };
			if(dir=='f') { for(size_t k=pc+1;k<lines.size()&&at<0;k++) if(has(k)) at=k; } else if(dir=='b') { for(long k=pc;k>=0&&at<0;k--) if(has(k)) at=k; } else die("asm label "+l);
			if(at<0) die("asm label "+l);
			pc=at-1; if(at==0) pc=(size_t)-1; continue;
		}
		if(m.compare(0,4,"movz")==0||m.compare(0,4,"movs")==0) { auto wd=[&](char c) { return c=='b'?8u:c=='w'?16u:c=='l'?32u:64u; }; if(m.size()!=6) die("inline asm: "+l); Word v=get(op[0],wd(m[4])); put(op[1], m[3]=='z'? W.zext(v,wd(m[5])) : W.sext(v,wd(m[5]))); continue; }
		char suf=m.back(); unsigned w= suf=='b'?8:suf=='w'?16:suf=='l'?32:suf=='q'?64:0; std::string bs=m.substr(0,m.size()-1);
		static const std::set<std::string> known={"mov","add","adc","sub","cmp","xor","and","or","test","shr","shl","lea","inc","dec","not","neg"};
		if(!w||!known.count(bs)) { bs=m; if(!known.count(bs)) die("inline asm: "+l); w=0; for(auto& o: op) if(isReg(o)) w=loc(o).w; if(!w) w=64; }
		auto flags=[&](const Word& r) { ZF=W.eq(r,C(w,0)); zfOk=true; };
		if(bs=="mov") put(op[1],get(op[0],w));
		else if(bs=="lea") put(op[1],W.trunc(addr(op[0]),w));
		else if(bs=="xor"||bs=="and"||bs=="or"||bs=="test") { Word x=get(op[0],w), y=get(op[1],w); Word r= bs=="xor"? W.bxor(x,y) : bs=="or"? W.bor(x,y) : W.band(x,y); if(bs!="test") put(op[1],r); if(bs=="test"||r.s==0) { flags(r); } else zfOk=false; CF=L0; cfOk=true; }
		else if(bs=="add"||bs=="adc"||bs=="sub"||bs=="cmp") {
			Word x=get(op[0],w), y=get(op[1],w); if(bs=="adc"&&!cfOk) die("asm carry");
			if(bs=="sub"||bs=="cmp") { CF=W.ult(y,x); ZF=W.eq(y,x); cfOk=zfOk=true; if(bs=="sub") put(op[1],W.sub(y,x)); }
			else { Lit p[64],q[64],o[64],co; W.bits(x,p); W.bits(y,q); W.addBits(p,q,bs=="adc"?CF:L0,o,w,&co); CF=co; cfOk=true; Word r=W.mk(o,w); put(op[1],r); if(r.s==0) flags(r); else zfOk=false; }
		} else if(bs=="shr"||bs=="shl") {
			std::string d=op.back(); Word v=get(d,w), n=op.size()==1? C(8,1) : W.band(get(op[0],8),C(8,w==64?63:31)); int left= bs=="shl";
			Word ext=W.zext(n,w); Word r=W.shift(v,ext,left?0:1); Lit z=W.eq(n,C(8,0)); Word n1=W.sub(ext,C(w,1)); Word last=W.shift(v,n1,left?0:1);
			CF=T.mkIte(z,CF,W.bit(last,left?w-1:0)); cfOk=true; zfOk=false; put(d,r);
		} else if(bs=="inc"||bs=="dec") { Word v=get(op[0],w); Word r= bs=="inc"? W.add(v,C(w,1)) : W.sub(v,C(w,1)); put(op[0],r); flags(r); }
		else if(bs=="not") put(op[0],W.bxor(get(op[0],w),C(w,~0ull)));
		else { Word v=get(op[0],w); CF=W.eq(v,C(w,0))^1; cfOk=true; Word r=W.sub(C(w,0),v); put(op[0],r); flags(r); }
	}
}
static bool runAsm(State& s, Frame* f, Inst& I) {
	auto* cb=cast<CallBase>(I.I); auto* ia=cast<InlineAsm>(cb->getCalledOperand());
	std::string a=ia->getAsmString(), cs=ia->getConstraintString();
	if(a.find("cpuid")!=std::string::npos) {
		uint32_t leaf=concretize(s,REG(I.o[0])[0]); uint32_t sub=I.o.size()>1?concretize(s,REG(I.o[1])[0]):0;
		Val r; for(int k=0;k<4;k++) r.push_back(C(32,0));
		for(auto& c: s.cpu) if(c.leaf==leaf && (c.sub==sub)) for(int k=0;k<4;k++) r[k]=c.r[k];
		f->regs[I.dst]=r; return true;
	}
	if(a.find("xgetbv")!=std::string::npos) {
		s.feat|=1u<<31; Word lo=W.trunc(s.xcr0,32), hi=W.extract(s.xcr0,32,32); Val r; r.push_back(lo); if(I.n>1) r.push_back(hi); f->regs[I.dst]=r; return true;
	}
	if(a.compare(0,6,"pmull ")==0||a.compare(0,7,"pmull2 ")==0) {
		Val x=REG(I.o[0]),y=REG(I.o[1]); unsigned h=a[5]=='2'?1:0; Lit o[128]; clmul(x[h],y[h],o);
		Val r; r.push_back(W.mk(o,64)); r.push_back(W.mk(o+64,64)); f->regs[I.dst]=r; return true;
	}
	bool allws=true; for(char c: a) if(!isspace((unsigned char)c)) allws=false;
	if(allws) { // optimisation barrier: outputs tied to inputs
		if(I.dst<0) return true;
		std::vector<std::string> cons; { std::string t; for(char c: cs) { if(c==',') { cons.push_back(t); t=""; } else t+=c; } cons.push_back(t); }
		unsigned no=0; while(no<cons.size()&&cons[no][0]=='=') no++;
		Val r; for(unsigned i=0;i<no;i++) for(unsigned k=no,ai=0;k<cons.size()&&cons[k][0]!='~';k++,ai++) if(cons[k]==std::to_string(i)) for(auto& w: REG(I.o[ai])) r.push_back(w);
		f->regs[I.dst]=r; return true;
	}
	std::vector<std::string> cons; { std::string t; int br=0; for(char c: cs) { if(c=='{') br++; if(c=='}') br--; if(c==','&&!br) { cons.push_back(t); t=""; } else t+=c; } cons.push_back(t); }
	unsigned no=0; while(no<cons.size()&&cons[no][0]=='=') no++;
	std::vector<Word> opnd; std::vector<Word> ins; Word cx=C(64,0);
	std::vector<unsigned> ow; { Type* rt=cb->getType(); if(auto* st=dyn_cast<StructType>(rt)) for(Type* e: st->elements()) ow.push_back(elemW(e)); else if(!rt->isVoidTy()) ow.push_back(elemW(rt)); }
	for(unsigned i=0;i<no;i++) opnd.push_back(C(64,0));
	unsigned ai=0;
	for(unsigned k=no;k<cons.size();k++) { if(cons[k][0]=='~') continue; int oi=I.o[ai++]; Word v=W.zext(REG(oi)[0],64); opnd.push_back(v); if(isdigit(cons[k][0])) opnd[atoi(cons[k].c_str())]=v; if(cons[k]=="{cx}") cx=v; }
	for(unsigned i=0;i<no;i++) { bool tied=false; for(unsigned k=no;k<cons.size();k++) if(cons[k]==std::to_string(i)) tied=true; if(!tied) { Lit u[64]; for(int q=0;q<8;q++) W.bits(fromMB(freshUninit(s)),u+8*q); opnd[i]=W.mk(u,64); } }
	runX86(s,a,opnd,cx);
	Val r; for(unsigned i=0;i<no;i++) r.push_back(W.trunc(opnd[i],ow[i]));
	if(I.dst>=0) f->regs[I.dst]=r;
	return true;
}

static void memcpyS(State& s, uint64_t d, uint64_t q, uint64_t n) {
	if(!n) return; Obj& so=checkAccess(s,q,n,false); std::vector<MB> t(n); for(uint64_t i=0;i<n;i++) { t[i]=so.d->b[q-so.base+i]; }
	Obj& o=checkAccess(s,d,n,true); wrPrep(o); for(uint64_t i=0;i<n;i++) o.d->b[d-o.base+i]=t[i];
}
static void memsetS(State& s, uint64_t d, Word v, uint64_t n) { if(!n) return; Obj& o=checkAccess(s,d,n,true); wrPrep(o); for(uint64_t i=0;i<n;i++) o.d->b[d-o.base+i]=toMB(v); }

static void pushCall(State& s, Fn* g, int retDst, std::vector<Val>& args) {
	if(s.fr.size()>200) die("call depth");
	g->used=true; s.feat|=g->feat;
	s.fr.emplace_back(); Frame& n=s.fr.back(); n.fn=g; n.regs.resize(g->nslots); n.retDst=retDst; n.stackMark=s.stack.size(); n.spMark=s.stackPtr;
	for(size_t i=0;i<g->args.size()&&i<args.size();i++) n.regs[g->args[i]]=args[i];
}

// returns false if the path should end
static bool extCall(State& s, Frame* f, Inst& I, StringRef nm) {
	auto arg=[&](int i)->Val& { return REG(I.o[i]); };
	auto conc=[&](int i)->uint64_t { return concretize(s,REG(I.o[i])[0]); };
	auto ret=[&](const Word& w0) { if(I.dst>=0) { Word w=w0; if(I.w&&w.w!=I.w) w = w.w>I.w?W.trunc(w,I.w):W.zext(w,I.w); Val v; v.push_back(w); f->regs[I.dst]=v; } };
	if(nm.starts_with("llvm.")) {
		if(nm.starts_with("llvm.lifetime")||nm.starts_with("llvm.dbg")||nm.starts_with("llvm.experimental.noalias")||nm.starts_with("llvm.assume")||nm.starts_with("llvm.prefetch")||nm.starts_with("llvm.x86.avx.vzeroupper")||nm.starts_with("llvm.x86.avx.vzeroall")||nm.starts_with("llvm.x86.sse2.mfence")||nm.starts_with("llvm.x86.sse.sfence")||nm.starts_with("llvm.x86.sse2.pause")||nm.starts_with("llvm.stackrestore")||nm.starts_with("llvm.va_")||nm.starts_with("llvm.donothing")||nm.starts_with("llvm.invariant")) return true;
		if(nm.starts_with("llvm.memcpy")||nm.starts_with("llvm.memmove")) { uint64_t d=conc(0),q=conc(1),n=conc(2); memcpyS(s,d,q,n); return true; }
		if(nm.starts_with("llvm.memset")) { uint64_t d=conc(0); uint64_t n=conc(2); memsetS(s,d,arg(1)[0],n); return true; }
		if(nm.starts_with("llvm.expect")) { f->regs[I.dst]=arg(0); return true; }
		if(nm.starts_with("llvm.trap")) { violation(s,"trap","reached llvm.trap"); }
		if(nm.starts_with("llvm.is.constant")) { ret(C(1,0)); return true; }
		if(nm.starts_with("llvm.objectsize")) { ret(C(I.w,~0ull)); return true; }
		if(nm.starts_with("llvm.stacksave")) { ret(C(64,0)); return true; }
		if(nm.starts_with("llvm.threadlocal.address")) { f->regs[I.dst]=arg(0); return true; }
		auto mapn=[&](std::function<Word(const Word&)> g) { Val a=arg(0), r; for(auto& w: a) r.push_back(g(w)); f->regs[I.dst]=r; return true; };
		auto map2=[&](std::function<Word(const Word&,const Word&)> g) { Val a=arg(0), b=arg(1), r; for(size_t i=0;i<a.size();i++) r.push_back(g(a[i],b[i])); f->regs[I.dst]=r; return true; };
		if(nm.starts_with("llvm.ctpop")) return mapn([&](const Word& w){ return W.popcnt(w); });
		if(s.forkIdx && (nm.starts_with("llvm.ctlz")||nm.starts_with("llvm.cttz")) && arg(0).size()==1 && arg(0)[0].s) { uint64_t v=conc(0); Word a=C(arg(0)[0].w,v); ret(nm.starts_with("llvm.ctlz")?W.clz(a):W.ctz(a)); return true; }
		if(nm.starts_with("llvm.ctlz")) return mapn([&](const Word& w){ return W.clz(w); });
		if(nm.starts_with("llvm.cttz")) return mapn([&](const Word& w){ return W.ctz(w); });
		if(nm.starts_with("llvm.abs")) return mapn([&](const Word& w){ return W.absW(w); });
		if(nm.starts_with("llvm.bswap")) return mapn([&](const Word& w){ Lit x[64],o[64]; W.bits(w,x); for(unsigned i=0;i<w.w;i++) o[i]=x[(w.w/8-1-i/8)*8+i%8]; return W.mk(o,w.w); });
		if(nm.starts_with("llvm.bitreverse")) return mapn([&](const Word& w){ Lit x[64],o[64]; W.bits(w,x); for(unsigned i=0;i<w.w;i++) o[i]=x[w.w-1-i]; return W.mk(o,w.w); });
		if(nm.starts_with("llvm.umin")) return map2([&](const Word& a,const Word& b){ return W.uminmax(a,b,false,false); });
		if(nm.starts_with("llvm.umax")) return map2([&](const Word& a,const Word& b){ return W.uminmax(a,b,true,false); });
		if(nm.starts_with("llvm.smin")) return map2([&](const Word& a,const Word& b){ return W.uminmax(a,b,false,true); });
		if(nm.starts_with("llvm.smax")) return map2([&](const Word& a,const Word& b){ return W.uminmax(a,b,true,true); });
		if(nm.starts_with("llvm.usub.sat")) return map2([&](const Word& a,const Word& b){ return satAdd(a,b,false,true); });
		if(nm.starts_with("llvm.uadd.sat")) return map2([&](const Word& a,const Word& b){ return satAdd(a,b,false,false); });
		if(nm.starts_with("llvm.ssub.sat")) return map2([&](const Word& a,const Word& b){ return satAdd(a,b,true,true); });
		if(nm.starts_with("llvm.sadd.sat")) return map2([&](const Word& a,const Word& b){ return satAdd(a,b,true,false); });
		if(nm.starts_with("llvm.fshl")||nm.starts_with("llvm.fshr")) {
			bool l=nm.starts_with("llvm.fshl"); Val a=arg(0),b=arg(1),c=arg(2),r;
			for(size_t i=0;i<a.size();i++) { unsigned w=a[i].w; Word n=W.band(c[i],C(w,w-1)); // power-of-two widths
				Word nn=W.sub(C(w,w),n); Word x = l? W.bor(W.shift(a[i],n,0), W.shift(b[i],nn,1)) : W.bor(W.shift(b[i],n,1), W.shift(a[i],nn,0));
				r.push_back(x); }
			f->regs[I.dst]=r; return true;
		}
		if(nm.starts_with("llvm.uadd.with.overflow")||nm.starts_with("llvm.umul.with.overflow")||nm.starts_with("llvm.usub.with.overflow")) {
			Word a=arg(0)[0],b=arg(1)[0]; Val r;
			if(nm.starts_with("llvm.uadd")) { Word q=W.add(a,b); r.push_back(q); Lit o=W.ult(q,a); r.push_back(W.mk(&o,1)); }
			else if(nm.starts_with("llvm.usub")) { r.push_back(W.sub(a,b)); Lit o=W.ult(a,b); r.push_back(W.mk(&o,1)); }
			else { uint64_t x=concretize(s,a),y=concretize(s,b); unsigned __int128 p=(unsigned __int128)x*y; r.push_back(C(a.w,p)); r.push_back(C(1,(uint64_t)(p>>a.w)!=0)); }
			f->regs[I.dst]=r; return true;
		}
		if(nm.starts_with("llvm.vector.reduce.")) {
			Val a=arg(0); Word r=a[0]; StringRef k=nm.substr(19);
			for(size_t i=1;i<a.size();i++) { if(k.starts_with("add")) r=W.add(r,a[i]); else if(k.starts_with("or")) r=W.bor(r,a[i]); else if(k.starts_with("and")) r=W.band(r,a[i]); else if(k.starts_with("xor")) r=W.bxor(r,a[i]); else if(k.starts_with("umax")) r=W.uminmax(r,a[i],true,false); else if(k.starts_with("umin")) r=W.uminmax(r,a[i],false,false); else die("reduce"); }
			ret(r); return true;
		}
		if(nm.starts_with("llvm.x86.")) {
			StringRef k=nm.substr(9);
			if(k=="ssse3.pshuf.b.128"||k=="avx2.pshuf.b") {
				Val a=arg(0),m=arg(1),r; for(size_t i=0;i<a.size();i++) { Word x=mux16(a,i&~15u,m[i],4); r.push_back(W.select(W.bit(m[i],7),C(8,0),x)); }
				f->regs[I.dst]=r; return true;
			}
			if(k=="sse41.pblendvb"||k=="avx2.pblendvb") { Val a=arg(0),b=arg(1),m=arg(2),r; for(size_t i=0;i<a.size();i++) r.push_back(W.select(W.bit(m[i],7),b[i],a[i])); f->regs[I.dst]=r; return true; }
			if(k=="sse2.pmovmskb.128"||k=="avx2.pmovmskb") { Val a=arg(0); Lit x[64]; for(size_t i=0;i<a.size();i++) x[i]=W.bit(a[i],7); for(size_t i=a.size();i<32;i++) x[i]=L0; ret(W.mk(x,32)); return true; }
			if(k=="sse2.psad.bw"||k=="avx2.psad.bw") { Val a=arg(0),b=arg(1),r; for(size_t g=0;g<a.size();g+=8) { Word t=C(64,0); for(int i=0;i<8;i++) { Word x=W.zext(a[g+i],16),y=W.zext(b[g+i],16); Word d=W.sub(x,y); d=W.absW(d); t=W.add(t,W.zext(d,64)); } r.push_back(t); } f->regs[I.dst]=r; return true; }
			if(k.starts_with("pclmulqdq")) {
				Val a=arg(0),b=arg(1),r; unsigned imm=conc(2);
				for(size_t g=0;g<a.size();g+=2) { Lit o[128]; clmul(a[g+(imm&1)],b[g+((imm>>4)&1)],o); r.push_back(W.mk(o,64)); r.push_back(W.mk(o+64,64)); }
				f->regs[I.dst]=r; return true;
			}
			if(k=="sse2.packuswb.128"||k=="sse2.packsswb.128"||k=="avx2.packuswb"||k=="avx2.packsswb") {
				bool us=k.contains("uswb"); Val a=arg(0),b=arg(1),r;
				auto cv=[&](const Word& w)->Word { if(us) { Lit neg=W.bit(w,15); Lit big=W.slt(C(16,255),w); return W.select(neg,C(8,0),W.select(big,C(8,255),W.trunc(w,8))); } Lit lo=W.slt(w,C(16,(uint64_t)-128)), hi=W.slt(C(16,127),w); return W.select(lo,C(8,0x80),W.select(hi,C(8,0x7f),W.trunc(w,8))); };
				for(size_t g=0;g<a.size();g+=8) { for(int i=0;i<8;i++) r.push_back(cv(a[g+i])); for(int i=0;i<8;i++) r.push_back(cv(b[g+i])); }
				f->regs[I.dst]=r; return true;
			}
			if(k.starts_with("avx512.pternlog.")) {
				Val a=arg(0),b=arg(1),c=arg(2),r; unsigned imm=conc(3);
				for(size_t i=0;i<a.size();i++) { Lit x[64],y[64],z[64]; W.bits(a[i],x); W.bits(b[i],y); W.bits(c[i],z);
					for(unsigned j=0;j<a[i].w;j++) { Lit q[8]; for(int e=0;e<8;e++) q[e]=(imm>>e)&1; Lit lo0=T.mkIte(z[j],q[1],q[0]),lo1=T.mkIte(z[j],q[3],q[2]),hi0=T.mkIte(z[j],q[5],q[4]),hi1=T.mkIte(z[j],q[7],q[6]); x[j]=T.mkIte(x[j],T.mkIte(y[j],hi1,hi0),T.mkIte(y[j],lo1,lo0)); }
					r.push_back(W.mk(x,a[i].w)); }
				f->regs[I.dst]=r; return true;
			}
			if(k.starts_with("avx512.mask.compress.")||k.starts_with("avx512.mask.expand.")) {
				bool comp=k.contains("compress"); if(s.forkIdx) for(size_t i=0;i<arg(2).size();i++) { Word q=arg(2)[i]; if(q.s) concretize(s,q); }
				Val a=arg(0),p=arg(1),m=arg(2); for(auto& q: m) q=simpW(s,q); size_t n=a.size(); std::vector<Lit> ml; flatLits(m,ml);
				std::vector<Lit> pos(n+1,L0); pos[0]=L1; Val r;
				if(comp) {
					r=p; // result[j] = a[i] where i is j-th set
					for(size_t i=0;i<n;i++) { Lit mi=ml[i]; if(mi==L0) continue;
						for(size_t j=0;j<=i&&j<n;j++) { Lit c=T.mkAnd(mi,pos[j]); if(c!=L0) r[j]=W.select(c,a[i],r[j]); }
						for(int j=i+1;j>=0;j--) pos[j]=T.mkIte(mi, j?pos[j-1]:L0, pos[j]); }
				} else {
					for(size_t i=0;i<n;i++) { Lit mi=ml[i]; Word x=p[i];
						if(mi!=L0) { Word src=a[0]; for(size_t j=0;j<=i&&j<n;j++) if(pos[j]!=L0) src = pos[j]==L1? a[j] : W.select(pos[j],a[j],src); x=W.select(mi,src,p[i]); }
						r.push_back(x);
						if(mi!=L0) for(int j=i+1;j>=0;j--) pos[j]=T.mkIte(mi, j?pos[j-1]:L0, pos[j]); }
				}
				f->regs[I.dst]=r; return true;
			}
			if(k.starts_with("bmi.bzhi")) { Word a=arg(0)[0],n=W.zext(W.trunc(arg(1)[0],8),a.w); Word m=W.sub(W.shift(C(a.w,1),n,0),C(a.w,1)); m=W.select(W.ult(n,C(a.w,a.w)),m,C(a.w,~0ull)); ret(W.band(a,m)); return true; }
			if(k.starts_with("bmi.pext")||k.starts_with("bmi.pdep")) {
				Word a=arg(0)[0], m=arg(1)[0]; unsigned n=a.w; bool ext=k.contains("pext"); if(s.forkIdx&&m.s) { m=C(m.w,concretize(s,m)); a=REG(I.o[0])[0]; } std::vector<Lit> pos(n+1,L0), o(n,L0); pos[0]=L1;
				for(unsigned i=0;i<n;i++) { Lit mi=W.bit(m,i);
					for(unsigned j=0;j<=i;j++) { Lit c=T.mkAnd(mi,pos[j]); if(c==L0) continue; if(ext) o[j]=T.mkOr(o[j],T.mkAnd(c,W.bit(a,i))); else o[i]=T.mkOr(o[i],T.mkAnd(c,W.bit(a,j))); }
					for(int j=i+1;j>=0;j--) pos[j]=T.mkIte(mi, j?pos[j-1]:L0, pos[j]); }
				ret(W.mk(o)); return true;
			}
			if(k.starts_with("sse42.crc32.")) {
				ret(W.zext(crcStep(W.trunc(arg(0)[0],32),arg(1)[0],arg(1)[0].w,0x82F63B78u),I.w)); return true;
			}
		}
		if(nm.starts_with("llvm.aarch64.")) {
			StringRef k=nm.substr(13);
			if(k.starts_with("neon.tbl")||k.starts_with("neon.tbx")) { // lanes of the concatenated tables; out of range: zero, or the lane of the first operand
				bool x=k[7]=='x'; unsigned nt=k[8]-'0', o=x?1:0; Val tab; for(unsigned t=0;t<nt;t++) for(auto& w: arg(o+t)) tab.push_back(w);
				Val ix=arg(o+nt),r; size_t sz=tab.size(); unsigned nb=0; while((1u<<nb)<sz) nb++; while(tab.size()<(1u<<nb)) tab.push_back(C(8,0));
				for(size_t i=0;i<ix.size();i++) { Word el=x?arg(0)[i]:C(8,0); r.push_back(W.select(W.ult(ix[i],C(8,sz)),mux16(tab,0,ix[i],nb),el)); }
				f->regs[I.dst]=r; return true;
			}
			if(k.starts_with("neon.addp.")) { Val a=arg(0),b=arg(1),r; a.insert(a.end(),b.begin(),b.end()); for(size_t i=0;i<a.size();i+=2) r.push_back(W.add(a[i],a[i+1])); f->regs[I.dst]=r; return true; }
			if(k.starts_with("neon.shadd.")) return map2([&](const Word& a,const Word& b){ unsigned w=a.w; return W.trunc(W.shrc(W.add(W.sext(a,w+1),W.sext(b,w+1)),1,true),w); });
			if(k.starts_with("neon.uqxtn.")) { Val a=arg(0),r; for(auto& w: a) { unsigned h=w.w/2; r.push_back(W.select(W.ult(C(w.w,(1ull<<h)-1),w),C(h,~0ull),W.trunc(w,h))); } f->regs[I.dst]=r; return true; }
			if(k.starts_with("neon.vsri.")) { unsigned n=conc(2); Val a=arg(0),b=arg(1),r; for(size_t i=0;i<a.size();i++) { unsigned w=a[i].w; uint64_t m=n>=w?0:((w==64?~0ull:(1ull<<w)-1)>>n); r.push_back(W.bor(W.band(a[i],C(w,~m)),W.shrc(b[i],n,false))); } f->regs[I.dst]=r; return true; }
			if(k.starts_with("neon.vsli.")) { unsigned n=conc(2); Val a=arg(0),b=arg(1),r; for(size_t i=0;i<a.size();i++) { unsigned w=a[i].w; uint64_t m=(1ull<<n)-1; r.push_back(W.bor(W.band(a[i],C(w,m)),W.shlc(b[i],n))); } f->regs[I.dst]=r; return true; }
			if(k.starts_with("neon.ld1x")) { Type* t=cast<StructType>(I.I->getType())->getElementType(0); unsigned n=k[9]-'0'; uint64_t p=conc(0); Val r; for(unsigned i=0;i<n;i++) { Val v=load(s,C(64,p+i*DL->getTypeStoreSize(t)),t,1); r.insert(r.end(),v.begin(),v.end()); } f->regs[I.dst]=r; return true; }
			if(k.starts_with("neon.st1x")) { unsigned n=k[9]-'0'; Type* t=cast<CallBase>(I.I)->getArgOperand(0)->getType(); uint64_t p=conc(n); for(unsigned i=0;i<n;i++) store(s,C(64,p+i*DL->getTypeStoreSize(t)),arg(i),t,1); return true; }
			if(k.starts_with("neon.pmull64")) { Lit o[128]; clmul(arg(0)[0],arg(1)[0],o); Val r; for(int i=0;i<128;i+=8) r.push_back(W.mk(o+i,8)); f->regs[I.dst]=r; return true; }
			if(k.starts_with("crc32")&&k[5]!='c') { unsigned n=k[5]=='b'?8:k[5]=='h'?16:k[5]=='w'?32:64; ret(crcStep(arg(0)[0],arg(1)[0],n,0xEDB88320u)); return true; }
		}
		die("intrinsic "+nm.str());
	}
	if(nm=="memcpy"||nm=="memmove") { uint64_t d=conc(0),q=conc(1),n=conc(2); memcpyS(s,d,q,n); ret(C(64,d)); return true; }
	if(nm=="memset") { uint64_t d=conc(0),n=conc(2); memsetS(s,d,W.trunc(arg(1)[0],8),n); ret(C(64,d)); return true; }
	if(nm=="malloc"||nm=="_Znwm"||nm=="_Znam"||nm=="valloc") { uint64_t n=conc(0); ret(C(64,allocHeap(s,n,"malloc",OF_C))); return true; }
	if(nm=="calloc") { uint64_t n=conc(0)*conc(1); ret(C(64,allocHeap(s,n,"calloc",OF_C,64,0,true))); return true; }
	if(nm=="aligned_alloc"||nm=="memalign") { uint64_t al=conc(0),n=conc(1); ret(C(64,allocHeap(s,n,"aligned_alloc",OF_C,al))); return true; }
	if(nm=="posix_memalign") { uint64_t p=conc(0),al=conc(1),n=conc(2); Obj& o=checkAccess(s,p,8,true); wrPrep(o); uint64_t a=allocHeap(s,n,"posix_memalign",OF_C,al); Obj& o2=checkAccess(s,p,8,true); wrPrep(o2); stWord(o2,p-o2.base,C(64,a)); ret(C(32,0)); return true; }
	if(nm=="realloc") {
		uint64_t p=conc(0),n=conc(1); if(!p) { ret(C(64,allocHeap(s,n,"malloc",OF_C))); return true; }
		Obj* o=findObj(s,p); if(!o||o->base!=p||(o->flags&OF_FREED)||!(o->flags&OF_C)) violation(s,"memory","reallocates memory it does not own (not allocated, freed already, or of a Buffer passed in)");
		auto d=o->d; uint64_t osz=o->size; const char* onm=o->name; (void)onm; o->flags|=OF_FREED;
		if(!n) { ret(C(64,0)); return true; }
		uint64_t a=allocHeap(s,n,"realloc",OF_C); Obj* q=findObj(s,a); for(uint64_t i=0;i<n&&i<osz;i++) q->d->b[i]=d->b[i]; ret(C(64,a)); return true;
	}
	if(nm=="free"||nm.starts_with("_ZdlPv")||nm.starts_with("_ZdaPv")) { uint64_t p=conc(0); if(p) { Obj* o=findObj(s,p); if(!o||o->base!=p||(o->flags&OF_FREED)||!(o->flags&OF_C)) violation(s,"memory","frees memory it does not own (not allocated, freed already, or of a Buffer passed in)"); o->flags|=OF_FREED; } return true; }
	if(nm=="strlen") { ret(C(64,cstr(s,conc(0)).size())); return true; }
	if(nm=="strcmp") { std::string a=cstr(s,conc(0)),b=cstr(s,conc(1)); ret(C(32,a<b?-1:a>b)); return true; }
	if(nm=="memcmp"||nm=="bcmp") {
		uint64_t a=conc(0),b=conc(1),n=conc(2); Word r=C(32,0); if(n) { Obj& x=checkAccess(s,a,n,false); Obj& y=checkAccess(s,b,n,false);
			for(int64_t i=n-1;i>=0;i--) { Word p=fromMB(rdByte(s,x,a-x.base+i)), q=fromMB(rdByte(s,y,b-y.base+i)); r=W.select(W.eq(p,q), r, W.sub(W.zext(p,32),W.zext(q,32))); } }
		ret(r); return true;
	}
	if(nm=="abort"||nm=="__assert_fail"||nm=="exit"||nm=="__cxa_pure_virtual"||nm=="__cxa_throw"||nm=="_ZSt9terminatev") { violation(s,"abort","reached "+nm.str()); }
	if(nm=="__cxa_atexit"||nm=="atexit") { ret(C(32,0)); return true; }
	if(nm=="__cxa_guard_acquire") { uint64_t p=conc(0); Obj& o=checkAccess(s,p,1,false); MB m=rdByte(s,o,p-o.base); ret(C(32,m==0)); return true; }
	if(nm=="__cxa_guard_release") { uint64_t p=conc(0); Obj& o=checkAccess(s,p,1,true); wrPrep(o); o.d->b[p-o.base]=1; return true; }
	if(nm=="__cxa_guard_abort") return true;
	if(nm=="printf"||nm=="puts"||nm=="fprintf"||nm=="putchar"||nm=="fflush") { ret(C(32,0)); return true; }
	// ---- harness interface
	if(nm=="ys_byte") { ret(newInput(s,cstr(s,conc(0)),TT_FULL)); return true; }
	if(nm=="ys_byte_in") { uint64_t p=conc(1); Obj& o=checkAccess(s,p,256,false); TT t=TT_ZERO; for(int i=0;i<256;i++) { MB m=rdByte(s,o,p-o.base+i); if(m>=256) die("symbolic domain"); if(m) t.set(i); } if(t.empty()) die("empty domain"); ret(newInput(s,cstr(s,conc(0)),t)); return true; }
	if(nm=="ys_u16"||nm=="ys_u32"||nm=="ys_u64") { unsigned nb=nm=="ys_u16"?2:nm=="ys_u32"?4:8; Lit x[64]; std::string n=cstr(s,conc(0)); for(unsigned i=0;i<nb;i++) W.bits(newInput(s,n+"."+std::to_string(i),TT_FULL),x+8*i); ret(W.mk(x,nb*8)); return true; }
	if(nm=="ys_bits32") { std::string n=cstr(s,conc(0)); TT d=TT_ZERO; d.set(0); d.set(1); Lit x[32]; for(int i=0;i<32;i++) W.bits(newInput(s,n+"#"+std::to_string(i),d,1),x+i); ret(W.mk(x,32)); return true; }
	if(nm=="ys_bit") { TT d=TT_ZERO; d.set(0); d.set(1); ret(W.zext(newInput(s,cstr(s,conc(0)),d,1),I.w)); return true; }
	if(nm=="ys_range") { // value in [lo,hi], hi-lo<256: one byte variable
		std::string n=cstr(s,conc(0)); int64_t lo=(int64_t)conc(1),hi=(int64_t)conc(2); if(hi<lo||hi-lo>255) die("ys_range");
		TT d=TT_ZERO; for(int64_t i=0;i<=hi-lo;i++) d.set(i); Word w=newInput(s,n,d); ret(W.add(W.zext(w,64),C(64,lo))); return true;
	}
	if(nm=="ys_choose") { // concrete nondeterministic choice in [0,n)
		uint64_t n=conc(1); std::string nmv=cstr(s,conc(0)); if(n==0) die("ys_choose 0");
		for(uint64_t i=n-1;i>0;i--) { auto c=clone(s); Frame& cf=c->fr.back(); c->inputs.push_back(Input{-1,i,internStr(nmv)}); Val v; v.push_back(C(I.w?I.w:64,i)); if(I.dst>=0) cf.regs[I.dst]=v; cf.idx++; work.push_back(std::move(c)); }
		s.inputs.push_back(Input{-1,0,internStr(nmv)}); ret(C(64,0)); return true;
	}
	if(nm=="ys_param") { std::string n=cstr(s,conc(0)); auto it=params.find(n); if(it==params.end()) die("missing param "+n); ret(C(64,it->second)); return true; }
	if(nm=="ys_param_or") { std::string n=cstr(s,conc(0)); auto it=params.find(n); ret(it==params.end()?arg(1)[0]:C(64,it->second)); return true; }
	if(nm=="ys_assume") { Word w=arg(0)[0]; Lit c=W.eq(w,C(w.w,0))^1; std::vector<uint8_t> m; bool cur; int r=decide(s,c,m,cur); if(r==1) { S.infeasible++; throw PathEnd(); } if(r==3) { addCons(s,c); if(!cur) s.model=m; } return true; }
	if(nm=="ys_assert") { Word w=arg(0)[0]; doAssert(s, W.eq(w,C(w.w,0)), cstr(s,conc(1))); return true; }
	if(nm=="ys_assert_eq") {
		uint64_t a=conc(0),b=conc(1),n=conc(2); std::string m=cstr(s,conc(3)); if(!onlyProp.empty() && m.size()>4 && m[0]=='C' && m[3]==':' && m.compare(0,3,onlyProp)) return true; if(!n) { S.asserts++; S.assertsByRewrite++; return true; }
		Obj& x=checkAccess(s,a,n,false); Obj& y=checkAccess(s,b,n,false); Lit bad=L0;
		for(uint64_t i=0;i<n;i++) { Word p=fromMB(rdByte(s,x,a-x.base+i)), q=fromMB(rdByte(s,y,b-y.base+i)); if(W.same(p,q)) continue; for(int k=0;k<8;k++) { Lit d=T.mkXor2(W.bit(p,k),W.bit(q,k)); d=simpL(s,d); if(T.anf&&d!=L0) doAssert(s,d,m); else bad=T.mkOr(bad,d); } if(bad==L1) break; }
		doAssert(s,bad,m); return true;
	}
	if(nm=="ys_alloc") { uint64_t n=conc(0),al=conc(1),off=conc(2); ret(C(64,allocHeap(s,n,internStr(cstr(s,conc(3))),0,al,off))); return true; }
	if(nm=="ys_heap_live") { uint64_t n=0; for(auto& o: s.heap) n+=(o.flags&OF_C)&&!(o.flags&OF_FREED); ret(C(64,n)); return true; }
	if(nm=="ys_pages") { uint64_t p=conc(0); Obj* o=findObj(s,p); if(o) o->flags|=OF_PAGE; return true; }
	if(nm=="ys_units") { uint64_t p=conc(0); Obj* o=findObj(s,p); if(o) o->flags|=OF_UNIT; return true; }
	if(nm=="ys_readonly") { uint64_t p=conc(0); Obj* o=findObj(s,p); if(!o) die("ys_readonly"); o->flags|=OF_RO; return true; }
	if(nm=="ys_mux") { uint64_t p=conc(0); Obj* o=findObj(s,p); if(!o) die("ys_mux"); o->flags|=OF_MUX; return true; }
	if(nm=="ys_concretize") { uint64_t v=conc(0); ret(C(64,v)); return true; }
	if(nm=="ys_select") { Word c=arg(0)[0]; Lit l=W.eq(c,C(c.w,0)); ret(W.select(l,arg(2)[0],arg(1)[0])); return true; }
	if(nm=="ys_shared_ro") { s.sharedRO=conc(0); if(s.sharedRO) { for(auto* v: {&s.glob,&s.heap}) for(auto& o: *v) { o.flags&=~OF_SHARED; if(!(o.flags&OF_EXEMPT)) o.flags|=OF_SHARED; } } return true; }
	if(nm=="ys_shared_exempt") { uint64_t p=conc(0); Obj* o=findObj(s,p); if(!o) die("ys_shared_exempt"); o->flags|=OF_EXEMPT; return true; }
	if(nm=="ys_features") { ret(C(32,s.feat)); if(conc(0)) s.feat=0; return true; }
	if(nm=="ys_fn_features") { uint64_t p=conc(0); auto it=faddr.find(p); ret(C(32,it==faddr.end()?0xffffffffu:featuresOf(it->second))); return true; }
	if(nm=="ys_reach") { reachCount[cstr(s,conc(0))]++; S.reach++; return true; }
	if(nm=="ys_observe") { std::string n=cstr(s,conc(0)); uint64_t p=conc(1),c=conc(2); std::vector<MB> v; if(c) { Obj& o=checkAccess(s,p,c,false); for(uint64_t i=0;i<c;i++) v.push_back(rdByte(s,o,p-o.base+i)); } s.obs.push_back({n,v}); return true; }
	if(nm=="ys_set_cpuid") { uint32_t leaf=conc(0),sub=conc(1),r=conc(2); Word v=W.trunc(arg(3)[0],32); CpuRow* q=nullptr; for(auto& c: s.cpu) if(c.leaf==leaf&&c.sub==sub) q=&c; if(!q) { s.cpu.push_back(CpuRow{leaf,sub,{C(32,0),C(32,0),C(32,0),C(32,0)}}); q=&s.cpu.back(); } q->r[r]=v; return true; }
	if(nm=="ys_set_xcr0") { s.xcr0=W.zext(arg(0)[0],64); return true; }
	if(nm=="ys_fork_index") { s.forkIdx=conc(0)!=0; return true; }
	if(nm=="ys_in_engine") { ret(C(I.w,1)); return true; }
	if(nm=="ys_is_symbolic") { ret(C(I.w,arg(0)[0].s!=0)); return true; }
	if(nm=="ys_note") { fprintf(stderr,"note: %s %llx %s\n", cstr(s,conc(0)).c_str(), (unsigned long long)arg(1)[0].v, arg(1)[0].s?"(sym)":""); return true; }
	die("external function "+nm.str());
}

static void gotoBlk(State& s, Frame& f, int to) {
	Block& B=f.fn->blocks[to]; int from=f.blk;
	if(!B.phis.empty()) {
		SmallVector<Val,8> tmp; for(auto& p: B.phis) { bool ok=false; for(auto& in: p.in) if(in.first==from) { tmp.push_back(in.second<0?consts[-in.second-1]:f.regs[in.second]); ok=true; break; } if(!ok) die("phi"); }
		for(size_t i=0;i<B.phis.size();i++) f.regs[B.phis[i].dst]=std::move(tmp[i]);
	}
	f.blk=to; f.idx=0;
}
static Lit icmp(unsigned p, const Word& a, const Word& b) {
	switch(p) {
	case CmpInst::ICMP_EQ: return W.eq(a,b); case CmpInst::ICMP_NE: return W.eq(a,b)^1;
	case CmpInst::ICMP_ULT: return W.ult(a,b); case CmpInst::ICMP_UGT: return W.ult(b,a);
	case CmpInst::ICMP_ULE: return W.ult(b,a)^1; case CmpInst::ICMP_UGE: return W.ult(a,b)^1;
	case CmpInst::ICMP_SLT: return W.slt(a,b); case CmpInst::ICMP_SGT: return W.slt(b,a);
	case CmpInst::ICMP_SLE: return W.slt(b,a)^1; case CmpInst::ICMP_SGE: return W.slt(a,b)^1; }
	die("icmp");
}
static const Instruction* curInst=nullptr;
static void onAbort(int) { if(curInst) { std::string t; raw_string_ostream o(t); o<<*curInst; fprintf(stderr,"aborted at %.400s in %s\n",t.c_str(),curInst->getFunction()->getName().str().c_str()); } _exit(134); }
static void step(State& s) {
	Frame* f=&s.fr.back(); Block& B=f->fn->blocks[f->blk]; Inst& I=B.ins[f->idx];
	S.instrs++; curInst=I.I;
	if(++pathInstr>instrLimit) violation(s,"nontermination","instruction limit per path exceeded");
	auto bin=[&](auto g) { Val& a=REG(I.o[0]); Val& b=REG(I.o[1]); if(a.size()==1) { Word r=g(a[0],b[0]); f->regs[I.dst].assign(1,r); } else { Val r; for(size_t i=0;i<a.size();i++) r.push_back(g(a[i],b[i])); f->regs[I.dst]=std::move(r); } };
	switch(I.op) {
	case Instruction::Add: { bool wide=I.n>1&&I.w>64; if(wide) goto wideop; bin([&](const Word& a,const Word& b){return W.add(a,b);}); break; }
	case Instruction::Sub: if(I.w>64) goto wideop; bin([&](const Word& a,const Word& b){return W.sub(a,b);}); break;
	case Instruction::Mul: if(I.w>64) goto wideop; bin([&](const Word& a,const Word& b){return W.mul(a,b);}); break;
	case Instruction::And: bin([&](const Word& a,const Word& b){return W.band(a,b);}); break;
	case Instruction::Or: bin([&](const Word& a,const Word& b){return W.bor(a,b);}); break;
	case Instruction::Xor: bin([&](const Word& a,const Word& b){return W.bxor(a,b);}); break;
	case Instruction::Shl: if(I.w>64) goto wideop; bin([&](const Word& a,const Word& b){return W.shift(a,b,0);}); break;
	case Instruction::LShr: if(I.w>64) goto wideop; bin([&](const Word& a,const Word& b){return W.shift(a,b,1);}); break;
	case Instruction::AShr: if(I.w>64) goto wideop; bin([&](const Word& a,const Word& b){return W.shift(a,b,2);}); break;
	case Instruction::UDiv: bin([&](const Word& a,const Word& b){Word q,r; W.udivrem(a,b,q,r); return q;}); break;
	case Instruction::URem: bin([&](const Word& a,const Word& b){Word q,r; W.udivrem(a,b,q,r); return r;}); break;
	case Instruction::SDiv: bin([&](const Word& a,const Word& b){return W.sdivrem(a,b,false);}); break;
	case Instruction::SRem: bin([&](const Word& a,const Word& b){return W.sdivrem(a,b,true);}); break;
	wideop: {
		// 128-bit integers: shifts by constants and add/sub
		std::vector<Lit> a,b; flatLits(REG(I.o[0]),a); Val bv=REG(I.o[1]); unsigned w=I.w; std::vector<Lit> o(w,L0);
		if(I.op==Instruction::Shl||I.op==Instruction::LShr||I.op==Instruction::AShr) { uint64_t n=concretize(s,bv[0]); for(unsigned i=0;i<w;i++) { if(I.op==Instruction::Shl) o[i]= i>=n?a[i-n]:L0; else o[i]= i+n<w?a[i+n]:(I.op==Instruction::AShr?a[w-1]:L0); } }
		else if(I.op==Instruction::Mul) { uint64_t x=concretize(s,REG(I.o[0])[0]); uint64_t y=concretize(s,bv[0]); if(concretize(s,REG(I.o[0])[1])||concretize(s,bv[1])) die("wide mul"); unsigned __int128 p=(unsigned __int128)x*y; for(unsigned i=0;i<w;i++) o[i]=(p>>i)&1; }
		else { flatLits(bv,b); if(I.op==Instruction::Sub) for(auto& l: b) l^=1; W.addBits(a.data(),b.data(),I.op==Instruction::Sub?L1:L0,o.data(),w); }
		Val r; for(unsigned i=0;i<w;i+=64) r.push_back(W.mk(&o[i],std::min(64u,w-i))); f->regs[I.dst]=r; break;
	}
	case Instruction::ICmp: {
		Val& a=REG(I.o[0]); Val& b=REG(I.o[1]); Type* ot=I.I->getOperand(0)->getType();
		if(ot->isIntegerTy()&&elemW(ot)>64) { if(I.pred!=CmpInst::ICMP_EQ&&I.pred!=CmpInst::ICMP_NE) die("wide icmp"); Lit l=L1; for(size_t i=0;i<a.size();i++) l=T.mkAnd(l,W.eq(a[i],b[i])); if(I.pred==CmpInst::ICMP_NE) l^=1; f->regs[I.dst].assign(1,W.mk(&l,1)); break; }
		Val r; for(size_t i=0;i<a.size();i++) { Lit l=icmp(I.pred,a[i],b[i]); r.push_back(W.mk(&l,1)); } f->regs[I.dst]=std::move(r); break;
	}
	case Instruction::Select: {
		Val& c=REG(I.o[0]); Val& a=REG(I.o[1]); Val& b=REG(I.o[2]); Val r;
		for(size_t i=0;i<a.size();i++) { Lit l=W.bit(c.size()==1?c[0]:c[i],0); r.push_back(W.select(l,a[i],b[i])); }
		f->regs[I.dst]=std::move(r); break;
	}
	case Instruction::Freeze: { Val v=REG(I.o[0]); f->regs[I.dst]=v; break; }
	case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
		Val v=REG(I.o[0]); Type* st=I.I->getOperand(0)->getType(); unsigned sw=elemW(st), dw=I.w;
		if(sw<=64&&dw<=64) { Val r; for(auto& w: v) { if(dw==sw) r.push_back(w); else if(dw<sw) r.push_back(W.trunc(w,dw)); else r.push_back(I.op==Instruction::SExt?W.sext(w,dw):W.zext(w,dw)); } f->regs[I.dst]=std::move(r); }
		else { std::vector<Lit> l; flatLits(v,l); Lit fill= I.op==Instruction::SExt? l.back():L0; l.resize(dw,fill); Val r; for(unsigned i=0;i<dw;i+=64) r.push_back(W.mk(&l[i],std::min(64u,dw-i))); f->regs[I.dst]=std::move(r); }
		break;
	}
	case Instruction::BitCast: {
		Val v=REG(I.o[0]); Type* dt=I.I->getType(); unsigned w=I.w; unsigned total=0; for(auto& x: v) total+=x.w;
		if(dt->isVectorTy()) { f->regs[I.dst]=regroup(v,I.n,w,total); } else f->regs[I.dst]=regroup(v,I.n,std::min(w,64u),total);
		break;
	}
	case Instruction::GetElementPtr: {
		Gep& g=f->fn->geps[I.gep]; Word p=REG(I.o[0])[0];
		if(g.off) p=W.add(p,C(64,g.off));
		for(auto& x: g.idx) { Word i=REG(x.first)[0]; if(i.w<64) i=W.sext(i,64); p=W.add(p,W.mul(i,C(64,x.second))); }
		f->regs[I.dst].assign(1,p); break;
	}
	case Instruction::Load: { auto* li=cast<LoadInst>(I.I); Val v=load(s,REG(I.o[0])[0],li->getType(),li->getAlign().value()); f=&s.fr.back(); f->regs[I.dst]=std::move(v); break; }
	case Instruction::Store: { auto* si=cast<StoreInst>(I.I); Val v=REG(I.o[0]); Word a=REG(I.o[1])[0]; store(s,a,v,si->getValueOperand()->getType(),si->getAlign().value()); break; }
	case Instruction::Alloca: {
		auto* ai=cast<AllocaInst>(I.I); uint64_t n=1; if(ai->isArrayAllocation()) n=concretize(s,REG(I.o[0])[0]);
		uint64_t sz=DL->getTypeAllocSize(ai->getAllocatedType())*n; uint64_t a=alignUp(s.stackPtr,std::max<uint64_t>(ai->getAlign().value(),4096)); s.stackPtr=a+sz+8192;
		auto d=std::make_shared<ObjData>(); d->b.assign(sz,0xffffffffu); s.stack.push_back(Obj{a,sz,d,0,0,"stack"}); f->regs[I.dst].assign(1,C(64,a)); break;
	}
	case Instruction::ExtractElement: { uint64_t i=concretize(s,REG(I.o[1])[0]); Val& v=REG(I.o[0]); if(i>=v.size()) die("extractelement"); f->regs[I.dst].assign(1,v[i]); break; }
	case Instruction::InsertElement: { uint64_t i=concretize(s,REG(I.o[2])[0]); Val v=REG(I.o[0]); v[i]=REG(I.o[1])[0]; f->regs[I.dst]=std::move(v); break; }
	case Instruction::ShuffleVector: {
		auto* sv=cast<ShuffleVectorInst>(I.I); Val& a=REG(I.o[0]); Val& b=REG(I.o[1]); Val r; int n=a.size();
		for(int m: sv->getShuffleMask()) r.push_back(m<0? C(I.w,0) : m<n? a[m] : b[m-n]); f->regs[I.dst]=std::move(r); break;
	}
	case Instruction::ExtractValue: { auto* ev=cast<ExtractValueInst>(I.I); Type* t=ev->getAggregateOperand()->getType(); unsigned off=0; for(unsigned ix: ev->indices()) { if(auto* st=dyn_cast<StructType>(t)) { for(unsigned k=0;k<ix;k++) off+=nWords(st->getElementType(k)); t=st->getElementType(ix); } else { auto* at=cast<ArrayType>(t); off+=ix*nWords(at->getElementType()); t=at->getElementType(); } }
		Val& v=REG(I.o[0]); Val r; for(unsigned k=0;k<nWords(t);k++) r.push_back(v[off+k]); f->regs[I.dst]=std::move(r); break; }
	case Instruction::InsertValue: { auto* ev=cast<InsertValueInst>(I.I); Type* t=ev->getAggregateOperand()->getType(); unsigned off=0; for(unsigned ix: ev->indices()) { if(auto* st=dyn_cast<StructType>(t)) { for(unsigned k=0;k<ix;k++) off+=nWords(st->getElementType(k)); t=st->getElementType(ix); } else { auto* at=cast<ArrayType>(t); off+=ix*nWords(at->getElementType()); t=at->getElementType(); } }
		Val v=REG(I.o[0]); Val x=REG(I.o[1]); for(size_t k=0;k<x.size();k++) v[off+k]=x[k]; f->regs[I.dst]=std::move(v); break; }
	case Instruction::Br: {
		S.branches++;
		if(I.b1<0) { gotoBlk(s,*f,I.b0); return; }
		Lit c=W.bit(REG(I.o[0])[0],0);
		if(c>1) {
			std::vector<uint8_t> other; bool cur; int r=decide(s,c,other,cur);
			if(r==3) {
				auto n=clone(s); n->model=other; addCons(*n, cur?c^1:c); gotoBlk(*n,n->fr.back(), cur?I.b1:I.b0); work.push_back(std::move(n));
				addCons(s, cur?c:c^1); gotoBlk(s,*f, cur?I.b0:I.b1); return;
			}
			c = r==2?L1:L0;
		}
		gotoBlk(s,*f, c?I.b0:I.b1); return;
	}
	case Instruction::Switch: {
		S.branches++;
		Word x=simpW(s,REG(I.o[0])[0]); uint64_t v=x.v; if(x.s) { Evaluator ev(s); v=ev.word(x); }
		int to=I.b0; for(size_t k=1;k+1<I.o.size();k+=2) if(consts[-I.o[k]-1][0].v==v) { to=I.o[k+1]; break; }
		if(x.s) {
			Lit in=L0, any=L0; for(size_t k=1;k+1<I.o.size();k+=2) { Lit e=W.eq(x,consts[-I.o[k]-1][0]); any=T.mkOr(any,e); if(I.o[k+1]==to) in=T.mkOr(in,e); }
			Lit c = to==I.b0 ? T.mkOr(in,any^1) : in;
			std::vector<uint8_t> other; bool cur=true; int r=decide(s,c,other,cur);
			if(r==3) { auto n=clone(s); n->model=other; addCons(*n,c^1); work.push_back(std::move(n)); addCons(s,c); }
		}
		gotoBlk(s,*f,to); return;
	}
	case Instruction::Ret: {
		Val rv; bool has=!I.o.empty(); if(has) rv=REG(I.o[0]);
		int rd=f->retDst; s.stack.resize(std::min(s.stack.size(),f->stackMark)); s.stackPtr=f->spMark; s.fr.pop_back();
		if(s.fr.empty()) return;
		Frame& c=s.fr.back(); if(rd>=0&&has) c.regs[rd]=std::move(rv); c.idx++; return;
	}
	case Instruction::Unreachable: violation(s,"unreachable","reached unreachable code");
	case Instruction::Call: {
		auto* cb=cast<CallBase>(I.I);
		if(cb->isInlineAsm()) { runAsm(s,f,I); break; }
		const Function* F=I.callee; size_t na=I.o.size();
		if(!F) { uint64_t a=concretize(s,REG(I.o.back())[0]); auto it=faddr.find(a); if(it==faddr.end()) violation(s,"memory","call through invalid function pointer"); F=it->second; na--; }
		Fn* g=getFn(F);
		if(!g) { extCall(s,f,I,F->getName()); break; }
		std::vector<Val> args; for(size_t i=0;i<na;i++) args.push_back(REG(I.o[i]));
		pushCall(s,g,I.dst,args); return;
	}
	case Instruction::Fence: break;
	case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: die("atomic");
	default: { std::string q; raw_string_ostream o(q); I.I->print(o); die("instruction: "+o.str()); }
	}
	s.fr.back().idx++;
}
