static void setupGlobals(State& s) {
	uint64_t fa=0x1000; for(auto& F: *M) { gaddr[&F]=fa; faddr[fa]=&F; fa+=16; }
	uint64_t p=0x10000000;
	std::vector<GlobalVariable*> gs; for(auto& g: M->globals()) gs.push_back(&g);
	for(auto* g: gs) {
		if(g->getName().starts_with("llvm.")) { gaddr[g]=0x10; continue; }
		uint64_t sz=DL->getTypeAllocSize(g->getValueType()); uint64_t al=std::max<uint64_t>(64,g->getAlign().valueOrOne().value()); while(al<sz&&al<(1u<<24)) al<<=1;
		p=alignUp(p,al); gaddr[g]=p; auto d=std::make_shared<ObjData>(); d->b.assign(sz,0);
		uint32_t fl=OF_GLOBAL|(g->isConstant()?OF_CONST:0)|(g->isThreadLocal()?OF_EXEMPT:0);
		s.glob.push_back(Obj{p,sz,d,fl,verCounter++,internStr(g->getName().str())}); p+=sz+8192;
	}
	for(auto* g: gs) if(g->hasInitializer() && !g->getName().starts_with("llvm.")) { Obj* o=findObj(s,gaddr[g]); if(!o) continue; std::vector<std::pair<uint64_t,unsigned>> ft; flatTypes(g->getValueType(),0,ft); Val v=evalConst(g->getInitializer()); for(size_t i=0;i<ft.size();i++) stWord(*o,ft[i].first,v[i]); }
}
static bool runState(State& s) { // true if it ran to completion
	pathInstr=0;
	try { while(!s.fr.empty()) step(s); } catch(PathEnd&) { return false; }
	return true;
}
static void explore() {
	while(!work.empty() && !stopTask) {
		if(now()-tStart>tLimit || S.paths>=maxPaths) { outf("{\"type\":\"incomplete\",\"pending\":%zu,%s}\n", work.size(), jsonParams().c_str()); work.clear(); return; }
		auto s=std::move(work.back()); work.pop_back();
		if(runState(*s)) { S.paths++; if(S.traces<(uint64_t)maxTraces || (maxTraces && !(S.paths&(S.paths-1)) && S.traces<(uint64_t)maxTraces*4)) trace(*s); }
	}
}
static void stats(double t0) {
	outf("{\"type\":\"stats\",%s,\"instrs\":%llu,\"branches\":%llu,\"forks\":%llu,\"paths\":%llu,\"queries\":%llu,\"z3_queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"asserts\":%llu,\"asserts_rewrite\":%llu,\"asserts_solver\":%llu,\"violations\":%llu,\"infeasible\":%llu,\"ztime\":%.3f,\"time\":%.3f,\"nodes\":%zu,\"reach\":{", jsonParams().c_str(),
		(unsigned long long)S.instrs,(unsigned long long)S.branches,(unsigned long long)S.forks,(unsigned long long)S.paths,(unsigned long long)S.queries,(unsigned long long)S.zq,(unsigned long long)S.qsat,(unsigned long long)S.qunsat,(unsigned long long)S.asserts,(unsigned long long)S.assertsByRewrite,(unsigned long long)S.assertsBySolver,(unsigned long long)S.violations,(unsigned long long)S.infeasible,S.ztime,now()-t0,T.nodes.size());
	bool f=true; for(auto& r: reachCount) { outf("%s\"%s\":%llu",f?"":",",r.first.c_str(),(unsigned long long)r.second); f=false; }
	outf("},\"funcs\":["); f=true; for(auto& q: fns) if(q.second->used) { std::string n=q.first->getName().str(); if(n.compare(0,8,"harness")==0) continue; outf("%s\"%s\"",f?"":",",n.c_str()); f=false; } outf("]}\n"); outFlush();
}
static void runFn(State& s, const char* name) {
	Function* F=M->getFunction(name); if(!F||F->isDeclaration()) die(std::string("no function ")+name);
	std::vector<Val> a; pushCall(s,getFn(F),-1,a);
}
int main(int argc, char** argv) {
	signal(SIGABRT,onAbort);
	struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY && rl.rlim_cur < (2ull<<30) && !getenv("YSYM_STK")) { rl.rlim_cur = rl.rlim_max==RLIM_INFINITY? (4ull<<30) : rl.rlim_max; setrlimit(RLIMIT_STACK,&rl); setenv("YSYM_STK","1",1); execv("/proc/self/exe",argv); }
	std::string file, entry="harness", init="harness_init", tasks; int jobs=1; double taskLimit=1e18, total=1e18;
	for(int i=1;i<argc;i++) { std::string a=argv[i]; auto val=[&]()->std::string { return argv[++i]; };
		if(a=="--entry") entry=val(); else if(a=="--init") init=val(); else if(a=="--tasks") tasks=val(); else if(a=="--jobs") jobs=atoi(val().c_str());
		else if(a=="--param") { std::string p=val(); size_t e=p.find('='); params[p.substr(0,e)]=strtol(p.c_str()+e+1,0,0); }
		else if(a=="--task-time") taskLimit=atof(val().c_str()); else if(a=="--time") total=atof(val().c_str()); else if(a=="--max-paths") maxPaths=strtoull(val().c_str(),0,0); else if(a=="--traces") maxTraces=atoi(val().c_str()); else if(a=="--prop") onlyProp=val(); else if(a=="--lenient") lenient=true; else if(a=="--seed") seed=strtoull(val().c_str(),0,0); else if(a=="--anf") T.anf=true; else if(a=="--z3") useZ3=true; else if(a=="--xcheck") xcheck=atoi(val().c_str()); else if(a=="--instr-limit") instrLimit=strtoull(val().c_str(),0,0); else if(a=="--max-viol") maxViol=atoi(val().c_str());
		else file=a; }
	{ FILE* lf=tmpfile(); if(lf) lockFd=fileno(lf); }
	LLVMContext ctx; SMDiagnostic err; M=parseIRFile(file,err,ctx); if(!M) die("cannot parse "+file);
	DL=&M->getDataLayout();
	tStart=now();
	auto s=std::make_unique<State>(); setupGlobals(*s);
	// static constructors, then the harness initialiser, both concrete
	if(auto* gc=M->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto* ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto& u: ca->operands()) { auto* st=cast<ConstantStruct>(u); if(auto* F=dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) { std::vector<Val> a; pushCall(*s,getFn(F),-1,a); if(!runState(*s)||!work.empty()) die("static constructor"); } }
	std::vector<std::map<std::string,long>> tl;
	if(!tasks.empty()) { FILE* fp=fopen(tasks.c_str(),"r"); if(!fp) die("tasks"); char line[4096]; while(fgets(line,sizeof line,fp)) { std::map<std::string,long> m=params; char* q=strtok(line," \n"); while(q) { char* e=strchr(q,'='); if(e) { *e=0; m[q]=strtol(e+1,0,0); } q=strtok(nullptr," \n"); } tl.push_back(m); } fclose(fp); }
	else tl.push_back(params);
	// group tasks by their "init" parameters: the initialiser may read parameter isa; run it once per distinct value
	std::map<long,std::unique_ptr<State>> inits;
	auto getInit=[&](std::map<std::string,long>& m)->State* {
		long k=m.count("isa")?m["isa"]:-1; auto it=inits.find(k); if(it!=inits.end()) return it->second.get();
		auto c=std::make_unique<State>(*s); params=m; Function* F=M->getFunction(init);
		if(F&&!F->isDeclaration()) { uint64_t il=instrLimit; instrLimit=~0ull; runFn(*c,init.c_str()); if(!runState(*c)||!work.empty()) die("initialiser did not run concretely"); instrLimit=il; }
		State* p=c.get(); inits[k]=std::move(c); return p;
	};
	if(jobs<=1 && tl.size()==1) {
		State* b=getInit(tl[0]); params=tl[0]; double t0=now(); tStart=t0; tLimit=std::min(taskLimit,total);
		auto st=std::make_unique<State>(*b); st->inputs.clear(); runFn(*st,entry.c_str()); work.push_back(std::move(st)); explore(); stats(t0); outFlush(); _exit(0);
	}
	// run all initialisers once, then fork workers that take tasks from a shared pipe
	for(auto& m: tl) getInit(m);
	int pp[2]; if(pipe(pp)) die("pipe");
	outFlush();
	double tAll=now();
	std::vector<pid_t> kids;
	for(int j=0;j<jobs;j++) {
		pid_t p=fork();
		if(p==0) {
			close(pp[1]); int id;
			while(read(pp[0],&id,sizeof id)==(ssize_t)sizeof id) {
				// every task runs in its own child so that memory is returned
				pid_t q=fork();
				if(q==0) {
					params=tl[id]; S=Stats(); double t0=now(); tStart=t0; tLimit=std::min(taskLimit, total-(t0-tAll));
					if(tLimit<=0) { outf("{\"type\":\"incomplete\",\"pending\":-1,%s}\n",jsonParams().c_str()); outFlush(); _exit(0); }
					long k=params.count("isa")?params["isa"]:-1;
					auto st=std::make_unique<State>(*inits[k]); st->inputs.clear(); runFn(*st,entry.c_str()); work.push_back(std::move(st)); explore(); stats(t0); outFlush(); _exit(0);
				}
				int stt; waitpid(q,&stt,0);
				if(!WIFEXITED(stt)||WEXITSTATUS(stt)) { params=tl[id]; outf("{\"type\":\"crash\",\"status\":%d,%s}\n",stt,jsonParams().c_str()); outFlush(); }
			}
			_exit(0);
		}
		kids.push_back(p);
	}
	close(pp[0]);
	for(int i=0;i<(int)tl.size();i++) if(write(pp[1],&i,sizeof i)!=(ssize_t)sizeof i) die("write");
	close(pp[1]);
	for(pid_t k: kids) { int st; waitpid(k,&st,0); }
	outFlush(); _exit(0);
}
