// Driver: runs many seeded simulations in forked children, collects statistics, and turns a failing
// run into a gated, minimised, replayable report.
#include "core.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim{
static std::vector<Scenario>&scens(){ static std::vector<Scenario>v; return v; }
void register_scenario(const char*n,void(*f)(int)){ scens().push_back({n,f}); }
}
using namespace sim;

static int tier=0; static std::string base; static double now(){ struct timespec t; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static Scenario*scenario=nullptr; static int cpu_limit=25;
#ifdef SIM_ASAN
static const char*build="a";
#else
#ifdef SIM_FALLBACK
static const char*build="f";
#else
static const char*build="t";
#endif
#endif

static void rm_contents(const std::string&d){ DIR*x=opendir(d.c_str()); if(!x) return; while(struct dirent*e=readdir(x)){ std::string n=e->d_name; if(n=="."||n=="..") continue; std::string p=d+"/"+n; struct stat st; if(lstat(p.c_str(),&st)==0&&S_ISDIR(st.st_mode)){ rm_contents(p); rmdir(p.c_str()); } else unlink(p.c_str()); } closedir(x); }

static void child(const Plan&plan,const std::string&dir){
	int fd=::open((dir+".err").c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); if(fd>=0){ dup2(fd,2); ::close(fd); }
	fd=::open("/dev/null",O_RDWR); if(fd>=0){ dup2(fd,1); dup2(fd,0); ::close(fd); }
	struct rlimit r; r.rlim_cur=(rlim_t)cpu_limit; r.rlim_max=(rlim_t)cpu_limit+2; setrlimit(RLIMIT_CPU,&r); r.rlim_cur=r.rlim_max=0; setrlimit(RLIMIT_CORE,&r);
#ifndef SIM_ASAN
	r.rlim_cur=r.rlim_max=24ull<<30; setrlimit(RLIMIT_AS,&r);
#endif
	for(int s:{SIGINT,SIGTERM,SIGPIPE}) signal(s,SIG_DFL);
	scratch=dir+"/"; io_reset(); mem_set_fill((int)((plan.seed*0x9e3779b97f4a7c15ull)>>57)+1);
	start(plan); mem_arena_start();
	try{ scenario->fn(tier); }
	catch(std::exception&e){ violation("unexpected_exception",std::string("exception left the scenario: ")+e.what()); }
	catch(...){ violation("unexpected_exception","an exception of unknown type left the scenario"); }
	if(g_active) internal_error("scenario ended with active threads");
	finish();
	if(shm->status==0) shm->status=1;
	syscall(SYS_exit_group,0);
}
struct Result{ int status; std::string cls,msg; uint64_t hash; };
static std::string slurp(const std::string&p,size_t lim=20000){ std::string s; FILE*f=::fopen(p.c_str(),"r"); if(!f) return s; char b[4096]; size_t n; while((n=fread(b,1,sizeof b,f))>0&&s.size()<lim) s.append(b,n); ::fclose(f); return s; }
static void reset_shared(Shared*s){
	// the trace arrays are large: clear only the used part of the header
	s->status=0; s->cls[0]=0; s->msg[0]=0; s->hash=s->schedhash=0; s->steps=s->accesses=s->switches=s->vtime_ns=s->obs=0; memset(s->fired,0,sizeof s->fired); s->checks=0; s->threads=0; s->nW=0; s->nP=0; s->Poverflow=0; s->nF=0; s->note[0]=0; s->known=0; s->feature=0;
}
static Result run_one(Shared*s,const Plan&plan,const std::string&dir){
	reset_shared(s); shm=s;
	mkdir(dir.c_str(),0700); rm_contents(dir);
	fflush(stdout);
	pid_t p=fork();
	if(p<0){ fprintf(stderr,"sim: fork failed\n"); exit(3); }
	if(p==0){ child(plan,dir); _exit(99); }
	int st=0; double t0=now(); bool hung=false;
	for(;;){ // blocking wait; the CPU limit ends runaway children, the wall clock limit catches blocked ones
		pid_t w=waitpid(p,&st,WNOHANG); if(w==p) break;
		struct timespec ts={0,200000}; syscall(SYS_nanosleep,&ts,nullptr);
		double d=now()-t0; if(d>0.05){ ts.tv_nsec=5000000; syscall(SYS_nanosleep,&ts,nullptr); }
		if(d>600){ hung=true; kill(p,SIGKILL); waitpid(p,&st,0); break; }
	}
	Result r; r.status=s->status; r.cls=s->cls; r.msg=s->msg;
	if(r.status==0){ // died without reporting
		std::string err=slurp(dir+".err");
		if(hung){ r.status=2; r.cls="hang"; r.msg="the run made no progress for 600 s of wall-clock time"; }
		else if(WIFSIGNALED(st)){
			int sg=WTERMSIG(st);
			if(sg==SIGXCPU||sg==SIGKILL){ if(sg==SIGXCPU){ r.status=2; r.cls="runaway"; r.msg="the run used more than "+std::to_string(cpu_limit)+" s of CPU time"; } else { r.status=3; r.msg="child killed (out of memory?)"; } }
			else { r.status=2; r.cls=std::string("crash:")+(sg==SIGSEGV?"SIGSEGV":sg==SIGABRT?"SIGABRT":sg==SIGBUS?"SIGBUS":sg==SIGFPE?"SIGFPE":sg==SIGILL?"SIGILL":"signal"+std::to_string(sg)); r.msg="the process died: "+err.substr(0,600); }
		}else if(WEXITSTATUS(st)==77){
			size_t k=err.find("ERROR: AddressSanitizer: "); std::string kind="error"; if(k!=std::string::npos){ k+=25; size_t e=err.find_first_of(" \n:",k); kind=err.substr(k,e-k); }
			if(kind=="allocation-size-too-big"||kind=="out-of-memory"||kind=="requested"){ r.status=1; } // ASan cannot throw bad_alloc; the T build covers this
			else { r.status=2; r.cls="memory:"+kind; r.msg=err.substr(0,1200); }
		}else{ r.status=2; r.cls="exit:"+std::to_string(WEXITSTATUS(st)); r.msg="the process ended itself with status "+std::to_string(WEXITSTATUS(st))+": "+err.substr(0,600); }
	}
	r.hash=s->hash;
	return r;
}

// ------------------------------------------------------------------ replay files
static void save_replay(const std::string&file,const std::string&prop,const Plan&p,const Result&r,const char*note,bool seed_only){
	FILE*f=::fopen(file.c_str(),"w"); if(!f){ fprintf(stderr,"cannot write %s\n",file.c_str()); exit(3); }
	fprintf(f,"simreplay 1\nproperty %s\nbuild %s\nscenario %s\ntier %d\nseed %llu\nmode %s\nclass %s\n",prop.c_str(),build,scenario->name,tier,(unsigned long long)p.seed,seed_only?"seed":"trace",r.cls.c_str());
	if(!seed_only){
		fprintf(f,"W %zu",p.W.size()); for(auto x:p.W) fprintf(f," %llu",(unsigned long long)x); fprintf(f,"\n");
		fprintf(f,"P %zu",p.P.size()); for(auto&x:p.P) fprintf(f," %u:%u:%llu",x.tid,x.target,(unsigned long long)x.step); fprintf(f,"\n");
		fprintf(f,"F %zu",p.F.size()); for(auto&x:p.F) fprintf(f," %u:%u:%llu:%llu",x.site,x.kind,(unsigned long long)x.idx,(unsigned long long)x.arg); fprintf(f,"\n");
	}
	fprintf(f,"# violation: %s\n",r.msg.c_str());
	for(auto&x:p.F) fprintf(f,"# fault: %s at %s event %llu (argument %llu)\n",kind_name[x.kind],site_name[x.site],(unsigned long long)x.idx,(unsigned long long)x.arg);
	for(auto&x:p.P) fprintf(f,"# schedule: thread %u gives way to thread %u after its step %llu\n",x.tid,x.target,(unsigned long long)x.step);
	std::string n=note; size_t a=0; while(a<n.size()){ size_t b=n.find('\n',a); if(b==std::string::npos) b=n.size(); fprintf(f,"# workload: %s\n",n.substr(a,b-a).c_str()); a=b+1; }
	::fclose(f);
}
static bool load_replay(const std::string&file,Plan&p,std::string&prop,std::string&scen,std::string&cls,std::string&bld){
	FILE*f=::fopen(file.c_str(),"r"); if(!f) return false;
	char*line=nullptr; size_t cap=0; ssize_t n; bool seed_only=false; p.replay=true;
	while((n=getline(&line,&cap,f))>0){
		std::string s(line,(size_t)n); while(!s.empty()&&s.back()=='\n') s.pop_back();
		size_t k=s.find(' '); std::string key=s.substr(0,k), v= k==std::string::npos?"":s.substr(k+1);
		if(key=="property") prop=v; else if(key=="scenario") scen=v; else if(key=="class") cls=v; else if(key=="build") bld=v; else if(key=="tier") tier=atoi(v.c_str());
		else if(key=="seed") p.seed=strtoull(v.c_str(),nullptr,10); else if(key=="mode") seed_only=v=="seed";
		else if(key=="W"||key=="P"||key=="F"){ char*c=&v[0]; size_t m=strtoull(c,&c,10); for(size_t i=0;i<m;++i){ uint64_t a=strtoull(c,&c,10); if(key=="W"){ p.W.push_back(a); continue; } ++c; uint64_t b=strtoull(c,&c,10); ++c; uint64_t d=strtoull(c,&c,10); if(key=="P"){ p.P.push_back({(uint32_t)a,(uint32_t)b,d}); continue; } ++c; uint64_t e=strtoull(c,&c,10); p.F.push_back({(uint32_t)a,(uint32_t)b,d,e}); } }
	}
	free(line); ::fclose(f); if(seed_only) p.replay=false;
	return true;
}

// ------------------------------------------------------------------ minimisation
static Shared*map_shared(){ Shared*s=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(s==MAP_FAILED){ perror("mmap"); exit(3);} return s; }
static Plan plan_of(const Shared*s,uint64_t seed){ Plan p; p.replay=true; p.seed=seed; p.W.assign(s->W,s->W+s->nW); p.P.assign(s->P,s->P+s->nP); p.F.assign(s->F,s->F+s->nF); return p; }
static int tries=0;
static bool still(Shared*s,const Plan&p,const std::string&cls,const std::string&dir,Result*out=nullptr){ ++tries; Result r=run_one(s,p,dir); if(out) *out=r; return r.status==2&&r.cls==cls; }
template<class T> static void ddmin(Shared*s,Plan&p,std::vector<T> Plan::*m,const std::string&cls,const std::string&dir,double until){
	{ Plan q=p; (q.*m).clear(); if((p.*m).size()&&still(s,q,cls,dir)){ p=q; return; } }
	size_t n=2;
	while((p.*m).size()>=1&&now()<until){
		size_t len=(p.*m).size(); if(n>len) n=len;
		bool red=false;
		for(size_t i=0;i<n&&now()<until;++i){ size_t a=len*i/n,b=len*(i+1)/n; if(a==b) continue; Plan q=p; (q.*m).erase((q.*m).begin()+(long)a,(q.*m).begin()+(long)b); if(still(s,q,cls,dir)){ p=q; n= n>2?n-1:2; red=true; break; } }
		if(!red){ if(n>=len) break; n=std::min(len,n*2); }
	}
}
static void minimise(Shared*s,Plan&p,const std::string&cls,const std::string&dir,double until){
	ddmin(s,p,&Plan::F,cls,dir,until);
	ddmin(s,p,&Plan::P,cls,dir,until);
	// workload: cut the tail, then zero chunks, then shrink values
	auto zero=[&](double lim){
		size_t n=1; while(now()<lim){ bool any=false; size_t len=p.W.size(); if(n>len) break; for(size_t i=0;i<n&&now()<lim;++i){ size_t a=len*i/n,b=len*(i+1)/n; Plan q=p; bool ch=false; for(size_t k=a;k<b;++k) if(q.W[k]){ q.W[k]=0; ch=true; } if(ch&&still(s,q,cls,dir)){ p=q; any=true; } } (void)any; if(n>=len) break; n=std::min(len,n*2); }
		for(size_t i=0;i<p.W.size()&&now()<lim;++i) while(p.W[i]>1&&now()<lim){ Plan q=p; q.W[i]/=2; if(still(s,q,cls,dir)) p=q; else break; }
	};
	zero(until);
	ddmin(s,p,&Plan::P,cls,dir,until); ddmin(s,p,&Plan::F,cls,dir,until);
	while(!p.W.empty()&&p.W.back()==0) p.W.pop_back(); // missing choices replay as 0
}

// ------------------------------------------------------------------ batch
struct Agg{
	std::atomic<uint64_t>next; std::atomic<int>stop; std::atomic<uint64_t>runs,steps,accesses,switches,vtime,obs,checks,threads,recheck,mismatch,internal,known,hashes,nonempty;
	std::atomic<uint64_t>fired[S_COUNT][K_COUNT]; std::atomic<uint64_t>runs_with[S_COUNT][K_COUNT]; std::atomic<uint64_t>feat[64];
	std::atomic<int>vlock; uint64_t vseed; bool vslow; Result*none; char imsg[1500]; char knownmsg[8][200];
	char samples[6][700]; std::atomic<uint32_t>nsamples; std::atomic<uint64_t>maxsteps,maxms,maxseed;
	uint64_t hash[1u<<22];
};
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=(char)c; } else if(c=='\n') o+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,sizeof b,"\\u%04x",c); o+=b; } else o+=(char)c; } return o; }

int main(int argc,char**argv){
	if(!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); int p=personality(0xffffffff); if(p>=0&&!(p&ADDR_NO_RANDOMIZE)&&personality((unsigned long)p|ADDR_NO_RANDOMIZE)>=0){
#ifdef SIM_ASAN
		setenv("ASAN_OPTIONS","detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8:symbolize=0",1);
#endif
		execv("/proc/self/exe",argv); } 
#ifdef SIM_ASAN
		else { setenv("ASAN_OPTIONS","detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8:symbolize=0",1); execv("/proc/self/exe",argv); }
#endif
	}
	std::map<std::string,std::string>o; for(int i=1;i<argc;++i){ std::string a=argv[i]; if(a.substr(0,2)!="--") continue; a=a.substr(2); if(a=="list"||a=="twice"||a=="verbose"||a=="keepgoing") o[a]="1"; else if(i+1<argc) o[a]=argv[++i]; }
	if(o.count("list")){ for(auto&s:scens()) printf("%s\n",s.name); return 0; }
	if(o.count("tier")) tier=o["tier"]=="thorough"?1:0;
	if(o.count("cpu-limit")) cpu_limit=atoi(o["cpu-limit"].c_str());
	{ const char*t=access("/dev/shm",W_OK)==0?"/dev/shm":"/tmp"; if(o.count("scratch")) t=o["scratch"].c_str(); std::string tmpl=std::string(t)+"/rksim.XXXXXX"; std::vector<char>b(tmpl.begin(),tmpl.end()); b.push_back(0); if(!mkdtemp(b.data())){ perror("mkdtemp"); return 3; } base=b.data(); }
	struct Cleanup{ pid_t me=getpid(); ~Cleanup(){ if(getpid()==me){ rm_contents(base); rmdir(base.c_str()); } } }cl;
	auto find=[&](const std::string&n)->Scenario*{ for(auto&s:scens()) if(n==s.name) return &s; fprintf(stderr,"unknown scenario %s\n",n.c_str()); return nullptr; };
	Shared*ms=map_shared();
	if(o.count("replay")){
		Plan p; std::string prop,sc,cls,bld; if(!load_replay(o["replay"],p,prop,sc,cls,bld)){ fprintf(stderr,"cannot read replay file\n"); return 3; }
		if(!(scenario=find(sc))) return 3;
		Result r=run_one(ms,p,base+"/r");
		if(r.status==2){ printf("REPRODUCED class=%s expected=%s hash=%016llx\n%s\n%s\n",r.cls.c_str(),cls.c_str(),(unsigned long long)r.hash,r.msg.c_str(),ms->note); return r.cls==cls?1:4; }
		if(r.status==3){ printf("INTERNAL %s\n",r.msg.c_str()); return 3; }
		printf("not reproduced (status %d)\n",r.status); return 0;
	}
	if(!(scenario=find(o["scenario"]))) return 3;
	uint64_t seed0=o.count("seed")?strtoull(o["seed"].c_str(),nullptr,10):1; uint64_t count=o.count("count")?strtoull(o["count"].c_str(),nullptr,10):~0ull; double tlim=o.count("time")?atof(o["time"].c_str()):1e9; int workers=o.count("workers")?atoi(o["workers"].c_str()):8;
	double minlim=o.count("min-time")?atof(o["min-time"].c_str()):40;
	uint64_t recheck_every=o.count("twice")?1:64;
	{ uint64_t h=1469598103934665603ull; for(const char*c=scenario->name;*c;++c){ h^=(unsigned char)*c; h*=1099511628211ull; } seed0=Rng(seed0*0x9e3779b97f4a7c15ull^h).next()>>16; } // scenarios get unrelated seed ranges
	if(o.count("one")){ // single seed, verbose
		Plan p; p.seed=strtoull(o["one"].c_str(),nullptr,10); Result r=run_one(ms,p,base+"/r"); printf("status %d class %s hash %016llx steps %llu accesses %llu switches %llu threads %llu nP %u nW %u nF %u checks %llu feature %llx\n%s\n%s\n",r.status,r.cls.c_str(),(unsigned long long)r.hash,(unsigned long long)ms->steps,(unsigned long long)ms->accesses,(unsigned long long)ms->switches,(unsigned long long)ms->threads,ms->nP,ms->nW,ms->nF,(unsigned long long)ms->checks,(unsigned long long)ms->feature,r.msg.c_str(),ms->note);
		if(r.status!=3){ Plan q=plan_of(ms,p.seed); Result r2=run_one(ms,q,base+"/r"); printf("trace replay: status %d class %s hash %016llx %s\n",r2.status,r2.cls.c_str(),(unsigned long long)r2.hash,r2.hash==r.hash?"same":"DIFFERENT"); }
		return r.status==2?1:0;
	}
	Agg*A=(Agg*)mmap(nullptr,sizeof(Agg),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	double t0=now(),wall=0; int unreproduced=0; int rc=0; std::string vcls,vmsg,vfile,vnote; double mint=0; size_t nP=0,nF=0,nW=0; bool seed_only=false;
	for(;;){ // until the time is used up or a failure has passed the gate
	std::vector<pid_t>pids; int ncpu=(int)sysconf(_SC_NPROCESSORS_ONLN);
	cpu_set_t allowed; CPU_ZERO(&allowed); std::vector<int>cpus; if(sched_getaffinity(0,sizeof allowed,&allowed)==0) for(int i=0;i<CPU_SETSIZE;++i) if(CPU_ISSET(i,&allowed)) cpus.push_back(i); (void)ncpu;
	for(int w=0;w<workers;++w){
		pid_t pid=fork();
		if(pid==0){
			if(!cpus.empty()){ cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpus[(size_t)w%cpus.size()],&cs); sched_setaffinity(0,sizeof cs,&cs); }
			Shared*s=map_shared(); std::string dir=base+"/w"+std::to_string(w);
			while(!A->stop&&now()-t0<tlim){
				uint64_t i=A->next++; if(i>=count) break;
				Plan p; p.seed=seed0+i;
				double rt0=now(); Result r=run_one(s,p,dir); { uint64_t ms_=(uint64_t)((now()-rt0)*1000); if(ms_>A->maxms){ A->maxms=ms_; A->maxseed=p.seed; } }
				if(r.status==3){ ++A->internal; int e=0; if(A->vlock.compare_exchange_strong(e,2)) snprintf(A->imsg,sizeof A->imsg,"seed %llu: %s",(unsigned long long)p.seed,r.msg.c_str()); A->stop=1; break; }
				++A->runs; A->steps+=s->steps; if(s->steps>A->maxsteps) A->maxsteps=s->steps; A->accesses+=s->accesses; A->switches+=s->switches; A->vtime+=s->vtime_ns; A->obs+=s->obs; A->checks+=s->checks; A->threads+=s->threads;
				for(int a=0;a<S_COUNT;++a) for(int b=0;b<K_COUNT;++b) if(s->fired[a][b]){ A->fired[a][b]+=s->fired[a][b]; ++A->runs_with[a][b]; }
				for(int a=0;a<64;++a) if(s->feature>>a&1) ++A->feat[a];
				if(s->checks) ++A->nonempty;
				uint64_t k=A->hashes++; if(k<(1u<<22)) A->hash[k]= s->checks? (s->hash|1) : 0;
				if(s->known) { ++A->known; for(uint32_t j=0;j<s->known;++j){ for(int q=0;q<8;++q){ if(!A->knownmsg[q][0]){ memcpy(A->knownmsg[q],s->knownmsg[j],200); break; } if(!strcmp(A->knownmsg[q],s->knownmsg[j])) break; } } }
				if(s->note[0]&&A->nsamples<3){ uint32_t q=A->nsamples++; if(q<3) snprintf(A->samples[q],700,"seed %llu: %s | schedule switches %llu, faults fired %u, oracle checks %llu",(unsigned long long)p.seed,s->note,(unsigned long long)s->switches,s->nF,(unsigned long long)s->checks); }
				if(r.status==2){ if(o.count("keepgoing")){ fprintf(stderr,"seed %llu: %s: %s\n",(unsigned long long)p.seed,r.cls.c_str(),r.msg.substr(0,300).c_str()); continue; } int e=0; if(A->vlock.compare_exchange_strong(e,1)){ A->vseed=p.seed; A->vslow=r.cls=="runaway"; } A->stop=1; break; }
				if(i%recheck_every==0){
					uint64_t h=s->hash; int st=s->status; std::string c=s->cls; bool ov=s->Poverflow; Plan q=plan_of(s,p.seed);
					Result r2= (i/recheck_every)%2&&!ov ? run_one(s,q,dir) : run_one(s,p,dir); // alternately: same seed again, recorded trace replayed
					++A->recheck; if(r2.hash!=h||r2.status!=st||r2.cls!=c){ ++A->mismatch; if(o.count("twice")) fprintf(stderr,"MISMATCH seed %llu %016llx/%d vs %016llx/%d %s\n",(unsigned long long)p.seed,(unsigned long long)h,st,(unsigned long long)r2.hash,r2.status,(i/recheck_every)%2?"trace":"seed"); }
				}
			}
			_exit(0);
		}
		pids.push_back(pid);
	}
	for(pid_t p:pids){ int st; waitpid(p,&st,0); }
	wall=now()-t0;
	if(A->vlock==2){ fprintf(stderr,"sim: internal error in scenario %s: %s\n",scenario->name,A->imsg); rc=3; }
	else if(A->vlock==1){
		rc=1; double m0=now();
		Plan p; p.seed=A->vseed; std::string dir=base+"/m"; int keep=cpu_limit; if(A->vslow) cpu_limit*=2; // a slow run is not a runaway run
		Result r1=run_one(ms,p,dir); Plan tr=plan_of(ms,p.seed); bool ov=ms->Poverflow!=0; vnote=ms->note; std::string note1=ms->note;
		Result r2=run_one(ms,p,dir);
		if(r1.status!=2||r2.status!=2||r1.cls!=r2.cls){ fprintf(stderr,"sim: gate failed: seed %llu did not fail the same way twice (%d %s / %d %s)\n",(unsigned long long)p.seed,r1.status,r1.cls.c_str(),r2.status,r2.cls.c_str()); rc=3; if(!A->vslow) ++unreproduced; else rc=0; }
		else{
			bool hash_same=r1.hash==r2.hash;
			Result rt=r1; seed_only = ov || !still(ms,tr,r1.cls,dir,&rt);
			if(!seed_only) minimise(ms,tr,r1.cls,dir,now()+minlim);
			Result fin; Plan use= seed_only?p:tr; if(!still(ms,use,r1.cls,dir,&fin)){ seed_only=true; use=p; fin=r1; } else vnote=ms->note;
			vfile=o["replay-dir"]+"/"+o["property"]+"-"+scenario->name+"-"+std::to_string(p.seed)+".replay";
			save_replay(vfile,o["property"],use,fin,vnote.c_str(),seed_only);
			vcls=fin.cls; vmsg=fin.msg; nP=use.P.size(); nF=use.F.size(); nW=use.W.size();
			// fresh process
			std::string cmd=std::string("/proc/self/exe"); pid_t c=fork(); if(c==0){ int fd=::open("/dev/null",O_WRONLY); dup2(fd,1); execl("/proc/self/exe",argv[0],"--replay",vfile.c_str(),(char*)nullptr); _exit(9); } int st; waitpid(c,&st,0);
			if(!(WIFEXITED(st)&&WEXITSTATUS(st)==1)){ fprintf(stderr,"sim: gate failed: replay file %s does not reproduce in a fresh process\n",vfile.c_str()); rc=3; }
			else printf("VIOLATED scenario=%s seed=%llu class=%s replay=%s hash_stable=%d minimised: %zu preemptions, %zu faults, %zu choices (%d attempts)\n%s\n%s\n",scenario->name,(unsigned long long)p.seed,vcls.c_str(),vfile.c_str(),(int)hash_same,nP,nF,nW,tries,vmsg.c_str(),vnote.c_str());
		}
		cpu_limit=keep; mint=now()-m0;
	}
	if(rc==1||A->vlock!=1||unreproduced>=8||now()-t0>=tlim+60||A->next>=count) break;
	if(now()-t0>=tlim) break;
	A->vlock=0; A->stop=0;
	}
	if(rc==0&&unreproduced) rc=3;
	uint64_t nh=std::min<uint64_t>(A->hashes,1u<<22); std::sort(A->hash,A->hash+nh); uint64_t distinct=0; for(uint64_t i=0;i<nh;++i) if(A->hash[i]&&(i==0||A->hash[i]!=A->hash[i-1])) ++distinct;
	if(o.count("out")){
		FILE*f=::fopen(o["out"].c_str(),"w"); if(!f){ perror("out"); return 3; }
		fprintf(f,"{\"scenario\":\"%s\",\"build\":\"%s\",\"rc\":%d,\"runs\":%llu,\"nontrivial_runs\":%llu,\"distinct\":%llu,\"wall_s\":%.3f,\"minimise_s\":%.3f,\"sync_steps\":%llu,\"memory_accesses\":%llu,\"context_switches\":%llu,\"simulated_s\":%.6f,\"observations\":%llu,\"oracle_checks\":%llu,\"threads\":%llu,\"determinism_rechecks\":%llu,\"determinism_mismatches\":%llu,\"first_seed\":%llu,\"known_runs\":%llu,\"slowest_run_ms\":%llu,\"unreproduced\":%d",
			scenario->name,build,rc,(unsigned long long)A->runs,(unsigned long long)A->nonempty,(unsigned long long)distinct,wall,mint,(unsigned long long)A->steps,(unsigned long long)A->accesses,(unsigned long long)A->switches,1e-9*(double)A->vtime,(unsigned long long)A->obs,(unsigned long long)A->checks,(unsigned long long)A->threads,(unsigned long long)A->recheck,(unsigned long long)A->mismatch,(unsigned long long)seed0,(unsigned long long)A->known,(unsigned long long)A->maxms,unreproduced);
		fprintf(f,",\"faults\":{"); bool first=true; for(int a=0;a<S_COUNT;++a) for(int b=0;b<K_COUNT;++b) if(A->fired[a][b]){ fprintf(f,"%s\"%s/%s\":[%llu,%llu]",first?"":",",site_name[a],kind_name[b],(unsigned long long)A->fired[a][b],(unsigned long long)A->runs_with[a][b]); first=false; }
		fprintf(f,"},\"features\":{"); first=true; for(int a=0;a<64;++a) if(A->feat[a]){ fprintf(f,"%s\"%d\":%llu",first?"":",",a,(unsigned long long)A->feat[a]); first=false; }
		fprintf(f,"},\"samples\":["); for(uint32_t i=0;i<std::min<uint32_t>(3,A->nsamples);++i) fprintf(f,"%s\"%s\"",i?",":"",jesc(A->samples[i]).c_str());
		fprintf(f,"],\"known\":["); first=true; for(int q=0;q<8;++q) if(A->knownmsg[q][0]){ fprintf(f,"%s\"%s\"",first?"":",",jesc(A->knownmsg[q]).c_str()); first=false; }
		fprintf(f,"],\"violation\":"); if(rc==1) fprintf(f,"{\"seed\":%llu,\"class\":\"%s\",\"message\":\"%s\",\"replay\":\"%s\",\"preemptions\":%zu,\"faults\":%zu,\"seed_only\":%s}",(unsigned long long)A->vseed,jesc(vcls).c_str(),jesc(vmsg).c_str(),jesc(vfile).c_str(),nP,nF,seed_only?"true":"false"); else fprintf(f,"null");
		fprintf(f,"}\n"); ::fclose(f);
	}
	if(o.count("verbose")||o.count("twice")) printf("%s[%s]: %llu runs (%llu distinct) in %.1f s, %.0f runs/s, switches/run %.1f, accesses/run %.0f, checks/run %.1f, rechecks %llu mismatches %llu, slowest run %llu ms (seed %llu), most steps %llu\n",scenario->name,build,(unsigned long long)A->runs,(unsigned long long)distinct,wall,A->runs/wall,(double)A->switches/std::max<uint64_t>(1,A->runs),(double)A->accesses/std::max<uint64_t>(1,A->runs),(double)A->checks/std::max<uint64_t>(1,A->runs),(unsigned long long)A->recheck,(unsigned long long)A->mismatch,(unsigned long long)A->maxms,(unsigned long long)A->maxseed,(unsigned long long)A->maxsteps.load());
	if(o.count("twice")&&A->mismatch&&rc==0) rc=3;
	return rc;
}
