#include "core.h"
#include <atomic>
#include <algorithm>
#include <map>
#include <memory>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim{

const char*site_name[S_COUNT]={"read","write","open","close","seek","alloc","thread_create","cond_wait","clock","byte_source","callback","team_size","sleep","damage"};
const char*kind_name[K_COUNT]={"none","short","eintr","eio","enospc","crash","nomem","eagain","spurious_wakeup","jump","throw","fewer_threads","emfile","truncate","flip","dup"};

Shared*shm=nullptr;
__thread Thread*self=nullptr;
__thread int tl_noacct=0;
volatile bool g_active=false; int g_frozen=0;
int64_t g_cd=INT64_MAX; static int64_t g_cd0=INT64_MAX;
SchedCfg sched; bool allow_spurious=false; int omp_procs=4; uint64_t sync_budget=60000;
bool workload_locked=false;
std::string scratch;

static const int MAXT=2048;
static Thread thr[MAXT]; static int nthr=0;
static int live[MAXT]; static int nlive=0;
static Plan plan; static Rng rw,rs,rf;
static size_t wcur=0;
static uint64_t vnow=0; static int64_t clock_off=0;
static uint64_t syncs=0; static bool fair=false;
static uint64_t waitseq=0;
static std::vector<Preempt>rp; // sorted replay preemptions
static Thread*last_exited=nullptr;
static uint64_t acc_total=0;

void*real_sym(const char*name){
	struct E{const char*n;void*p;}; static E tab[128]; static int n=0;
	for(int i=0;i<n;++i) if(tab[i].n==name) return tab[i].p;
	++tl_noacct; void*p=dlsym(RTLD_NEXT,name); --tl_noacct;
	if(!p){ fprintf(stderr,"sim: cannot resolve %s\n",name); abort(); }
	if(n<128){ tab[n].n=name; tab[n].p=p; ++n; }
	return p;
}
NoAcct::NoAcct(){++tl_noacct;} NoAcct::~NoAcct(){--tl_noacct;}

static long raw_futex(volatile int*a,int op,int v){ 
	// direct system call: the libc wrapper is interposed below
	long r; register long r10 asm("r10")=0; 
	asm volatile("syscall":"=a"(r):"a"((long)SYS_futex),"D"(a),"S"((long)op),"d"((long)v),"r"(r10):"rcx","r11","memory"); return r; }
static void park(Thread*t){ while(t->go==0) raw_futex(&t->go,FUTEX_WAIT_PRIVATE,0); t->go=0; std::atomic_thread_fence(std::memory_order_seq_cst); }
static void unpark(Thread*t){ std::atomic_thread_fence(std::memory_order_seq_cst); t->go=1; raw_futex(&t->go,FUTEX_WAKE_PRIVATE,1); }

void mix(uint64_t x){ uint64_t h=shm->hash; h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; shm->hash=h^(h>>32); }
static void mixs(uint64_t x){ uint64_t h=shm->schedhash; h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; shm->schedhash=h^(h>>32); }
void observe(uint64_t x){ mix(x^0x5bd1e995ull); ++shm->obs; }
void observe_bytes(const void*p,size_t n){ uint64_t h=1469598103934665603ull; for(size_t i=0;i<n;++i){ h^=((const unsigned char*)p)[i]; h*=1099511628211ull; } observe(h); observe(n); }

uint64_t draw(uint64_t n){
	if(workload_locked && self && self->id!=0) internal_error("workload choice drawn by a non-main thread");
	uint64_t v;
	if(plan.replay) v = wcur<plan.W.size()? std::min<uint64_t>(plan.W[wcur], n?n-1:0) : 0;
	else v=rw.below(n);
	++wcur;
	if(shm->nW<MAXW) shm->W[shm->nW++]=v;
	mix(v);
	return v;
}

[[noreturn]] static void die(){ syscall(SYS_exit_group,42); __builtin_unreachable(); }
static void printable(char*p){ for(;*p;++p) if((unsigned char)*p>126||((unsigned char)*p<32&&*p!='\n')) *p='?'; } // reports stay plain text
void violation(const char*cls,const std::string&msg){
	if(shm->status==0){
		snprintf(shm->cls,sizeof shm->cls,"%s",cls);
		snprintf(shm->msg,sizeof shm->msg,"%s",msg.c_str()); printable(shm->msg);
		finish(); // hash so far
		shm->status=2;
	}
	die();
}
void internal_error(const std::string&msg){
	if(shm->status==0){ shm->status=3; snprintf(shm->msg,sizeof shm->msg,"%s",msg.c_str()); printable(shm->msg); }
	die();
}
void known_finding(const std::string&msg){ for(uint32_t i=0;i<shm->known;++i) if(msg==shm->knownmsg[i]) return; if(shm->known<8) snprintf(shm->knownmsg[shm->known++],200,"%s",msg.c_str()); }
void note(const std::string&s){ size_t l=strlen(shm->note); snprintf(shm->note+l,sizeof shm->note-l,"%s",s.c_str()); printable(shm->note+l); }
void feature(int b){ shm->feature|=1ull<<b; }

// ------------------------------------------------------------------ fault streams
struct Prob{ uint32_t num,den; uint64_t argmax; };
static Prob prob[S_COUNT][K_COUNT]; static uint64_t site_idx[S_COUNT];
static std::vector<Fault>planned; static uint64_t run_fired[S_COUNT],run_fired_kind[K_COUNT];
static bool site_has_prob[S_COUNT];
Rng&fault_rng(){ return rf; }
uint64_t fired(Site s){ return run_fired[s]; }
uint64_t fired_kind(Kind k){ return run_fired_kind[k]; }
void plan_fault(Site s,uint64_t idx,Kind k,uint64_t arg){ Frozen z; planned.push_back({s,k,site_idx[s]+idx,arg}); }
void fault_prob(Site s,Kind k,uint32_t num,uint32_t den,uint64_t argmax){ prob[s][k]={num,den,argmax}; site_has_prob[s]=true; }
void clear_faults(){ memset(prob,0,sizeof prob); memset(site_has_prob,0,sizeof site_has_prob); planned.clear(); }
Fault fault_point(Site s){
	Fault f={s,K_NONE,site_idx[s]++,0};
	if(plan.replay){
		for(auto&x:plan.F) if(x.site==s&&x.idx==f.idx){ f.kind=x.kind; f.arg=x.arg; }
	}else{
		for(auto&x:planned) if(x.site==s&&x.idx==f.idx){ f.kind=x.kind; f.arg=x.arg; }
		if(f.kind==K_NONE&&site_has_prob[s]) for(uint32_t k=1;k<K_COUNT;++k) if(prob[s][k].num&&rf.chance(prob[s][k].num,prob[s][k].den)){ f.kind=k; f.arg=prob[s][k].argmax?rf.below(prob[s][k].argmax):0; break; }
	}
	if(f.kind!=K_NONE){
		++run_fired[s]; ++run_fired_kind[f.kind]; ++shm->fired[s][f.kind];
		if(shm->nF<MAXF) shm->F[shm->nF++]=f; else shm->Poverflow=1;
		mix(((uint64_t)s<<40)^((uint64_t)f.kind<<32)^f.idx); mix(f.arg);
	}
	return f;
}

// ------------------------------------------------------------------ start / finish
void start(const Plan&p){
	plan=p; rw=Rng(p.seed*0x9e3779b97f4a7c15ull+0x1111); rs=Rng(p.seed*0xc2b2ae3d27d4eb4full+0x2222); rf=Rng(p.seed*0x165667b19e3779f9ull+0x3333);
	rw.next(); rs.next(); rf.next();
	shm->hash=0; shm->schedhash=0;
	rp=p.P; std::sort(rp.begin(),rp.end(),[](const Preempt&a,const Preempt&b){ return a.tid!=b.tid?a.tid<b.tid:a.step<b.step; });
	shm->nW=0; shm->nP=0; shm->nF=0; wcur=0;
	Thread*t=&thr[0]; t->id=0; t->st=T_RUN; t->started=true; t->ktid=getpid(); nthr=1; live[0]=0; nlive=1; self=t;
	// scheduling strategy of this run
	static const uint32_t den[]={2,3,5,10,30}; static const uint64_t gaps[]={0,5,20,100,500,3000,20000};
	static const uint32_t cden[]={1,2,4,8};
	sched.strategy=(int)rs.below(3); sched.sync_num=1; sched.sync_den=den[rs.below(5)];
	sched.gap=gaps[rs.below(7)]; sched.conf_den=cden[rs.below(4)]; sched.pct_changes=(int)rs.below(5);
	t->prio=1000+(int)rs.below(1000);
	vnow=1700000000000000000ull+rs.below(1000000000);
	if(plan.replay){ t->pcur=rp.size(); t->pend=rp.size(); for(size_t i=0;i<rp.size();++i) if(rp[i].tid==0){ t->pcur=i; t->pend=i; while(t->pend<rp.size()&&rp[t->pend].tid==0) ++t->pend; break; } }
}
void finish(){ if(g_active){ /* flush */ } mix(syncs); mix(vnow); shm->steps=syncs; shm->accesses=acc_total; shm->vtime_ns=vnow-1700000000000000000ull; }
bool active(){ return g_active; }
uint64_t vclock(){ return vnow; }

// ------------------------------------------------------------------ preemption countdown
static void flush_cd(Thread*t){ if(g_cd0!=INT64_MAX){ uint64_t d=(uint64_t)(g_cd0-g_cd); t->pos+=d; acc_total+=d; } else { uint64_t d=(uint64_t)(INT64_MAX-g_cd); t->pos+=d; acc_total+=d; } g_cd0=g_cd=INT64_MAX; }
static uint64_t geom(uint64_t mean){ return 1+rs.below(2*mean); }
static void arm_cd(Thread*t){
	if(g_frozen||!g_active){ g_cd0=g_cd=INT64_MAX; return; }
	if(fair){ g_cd0=g_cd=100000; return; } // fixed quantum, the same when replaying
	if(plan.replay){
		while(t->pcur<t->pend&&rp[t->pcur].step<=t->pos) ++t->pcur;
		g_cd0=g_cd= t->pcur<t->pend ? (int64_t)(rp[t->pcur].step-t->pos) : (int64_t)200000000;
	}else if(nlive<=1) g_cd0=g_cd=200000000;
	else if(sched.strategy==2) g_cd0=g_cd=1;
	else if(sched.gap) g_cd0=g_cd=(int64_t)geom(sched.gap);
	else g_cd0=g_cd=5000000; // a thread that only spins on memory must not starve the others
}
Frozen::Frozen(){ if(g_active&&self&&g_frozen==0) flush_cd(self); ++g_frozen; g_cd0=g_cd=INT64_MAX; ++tl_noacct; }
Frozen::~Frozen(){ --tl_noacct; --g_frozen; if(g_active&&self&&g_frozen==0){ uint64_t d=(uint64_t)(INT64_MAX-g_cd); (void)d; g_cd0=g_cd=INT64_MAX; arm_cd(self); } }

static bool runnable(const Thread&t){ return t.st==T_RUN; }
static bool timer_eligible(const Thread&t){ return t.timed && (t.st==T_COND||t.st==T_SLEEP||t.st==T_MUTEX||t.st==T_FUTEX||t.st==T_SEM); }

static void wait_thread_death(){
	if(last_exited){ Thread*x=last_exited; last_exited=nullptr;
		// the finished thread still runs a few instructions of libc; wait until the kernel has reaped it so that heap state is reproducible
		for(int i=0;i<2000000&&x->ktid;++i){ if(syscall(SYS_tgkill,getpid(),x->ktid,0)!=0) break; REAL(sched_yield)(); }
	}
}
static void transfer(Thread*me,Thread*to,bool me_exits=false){
	++shm->switches; mix(((uint64_t)me->id<<48)^((uint64_t)to->id<<32)^me->pos); mixs(((uint64_t)me->id<<20)^to->id^(syncs<<32));
	if(me_exits) last_exited=me;
	unpark(to);
	if(me_exits) return;
	int e=errno; // a switch must be invisible to the code under test, also between a system call and its look at errno
	park(me);
	wait_thread_death();
	arm_cd(me);
	errno=e;
}
static void fire_timer(Thread*t){ if(vnow<t->deadline) vnow=t->deadline; t->timedout=true; t->timed=false; t->st=T_RUN; t->on=nullptr; }

static Thread*next_cyclic(int after,bool include_self){
	int best=-1,first=-1;
	for(int i=0;i<nlive;++i){ Thread&t=thr[live[i]]; if(!runnable(t)) continue; if(t.id==after&&!include_self) continue;
		if(first<0||t.id<first) first=t.id;
		if(t.id>after&&(best<0||t.id<best)) best=t.id; }
	if(best>=0) return &thr[best];
	if(first>=0) return &thr[first];
	return nullptr;
}
static Thread*random_runnable(int except){
	int c[MAXT],n=0; for(int i=0;i<nlive;++i){ Thread&t=thr[live[i]]; if(t.id==except) continue; if(runnable(t)||(timer_eligible(t)&&rs.chance(1,8))) c[n++]=t.id; }
	if(!n) return nullptr;
	return &thr[c[rs.below(n)]];
}
static Thread*top_prio(int except){
	Thread*b=nullptr; for(int i=0;i<nlive;++i){ Thread&t=thr[live[i]]; if(t.id==except||!runnable(t)) continue; if(!b||t.prio>b->prio||(t.prio==b->prio&&t.id<b->id)) b=&t; } return b;
}
static std::string describe(){
	static const char*sn[]={"free","runnable","mutex","condition variable","join","futex","barrier","semaphore","sleep","rwlock","once","done"};
	std::string s; for(int i=0;i<nlive;++i){ Thread&t=thr[live[i]]; if(t.st==T_DONE) continue; s+=" T"+std::to_string(t.id)+":"+sn[t.st]; } return s;
}
static void recordP(Thread*t,Thread*to){ if(shm->nP<MAXP) shm->P[shm->nP++]={(uint32_t)t->id,(uint32_t)to->id,t->pos}; else shm->Poverflow=1; }
static Thread*replay_lookup(Thread*t){
	while(t->pcur<t->pend&&rp[t->pcur].step<t->pos) ++t->pcur;
	if(t->pcur<t->pend&&rp[t->pcur].step==t->pos){ uint32_t x=rp[t->pcur].target; ++t->pcur; if(x<(uint32_t)nthr&&(runnable(thr[x])||timer_eligible(thr[x]))) return &thr[x]; }
	return nullptr;
}
static int pct_low=0;

// mode 0: may continue, 1: yield, 2: cannot continue, 3: memory access
static Thread*decide(Thread*t,int mode){
	Thread*def = mode==0||mode==3 ? t : next_cyclic(t->id,mode==1||runnable(*t));
	Thread*ch=def;
	if(fair) return next_cyclic(t->id,mode!=2||runnable(*t)); // the fair phase is a fixed rule, used identically when replaying
	if(plan.replay){ Thread*r=replay_lookup(t); if(r) ch=r; }
	else{
		Thread*o=nullptr;
		if(mode==2){ int ex=runnable(*t)?-1:t->id; o = sched.strategy==1? top_prio(ex) : random_runnable(ex); }
		else if(mode==1){ if(sched.strategy==1) t->prio=--pct_low; o = sched.strategy==1? top_prio(t->id) : random_runnable(t->id); }
		else if(mode==0){
			if(sched.strategy==1){
				if(sched.pct_changes&&rs.chance((uint64_t)sched.pct_changes,64)) t->prio=--pct_low;
				Thread*b=top_prio(-1); if(b&&b!=t) o=b;
			}else if(rs.chance(sched.sync_num,sched.sync_den)) o=random_runnable(t->id);
		}else o = random_runnable(t->id);
		if(o) ch=o;
		if(ch!=def&&ch) recordP(t,ch);
	}
	return ch;
}
static void check_budget(){
	++syncs;
	if(!fair&&syncs>sync_budget) fair=true;
	if(syncs>4*sync_budget) violation("livelock","threads keep running without finishing ("+std::to_string(syncs)+" synchronisation steps, the last three quarters under a fair schedule):"+describe());
}
void sync_point(){
	if(!in_sim()) return;
	Thread*t=self; flush_cd(t); ++t->pos; vnow+=1000; check_budget();
	Thread*ch=decide(t,0);
	if(ch&&ch!=t){ if(timer_eligible(*ch)) fire_timer(ch); transfer(t,ch); } else arm_cd(t);
}
void yield_now(){
	if(!in_sim()) return;
	Thread*t=self; flush_cd(t); ++t->pos; vnow+=1000; check_budget();
	Thread*ch=decide(t,1);
	if(ch&&ch!=t){ if(timer_eligible(*ch)) fire_timer(ch); transfer(t,ch); return; }
	if(nlive>1) for(int i=0;i<nlive;++i){ Thread&x=thr[live[i]]; if(&x!=t&&timer_eligible(x)){ fire_timer(&x); break; } } // others only sleep: let time pass
	arm_cd(t);
}
void yield_point(){ sync_point(); }
static Thread*pick_or_deadlock(Thread*t){
	Thread*ch=decide(t,2);
	if(!ch){ // nothing runnable: let the earliest timer fire
		Thread*b=nullptr; for(int i=0;i<nlive;++i){ Thread&x=thr[live[i]]; if(timer_eligible(x)&&(!b||x.deadline<b->deadline)) b=&x; }
		if(!b) violation("deadlock","no thread can make progress:"+describe());
		ch=b;
	}
	if(timer_eligible(*ch)) fire_timer(ch);
	return ch;
}
void block_on(int st,const void*on,uint64_t deadline){
	Thread*t=self; flush_cd(t); ++t->pos; vnow+=1000; check_budget();
	if(g_frozen) internal_error("blocking inside a frozen section");
	t->st=st; t->on=on; t->deadline=deadline; t->timed=deadline!=0; t->timedout=false; t->woken=false; t->waitseq=++waitseq;
	if(st==T_COND&&allow_spurious){ Fault f=fault_point(S_COND); if(f.kind==K_SPURIOUS){ t->st=T_RUN; t->on=nullptr; t->timed=false; } }
	Thread*ch=pick_or_deadlock(t);
	if(ch!=t) transfer(t,ch); else arm_cd(t);
}
int wake_all(int st,const void*on){ int n=0; for(int i=0;i<nlive;++i){ Thread&x=thr[live[i]]; if(x.st==st&&x.on==on){ x.st=T_RUN; x.on=nullptr; x.timed=false; x.woken=true; ++n; } } return n; }
int wake_one(int st,const void*on){
	int c[MAXT],n=0; for(int i=0;i<nlive;++i){ Thread&x=thr[live[i]]; if(x.st==st&&x.on==on) c[n++]=x.id; }
	if(!n) return 0;
	int pick=c[0]; for(int i=0;i<n;++i) if(thr[c[i]].waitseq<thr[pick].waitseq) pick=c[i];
	if(n>1){ Thread*t=self; flush_cd(t); ++t->pos;
		if(plan.replay){ while(t->pcur<t->pend&&rp[t->pcur].step<t->pos) ++t->pcur; if(t->pcur<t->pend&&rp[t->pcur].step==t->pos){ uint32_t x=rp[t->pcur].target; ++t->pcur; for(int i=0;i<n;++i) if((uint32_t)c[i]==x) pick=c[i]; } }
		else { int o=c[rs.below(n)]; if(o!=pick){ pick=o; recordP(t,&thr[o]); } }
		mix(pick); arm_cd(t);
	}
	Thread&x=thr[pick]; x.st=T_RUN; x.on=nullptr; x.timed=false; x.woken=true; return 1;
}

// ------------------------------------------------------------------ memory-access preemption
struct CE{ uintptr_t a; int tid; bool w; };
static const uint32_t CN=1u<<15; static CE ctab[CN]; static uint32_t ccount=0; static uint64_t cgen=0;
static void conflict_reset(){ memset(ctab,0,sizeof ctab); ccount=0; ++cgen; }
static bool conflicting(uintptr_t a,int tid,bool w){
	a>>=2; if(!a) return false;
	uint32_t h=(uint32_t)((a*0x9e3779b97f4a7c15ull)>>40)&(CN-1);
	for(;;){ CE&e=ctab[h];
		if(e.a==a){ bool c=e.tid!=tid&&(e.w||w); if(w){ e.w=true; e.tid=tid; } else if(e.tid!=tid&&!e.w) e.tid=tid; return c; }
		if(!e.a){ if(ccount<CN/2){ e.a=a; e.tid=tid; e.w=w; ++ccount; } return false; }
		h=(h+1)&(CN-1);
	}
}
void mem_access_slow(const void*p,bool w){
	if(!in_sim()){ g_cd0=g_cd=INT64_MAX; return; }
	Thread*t=self; flush_cd(t);
	if(acc_total>1500000000ull) violation("livelock","more than 1.5e9 instrumented memory accesses without finishing:"+describe());
	if(plan.replay||fair){ Thread*ch=decide(t,3); if(ch&&ch!=t){ if(timer_eligible(*ch)) fire_timer(ch); transfer(t,ch); } else arm_cd(t); return; }
	if(nlive<=1){ arm_cd(t); return; }
	bool pre=true;
	if(sched.strategy==2) pre = conflicting((uintptr_t)p,t->id,w) ? rs.below(sched.conf_den)==0 : (sched.gap&&rs.below(sched.gap*4)==0);
	if(pre){ Thread*ch=decide(t,3); if(ch&&ch!=t){ if(timer_eligible(*ch)) fire_timer(ch); transfer(t,ch); return; } }
	arm_cd(t);
}

// an atomic operation: a preemption point; a thread that keeps loading the same atomic is spinning and gives way
void atomic_point(const void*p,bool w){
	if(!in_sim()) return;
	Thread*t=self;
	if(!w&&t->spin_addr==p){ if(++t->spin>64){ t->spin=0; yield_now(); return; } } else { t->spin_addr=w?nullptr:p; t->spin=0; }
	flush_cd(t); ++t->pos; ++acc_total;
	if(nlive<=1){ arm_cd(t); return; }
	Thread*ch=t;
	if(fair) ch=decide(t,0);
	else if(plan.replay) ch=decide(t,3);
	else if(sched.strategy==2 ? rs.below(sched.conf_den)==0 : rs.below(sched.sync_den)==0) ch=decide(t,3);
	if(ch&&ch!=t){ if(timer_eligible(*ch)) fire_timer(ch); transfer(t,ch); } else arm_cd(t);
}

// ------------------------------------------------------------------ threads
static void*trampoline(void*v){
	Thread*t=(Thread*)v; t->ktid=(pid_t)syscall(SYS_gettid); 
	park(t); self=t; wait_thread_death(); arm_cd(t);
	t->ret=t->fn(t->arg);
	// thread end
	flush_cd(t); ++t->pos; check_budget();
	t->st=T_DONE; wake_all(T_JOIN,t);
	for(int i=0;i<nlive;++i) if(live[i]==t->id){ live[i]=live[--nlive]; break; }
	std::sort(live,live+nlive);
	Thread*ch=pick_or_deadlock(t);
	void*r=t->ret; self=nullptr;
	transfer(t,ch,true);
	return r;
}
Thread*new_thread(void*(*fn)(void*),void*arg,bool,int*err){
	if(nthr>=MAXT) internal_error("too many simulated threads");
	Thread*t=&thr[nthr]; new(t) Thread(); t->id=nthr; t->fn=fn; t->arg=arg; t->st=T_RUN; t->prio= plan.replay?0:1000+(int)rs.below(1000);
	if(plan.replay){ t->pcur=t->pend=rp.size(); for(size_t i=0;i<rp.size();++i) if(rp[i].tid==(uint32_t)t->id){ t->pcur=i; t->pend=i; while(t->pend<rp.size()&&rp[t->pend].tid==(uint32_t)t->id) ++t->pend; break; } }
	int e; { NoAcct z; e=REAL(pthread_create)(&t->real,nullptr,trampoline,t); }
	if(e){ if(err)*err=e; t->st=T_FREE; return nullptr; }
	++nthr; live[nlive++]=t->id; ++shm->threads; t->started=true;
	while(t->ktid==0) REAL(sched_yield)();
	if(err)*err=0;
	return t;
}
void join_thread(Thread*t){
	while(t->st!=T_DONE) block_on(T_JOIN,t);
	if(!t->joined){ t->joined=true; NoAcct z; REAL(pthread_join)(t->real,nullptr); if(last_exited==t) last_exited=nullptr; t->ktid=0; }
}
static Thread*find_real(pthread_t p){ for(int i=nthr-1;i>=0;--i) if(thr[i].started&&!thr[i].joined&&thr[i].id!=0&&pthread_equal(thr[i].real,p)) return &thr[i]; return nullptr; }

void begin_threads(){ conflict_reset(); g_active=true; workload_locked=true; arm_cd(self); }
void end_threads(){
	flush_cd(self);
	int others=nlive-1;
	g_active=false; workload_locked=false; g_cd0=g_cd=INT64_MAX;
	if(others) violation("thread_leak","a thread is still alive after everything was destroyed:"+describe());
}
static std::vector<Thread*>*clients=nullptr;
static void*client_main(void*v){ std::function<void()>*f=(std::function<void()>*)v; (*f)(); { Frozen z; delete f; } return nullptr; }
void spawn(std::function<void()>f){ Thread*t; { Frozen z; if(!clients) clients=new std::vector<Thread*>; std::function<void()>*p=new std::function<void()>(std::move(f)); int e; t=new_thread(client_main,p,true,&e); if(!t) internal_error("thread creation failed"); clients->push_back(t); } sync_point(); }
void join_all(){ if(!clients) return; for(size_t i=0;i<clients->size();++i) join_thread((*clients)[i]); Frozen z; clients->clear(); }

} // namespace sim

using namespace sim;

// =================================================================== interposed libc entry points
extern "C"{

int pthread_create(pthread_t*out,const pthread_attr_t*attr,void*(*fn)(void*),void*arg){
	if(!in_sim()) return REAL(pthread_create)(out,attr,fn,arg);
	Fault f=fault_point(S_THREAD); if(f.kind==K_EAGAIN) return EAGAIN;
	int det=0; if(attr) pthread_attr_getdetachstate(attr,&det);
	int e=0; Thread*t=new_thread(fn,arg,true,&e); if(!t) return e;
	*out=t->real; if(det==PTHREAD_CREATE_DETACHED) t->detached=true;
	sync_point(); return 0;
}
int pthread_join(pthread_t p,void**ret){
	if(!in_sim_sync()) return REAL(pthread_join)(p,ret);
	Thread*t=find_real(p); if(!t) return REAL(pthread_join)(p,ret);
	if(t==self) return EDEADLK;
	sync_point(); join_thread(t); if(ret)*ret=t->ret; return 0;
}
int pthread_detach(pthread_t p){ if(in_sim_sync()){ Thread*t=find_real(p); if(t) t->detached=true; } return REAL(pthread_detach)(p); }

static inline bool is_rec(pthread_mutex_t*m){ return (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE; }
static int sim_lock(pthread_mutex_t*m,uint64_t deadline){
	sync_point();
	while(m->__data.__lock){
		if(m->__data.__owner==self->id+1){ if(is_rec(m)){ ++m->__data.__count; return 0; } if((m->__data.__kind&3)==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
		block_on(T_MUTEX,m,deadline); if(self->timedout){ self->timedout=false; return ETIMEDOUT; }
	}
	m->__data.__lock=1; m->__data.__owner=self->id+1; m->__data.__count=1; return 0;
}
static uint64_t abs_to_v(const struct timespec*ts,clockid_t c){
	uint64_t a=(uint64_t)ts->tv_sec*1000000000ull+(uint64_t)ts->tv_nsec; uint64_t now=vnow+(c==CLOCK_REALTIME?(uint64_t)clock_off:0); return a<=now? vnow+1 : vnow+(a-now);
}
int pthread_mutex_lock(pthread_mutex_t*m){ if(!in_sim_sync()) return REAL(pthread_mutex_lock)(m); return sim_lock(m,0); }
int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*ts){ if(!in_sim_sync()) return REAL(pthread_mutex_timedlock)(m,ts); return sim_lock(m,abs_to_v(ts,CLOCK_REALTIME)); }
int pthread_mutex_clocklock(pthread_mutex_t*m,clockid_t c,const struct timespec*ts){ if(!in_sim_sync()) return REAL(pthread_mutex_clocklock)(m,c,ts); return sim_lock(m,abs_to_v(ts,c)); }
int pthread_mutex_trylock(pthread_mutex_t*m){
	if(!in_sim_sync()) return REAL(pthread_mutex_trylock)(m);
	sync_point();
	if(m->__data.__lock){ if(m->__data.__owner==self->id+1&&is_rec(m)){ ++m->__data.__count; return 0; } return EBUSY; }
	m->__data.__lock=1; m->__data.__owner=self->id+1; m->__data.__count=1; return 0;
}
static void sim_unlock(pthread_mutex_t*m){
	if(is_rec(m)&&--m->__data.__count>0) return;
	m->__data.__lock=0; m->__data.__owner=0; m->__data.__count=0; wake_all(T_MUTEX,m);
}
int pthread_mutex_unlock(pthread_mutex_t*m){
	if(!in_sim_sync()) return REAL(pthread_mutex_unlock)(m);
	sim_unlock(m); sync_point(); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*m){ if(!in_sim_sync()) return REAL(pthread_mutex_destroy)(m); return m->__data.__lock?EBUSY:0; }

static int sim_cond_wait(pthread_cond_t*c,pthread_mutex_t*m,uint64_t deadline){
	sync_point(); sim_unlock(m); // preemption between evaluating the condition and going to sleep
	block_on(T_COND,c,deadline);
	bool to=self->timedout; self->timedout=false;
	// reacquire
	while(m->__data.__lock) block_on(T_MUTEX,m);
	m->__data.__lock=1; m->__data.__owner=self->id+1; m->__data.__count=1;
	return to?ETIMEDOUT:0;
}
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ if(!in_sim_sync()) return REAL(pthread_cond_wait)(c,m); return sim_cond_wait(c,m,0); }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*ts){ if(!in_sim_sync()) return REAL(pthread_cond_timedwait)(c,m,ts); return sim_cond_wait(c,m,abs_to_v(ts,CLOCK_REALTIME)); }
int pthread_cond_clockwait(pthread_cond_t*c,pthread_mutex_t*m,clockid_t k,const struct timespec*ts){ if(!in_sim_sync()) return REAL(pthread_cond_clockwait)(c,m,k,ts); return sim_cond_wait(c,m,abs_to_v(ts,k)); }
int pthread_cond_signal(pthread_cond_t*c){ if(!in_sim_sync()) return REAL(pthread_cond_signal)(c); sync_point(); wake_one(T_COND,c); return 0; }
int pthread_cond_broadcast(pthread_cond_t*c){ if(!in_sim_sync()) return REAL(pthread_cond_broadcast)(c); sync_point(); wake_all(T_COND,c); return 0; }
int pthread_cond_destroy(pthread_cond_t*c){ if(!in_sim_sync()) return REAL(pthread_cond_destroy)(c); return 0; }

// reader-writer locks: state kept inside the object (readers in __readers, writer in __cur_writer)
int pthread_rwlock_rdlock(pthread_rwlock_t*l){ if(!in_sim_sync()) return REAL(pthread_rwlock_rdlock)(l); sync_point(); while(l->__data.__cur_writer) block_on(T_RW,l); ++l->__data.__readers; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t*l){ if(!in_sim_sync()) return REAL(pthread_rwlock_tryrdlock)(l); sync_point(); if(l->__data.__cur_writer) return EBUSY; ++l->__data.__readers; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*l){ if(!in_sim_sync()) return REAL(pthread_rwlock_wrlock)(l); sync_point(); while(l->__data.__cur_writer||l->__data.__readers) block_on(T_RW,l); l->__data.__cur_writer=self->id+1; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t*l){ if(!in_sim_sync()) return REAL(pthread_rwlock_trywrlock)(l); sync_point(); if(l->__data.__cur_writer||l->__data.__readers) return EBUSY; l->__data.__cur_writer=self->id+1; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t*l){ if(!in_sim_sync()) return REAL(pthread_rwlock_unlock)(l); if(l->__data.__cur_writer) l->__data.__cur_writer=0; else --l->__data.__readers; wake_all(T_RW,l); sync_point(); return 0; }

int pthread_once(pthread_once_t*o,void(*f)(void)){
	if(!in_sim_sync()) return REAL(pthread_once)(o,f);
	sync_point();
	for(;;){ if(*o==2) return 0; if(*o==0) break; block_on(T_ONCE,o); }
	*o=1;
	try{ f(); }catch(...){ *o=0; wake_all(T_ONCE,o); throw; }
	*o=2; wake_all(T_ONCE,o); return 0;
}
int sem_wait(sem_t*s){ if(!in_sim_sync()) return REAL(sem_wait)(s); sync_point(); int v; for(;;){ sem_getvalue(s,&v); if(v>0) return REAL(sem_trywait)(s); block_on(T_SEM,s); } }
int sem_timedwait(sem_t*s,const struct timespec*ts){ if(!in_sim_sync()) return REAL(sem_timedwait)(s,ts); sync_point(); uint64_t d=abs_to_v(ts,CLOCK_REALTIME); int v; for(;;){ sem_getvalue(s,&v); if(v>0) return REAL(sem_trywait)(s); block_on(T_SEM,s,d); if(self->timedout){ self->timedout=false; errno=ETIMEDOUT; return -1; } } }
int sem_post(sem_t*s){ if(!in_sim_sync()) return REAL(sem_post)(s); int r=REAL(sem_post)(s); wake_all(T_SEM,s); sync_point(); return r; }

int sched_yield(void){ if(!in_sim()) return REAL(sched_yield)(); yield_now(); return 0; }
static int sim_sleep(uint64_t ns){ fault_point(S_SLEEP); block_on(T_SLEEP,self,vnow+(ns?ns:1)); self->timedout=false; return 0; }
int nanosleep(const struct timespec*r,struct timespec*rem){ if(!in_sim()) return REAL(nanosleep)(r,rem); return sim_sleep((uint64_t)r->tv_sec*1000000000ull+r->tv_nsec); }
int clock_nanosleep(clockid_t c,int fl,const struct timespec*r,struct timespec*rem){ if(!in_sim()) return REAL(clock_nanosleep)(c,fl,r,rem); uint64_t x=(uint64_t)r->tv_sec*1000000000ull+r->tv_nsec; if(fl&TIMER_ABSTIME){ x=abs_to_v(r,c)-vnow; } return sim_sleep(x); }
int usleep(useconds_t u){ if(!in_sim()) return REAL(usleep)(u); return sim_sleep((uint64_t)u*1000); }
unsigned sleep(unsigned s){ if(!in_sim()) return REAL(sleep)(s); return sim_sleep((uint64_t)s*1000000000ull); }

int clock_gettime(clockid_t c,struct timespec*ts){
	if(self==nullptr||shm==nullptr||vnow==0) return REAL(clock_gettime)(c,ts);
	if(g_frozen==0){ Fault f=fault_point(S_CLOCK); if(f.kind==K_JUMP) clock_off+=(int64_t)f.arg-(int64_t)5000000000000ll; vnow+=1000; }
	uint64_t v=vnow; if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) v+=(uint64_t)clock_off;
	ts->tv_sec=(time_t)(v/1000000000ull); ts->tv_nsec=(long)(v%1000000000ull); return 0;
}
int gettimeofday(struct timeval*tv,void*tz){ (void)tz; struct timespec ts; int r=clock_gettime(CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return r; }
time_t time(time_t*t){ struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); if(t)*t=ts.tv_sec; return ts.tv_sec; }

long syscall(long n,...){
	va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
	if(n==SYS_futex&&in_sim_sync()){
		int op=(int)b&FUTEX_CMD_MASK; volatile int*addr=(volatile int*)a;
		if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){
			sync_point(); if(*addr!=(int)c){ errno=EAGAIN; return -1; }
			uint64_t dl=0; if(d){ const struct timespec*ts=(const struct timespec*)d; dl= op==FUTEX_WAIT? vnow+(uint64_t)ts->tv_sec*1000000000ull+ts->tv_nsec+1 : abs_to_v(ts,((int)b&FUTEX_CLOCK_REALTIME)?CLOCK_REALTIME:CLOCK_MONOTONIC); }
			block_on(T_FUTEX,(const void*)a,dl); if(self->timedout){ self->timedout=false; errno=ETIMEDOUT; return -1; } return 0;
		}
		if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){ int k=0; while(k<(int)c&&wake_one(T_FUTEX,(const void*)a)) ++k; sync_point(); return k; }
	}
	long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
	asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
	if(r<0&&r>-4096){ errno=(int)-r; return -1; } return r;
}

} // extern C
