// OpenMP seam: a small deterministic runtime replacing libgomp. Teams are simulated threads, chunk
// hand-out, barriers and critical sections are decided by the simulator's scheduler.
#include "core.h"
#include <map>
#include <algorithm>
#include <vector>
namespace sim{
struct WorkShare{ bool init=false; bool ull=false; long next=0,end=0,incr=1,chunk=1; int kind=0; int entered=0; int count=0; bool single_taken=false; int left=0; void*copy=nullptr; bool copied=false; };
struct Team{ int n=1; bool combined=false; int arrived=0; uint64_t gen=0; std::map<uint64_t,WorkShare>ws; Team*parent=nullptr; };
static __thread Team*tl_team=nullptr; static __thread int tl_tid=0; static __thread uint64_t tl_ws=0; static __thread WorkShare*tl_cur=nullptr; static __thread uint64_t tl_cur_seq=0; static __thread int tl_level=0;
static __thread long st_next=0; // static schedules: next chunk number of this thread
static int icv_threads=0;
struct Ctx{ Team*t; int tid; uint64_t ws; WorkShare*cur; uint64_t cs; int lv; long sn; };
static Ctx save(){ return {tl_team,tl_tid,tl_ws,tl_cur,tl_cur_seq,tl_level,st_next}; }
static void restore(const Ctx&c){ tl_team=c.t; tl_tid=c.tid; tl_ws=c.ws; tl_cur=c.cur; tl_cur_seq=c.cs; tl_level=c.lv; st_next=c.sn; }
struct Start{ Team*team; int tid; void(*fn)(void*); void*data; int level; };
static void enter(Team*t,int tid,int lv){ tl_team=t; tl_tid=tid; tl_ws=0; tl_cur=nullptr; tl_cur_seq=0; tl_level=lv; st_next=0; if(t->combined){ NoAcct z; tl_cur=&t->ws[1]; tl_ws=1; tl_cur_seq=1; } }
static void*team_main(void*v){ Start*s=(Start*)v; enter(s->team,s->tid,s->level); s->fn(s->data); tl_team=nullptr; return nullptr; }
static int cur_n(){ return tl_team?tl_team->n:1; }
static void barrier(){
	Team*t=tl_team; if(!t||t->n<=1) return;
	sync_point();
	if(++t->arrived==t->n){ t->arrived=0; ++t->gen; wake_all(T_BARRIER,t); sync_point(); return; }
	uint64_t g=t->gen; while(t->gen==g) block_on(T_BARRIER,t);
}
static WorkShare&share(){ NoAcct z; uint64_t q=++tl_ws; tl_cur_seq=q; if(!tl_team){ static __thread Team*solo=nullptr; if(!solo) solo=new Team; tl_team=solo; } WorkShare&w=tl_team->ws[q]; tl_cur=&w; return w; }
static void leave(){ if(!tl_cur) return; NoAcct z; if(++tl_cur->left>=cur_n()) tl_team->ws.erase(tl_cur_seq); tl_cur=nullptr; }
// run fn on a team whose first work share is prepared by init (for the combined parallel-loop entry points)
template<class I> static void run_parallel(void(*fn)(void*),void*data,unsigned nt,I init){
	int n= nt? (int)nt : (icv_threads>0?icv_threads:omp_procs);
	if(!in_sim()) n=1;
	if(tl_team&&tl_team->n>1) n=1; // nested regions are serialised, as by default in libgomp
	if(n>256) n=256;
	if(n>1){ Fault f=fault_point(S_TEAM); if(f.kind==K_FEWER) n=1+(int)(f.arg%(uint64_t)n); }
	Ctx c=save();
	Team*team; { NoAcct z; team=new Team; } team->n=n;
	{ NoAcct z; init(*team); team->combined=!team->ws.empty(); }
	std::vector<Thread*>*ts=nullptr; std::vector<Start>*st=nullptr;
	if(n>1){ NoAcct z; ts=new std::vector<Thread*>; st=new std::vector<Start>(n);
		for(int i=1;i<n;++i){ (*st)[i]={team,i,fn,data,c.lv+1}; int e; Thread*t=new_thread(team_main,&(*st)[i],true,&e); if(!t) internal_error("cannot create team thread"); ts->push_back(t); } }
	if(n>1) sync_point();
	enter(team,0,c.lv+1);
	fn(data);
	if(n>1){ for(Thread*t:*ts) join_thread(t); NoAcct z; delete ts; delete st; }
	restore(c);
	{ NoAcct z; delete team; }
}
enum{ LK_STATIC,LK_DYNAMIC,LK_GUIDED };
static void init_loop(WorkShare&w,int kind,bool ull,long s,long e,long inc,long chunk){ if(w.init) return; w.init=true; w.kind=kind; w.ull=ull; w.next=s; w.end=e; w.incr=inc; w.chunk=chunk; if(!ull){ if(inc>0&&s>e) w.end=s; if(inc<0&&s<e) w.end=s; } }
static unsigned long iters(const WorkShare&w,long from){ if(w.incr>0){ unsigned long d=(unsigned long)w.end-(unsigned long)from; if(!w.ull&&w.end<=from) return 0; if(w.ull&&(unsigned long)w.end<=(unsigned long)from) return 0; return (d+(unsigned long)w.incr-1)/(unsigned long)w.incr; } unsigned long d=(unsigned long)from-(unsigned long)w.end; if(!w.ull&&w.end>=from) return 0; if(w.ull&&(unsigned long)w.end>=(unsigned long)from) return 0; unsigned long s=0ul-(unsigned long)w.incr; return (d+s-1)/s; }
static bool loop_next(long*a,long*b){
	WorkShare&w=*tl_cur; int n=cur_n();
	if(w.kind==LK_STATIC){
		unsigned long tot=iters(w,w.next);
		unsigned long lo,hi;
		if(w.chunk<=0){ if(st_next) return false; st_next=1; unsigned long q=tot/n,r=tot%n; lo=q*tl_tid+std::min<unsigned long>(tl_tid,r); hi=lo+q+((unsigned long)tl_tid<r?1:0); if(lo>=hi) return false; }
		else { lo=((unsigned long)st_next*n+tl_tid)*w.chunk; if(lo>=tot) return false; hi=std::min<unsigned long>(tot,lo+w.chunk); ++st_next; }
		*a=w.next+(long)lo*w.incr; *b=w.next+(long)hi*w.incr; return true;
	}
	sync_point();
	unsigned long rem=iters(w,w.next); if(!rem) return false;
	unsigned long c= w.chunk>0?(unsigned long)w.chunk:1;
	if(w.kind==LK_GUIDED) c=std::max(c,(rem+n-1)/n);
	if(c>rem) c=rem;
	*a=w.next; w.next+=(long)c*w.incr; *b= c==rem?w.end:w.next; 
	if(c==rem) w.next=w.end;
	return true;
}
static bool loop_start(int kind,bool ull,long s,long e,long inc,long chunk,long*a,long*b){ WorkShare&w=share(); st_next=0; init_loop(w,kind,ull,s,e,inc,chunk); return loop_next(a,b); }
static std::map<const void*,int>*crit=nullptr;
static void crit_enter(const void*k){ if(!in_sim_sync()) return; sync_point(); for(;;){ bool held; { NoAcct z; if(!crit) crit=new std::map<const void*,int>; held=(*crit)[k]!=0; if(!held) (*crit)[k]=1; } if(!held) return; block_on(T_MUTEX,k); } }
static void crit_leave(const void*k){ if(!in_sim_sync()) return; { NoAcct z; (*crit)[k]=0; } wake_all(T_MUTEX,k); sync_point(); }
static char crit_global,atomic_global;
}
using namespace sim;
extern "C"{
void GOMP_parallel(void(*fn)(void*),void*d,unsigned n,unsigned){ run_parallel(fn,d,n,[](Team&){}); }
unsigned GOMP_parallel_reductions(void(*fn)(void*),void*d,unsigned n,unsigned){ run_parallel(fn,d,n,[](Team&){}); return n; }
void GOMP_barrier(){ barrier(); }
bool GOMP_barrier_cancel(){ barrier(); return false; }
bool GOMP_cancel(int,bool){ return false; } bool GOMP_cancellation_point(int){ return false; }
#define PL(name,kind) void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long s,long e,long inc,long chunk,unsigned){ run_parallel(fn,d,n,[=](Team&t){ init_loop(t.ws[1],kind,false,s,e,inc,chunk); }); }
PL(static,LK_STATIC) PL(dynamic,LK_DYNAMIC) PL(guided,LK_GUIDED) PL(nonmonotonic_dynamic,LK_DYNAMIC) PL(nonmonotonic_guided,LK_GUIDED)
#define PLR(name) void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long s,long e,long inc,unsigned){ run_parallel(fn,d,n,[=](Team&t){ init_loop(t.ws[1],LK_DYNAMIC,false,s,e,inc,1); }); }
PLR(runtime) PLR(nonmonotonic_runtime) PLR(maybe_nonmonotonic_runtime)
#define LS(name,kind) \
 bool GOMP_loop_##name##_start(long s,long e,long inc,long ch,long*a,long*b){ return loop_start(kind,false,s,e,inc,ch,a,b); } \
 bool GOMP_loop_##name##_next(long*a,long*b){ return loop_next(a,b); } \
 bool GOMP_loop_ull_##name##_start(bool up,unsigned long s,unsigned long e,unsigned long inc,unsigned long ch,unsigned long*a,unsigned long*b){ (void)up; return loop_start(kind,true,(long)s,(long)e,(long)inc,(long)ch,(long*)a,(long*)b); } \
 bool GOMP_loop_ull_##name##_next(unsigned long*a,unsigned long*b){ return loop_next((long*)a,(long*)b); }
LS(static,LK_STATIC) LS(dynamic,LK_DYNAMIC) LS(guided,LK_GUIDED) LS(nonmonotonic_dynamic,LK_DYNAMIC) LS(nonmonotonic_guided,LK_GUIDED)
#define LSR(name) \
 bool GOMP_loop_##name##_start(long s,long e,long inc,long*a,long*b){ return loop_start(LK_DYNAMIC,false,s,e,inc,1,a,b); } \
 bool GOMP_loop_##name##_next(long*a,long*b){ return loop_next(a,b); } \
 bool GOMP_loop_ull_##name##_start(bool up,unsigned long s,unsigned long e,unsigned long inc,unsigned long*a,unsigned long*b){ (void)up; return loop_start(LK_DYNAMIC,true,(long)s,(long)e,(long)inc,1,(long*)a,(long*)b); } \
 bool GOMP_loop_ull_##name##_next(unsigned long*a,unsigned long*b){ return loop_next((long*)a,(long*)b); }
LSR(runtime) LSR(nonmonotonic_runtime) LSR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(){ leave(); barrier(); }
void GOMP_loop_end_nowait(){ leave(); }
bool GOMP_loop_end_cancel(){ leave(); barrier(); return false; }
bool GOMP_single_start(){ WorkShare&w=share(); sync_point(); bool r=!w.single_taken; w.single_taken=true; leave(); return r; }
unsigned GOMP_sections_start(unsigned n){ WorkShare&w=share(); if(!w.init){ w.init=true; w.next=1; w.end=n; } sync_point(); return w.next<=w.end?(unsigned)w.next++:0; }
unsigned GOMP_sections_next(){ WorkShare&w=*tl_cur; sync_point(); return w.next<=w.end?(unsigned)w.next++:0; }
void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned c,unsigned){ run_parallel(fn,d,n,[=](Team&t){ WorkShare&w=t.ws[1]; w.init=true; w.next=1; w.end=c; }); }
void GOMP_sections_end(){ leave(); barrier(); } void GOMP_sections_end_nowait(){ leave(); }
void GOMP_critical_start(){ crit_enter(&crit_global); } void GOMP_critical_end(){ crit_leave(&crit_global); }
void GOMP_critical_name_start(void**p){ crit_enter(p); } void GOMP_critical_name_end(void**p){ crit_leave(p); }
void GOMP_atomic_start(){ crit_enter(&atomic_global); } void GOMP_atomic_end(){ crit_leave(&atomic_global); }
int omp_get_num_threads(){ return cur_n(); } int omp_get_thread_num(){ return tl_team?tl_tid:0; }
int omp_get_max_threads(){ return icv_threads>0?icv_threads:omp_procs; } int omp_get_num_procs(){ return omp_procs; }
void omp_set_num_threads(int n){ icv_threads=n; } int omp_in_parallel(){ return cur_n()>1; }
int omp_get_level(){ return tl_level; } int omp_get_active_level(){ return cur_n()>1?1:0; } int omp_get_thread_limit(){ return 256; }
void omp_set_dynamic(int){} int omp_get_dynamic(){ return 0; } void omp_set_nested(int){} int omp_get_nested(){ return 0; }
double omp_get_wtime(){ return (double)vclock()*1e-9; } double omp_get_wtick(){ return 1e-6; }
void omp_init_lock(int*l){ *l=0; } void omp_destroy_lock(int*){} 
void omp_set_lock(int*l){ crit_enter(l); } void omp_unset_lock(int*l){ crit_leave(l); }
int omp_test_lock(int*l){ if(!in_sim_sync()) return 1; sync_point(); NoAcct z; if(!crit) crit=new std::map<const void*,int>; if((*crit)[l]) return 0; (*crit)[l]=1; return 1; }
}
