// internal interface between the parts of the simulator
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include "sim.h"
#include <pthread.h>
#include <sys/types.h>
namespace sim{
enum TState:int{ T_FREE,T_RUN,T_MUTEX,T_COND,T_JOIN,T_FUTEX,T_BARRIER,T_SEM,T_SLEEP,T_RW,T_ONCE,T_DONE };
struct Team;
struct Thread{
	int id=0; int st=T_FREE; const void*on=nullptr; uint64_t deadline=0; bool timed=false,timedout=false,woken=false;
	uint64_t pos=0; int prio=0; uint64_t waitseq=0;
	volatile int go=0;
	pthread_t real{}; volatile pid_t ktid=0; bool exiting=false,joined=false,detached=false,started=false;
	void*(*fn)(void*)=nullptr; void*arg=nullptr; void*ret=nullptr;
	Team*team=nullptr; int team_id=0; uint64_t ws_seq=0; // OpenMP
	const void*spin_addr=nullptr; int spin=0;
	size_t pcur=0,pend=0; // replay cursor
};
extern __thread Thread*self;
extern volatile bool g_active; extern int g_frozen;
extern int64_t g_cd;
inline bool in_sim(){ return g_active && self!=nullptr && g_frozen==0; }
inline bool in_sim_sync(){ return g_active && self!=nullptr; }
void sync_point();
void yield_now();
void block_on(int st,const void*on,uint64_t deadline=0); // returns when runnable again
int wake_all(int st,const void*on);
int wake_one(int st,const void*on);  // choice among waiters is a scheduling decision
void mem_access_slow(const void*p,bool w);
void atomic_point(const void*p,bool w);
Thread*new_thread(void*(*fn)(void*),void*arg,bool real_create,int*err);
void join_thread(Thread*);
void mix(uint64_t x);
struct NoAcct{ NoAcct(); ~NoAcct(); };
extern __thread int tl_noacct;
template<class F> F real_fn(const char*name);
void*real_sym(const char*name);
}
#define REAL(name) ((decltype(&::name))::sim::real_sym(#name))
#endif
