// Deterministic simulator core: one process, real threads released one at a time,
// every scheduling decision, fault, clock value and workload choice drawn from seeded streams.
#ifndef SIM_H
#define SIM_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim{

// ---------------------------------------------------------------- random streams
struct Rng{
	uint64_t s;
	explicit Rng(uint64_t seed=1):s(seed){}
	uint64_t next(){ // splitmix64
		uint64_t z=(s+=0x9e3779b97f4a7c15ull);
		z=(z^(z>>30))*0xbf58476d1ce4e5b9ull;
		z=(z^(z>>27))*0x94d049bb133111ebull;
		return z^(z>>31);
	}
	uint64_t below(uint64_t n){ return n<=1?0:next()%n; }
	bool chance(uint64_t num,uint64_t den){ return below(den)<num; }
};

// ---------------------------------------------------------------- faults
enum Site:uint32_t{ S_READ,S_WRITE,S_OPEN,S_CLOSE,S_SEEK,S_ALLOC,S_THREAD,S_COND,S_CLOCK,S_SOURCE,S_CALLBACK,S_TEAM,S_SLEEP,S_DAMAGE,S_COUNT };
enum Kind:uint32_t{ K_NONE,K_SHORT,K_EINTR,K_EIO,K_ENOSPC,K_CRASH,K_NOMEM,K_EAGAIN,K_SPURIOUS,K_JUMP,K_THROW,K_FEWER,K_EMFILE,K_TRUNCATE,K_FLIP,K_DUP,K_COUNT };
extern const char*site_name[S_COUNT];
extern const char*kind_name[K_COUNT];
struct Fault{ uint32_t site,kind; uint64_t idx,arg; };
struct Preempt{ uint32_t tid,target; uint64_t step; };

// ---------------------------------------------------------------- shared result block (parent maps it before fork)
const uint32_t MAXW=1u<<18, MAXP=1u<<18, MAXF=1u<<14, MAXCOV=1u<<12;
struct Shared{
	int status; // 0 running, 1 ok, 2 violation, 3 internal error, 4 known finding only
	char cls[64];     // short class of the violation, stable under minimisation
	char msg[1500];
	uint64_t hash;      // hash over all decisions, faults and recorded observations
	uint64_t schedhash; // hash over scheduling decisions only
	uint64_t steps,accesses,switches,vtime_ns,obs;
	uint64_t fired[S_COUNT][K_COUNT];
	uint64_t checks; // oracle comparisons made
	uint64_t threads;
	uint32_t nW; uint64_t W[MAXW];
	uint32_t nP; uint32_t Poverflow; Preempt P[MAXP];
	uint32_t nF; Fault F[MAXF];
	char note[4096]; // human-readable description of the run (workload), written by the scenario
	uint32_t known; char knownmsg[8][200];
	uint64_t feature; // bitmask of situations the workload reached, for coverage evidence
};
extern Shared*shm;

struct Plan{ // how to run
	bool replay=false;
	uint64_t seed=0;
	std::vector<uint64_t>W; std::vector<Preempt>P; std::vector<Fault>F;
};

// ---------------------------------------------------------------- workload choices (main harness thread only)
uint64_t draw(uint64_t n);                 // uniform in [0,n), 0 is the simplest choice
inline bool chance(uint64_t num,uint64_t den){ return draw(den)>=den-num; } // false is simplest
inline uint64_t range(uint64_t lo,uint64_t hi){ return lo+draw(hi-lo+1); }
extern bool workload_locked;

// ---------------------------------------------------------------- run control
void start(const Plan&);   // in the child, before the scenario
void finish();             // stores final hash
void begin_threads();      // scheduling active from here
void end_threads();        // must be called with only the main thread left
bool active();
void yield_point();        // explicit preemption point for harness code
struct Frozen{ Frozen(); ~Frozen(); }; // no preemption, no faults, no accounting inside (oracle code)
void observe(uint64_t x);  // feeds the run hash
void observe_bytes(const void*p,size_t n);
[[noreturn]] void violation(const char*cls,const std::string&msg);
[[noreturn]] void internal_error(const std::string&msg);
void known_finding(const std::string&msg);
void note(const std::string&);
void feature(int bit);
inline void checked(uint64_t n=1){ shm->checks+=n; }
#define SIM_CHECK(cond,cls,msg) do{ ::sim::checked(); if(!(cond)) ::sim::violation(cls,msg); }while(0)

// ---------------------------------------------------------------- scheduling knobs (drawn in start(), may be overridden by a scenario)
struct SchedCfg{
	int strategy;          // 0 random walk, 1 priority based, 2 conflict directed
	uint32_t sync_num,sync_den;  // probability of switching at a synchronisation point
	uint64_t gap;          // mean number of memory accesses between preemptions, 0 = never
	uint32_t conf_den;     // conflict directed: switch at a conflicting access with probability 1/conf_den
	int pct_changes;
};
extern SchedCfg sched;
extern bool allow_spurious;
extern int omp_procs;            // what omp_get_num_procs reports
extern uint64_t sync_budget;     // synchronisation points before the fair phase; the same again and it is a livelock

// ---------------------------------------------------------------- faults
void plan_fault(Site,uint64_t idx,Kind,uint64_t arg=0); // one-shot, at the idx-th event of that site from now on
void fault_prob(Site,Kind,uint32_t num,uint32_t den,uint64_t argmax=0);
void clear_faults();
Fault fault_point(Site);         // called by seams; kind K_NONE = proceed normally
uint64_t fired(Site);            // how many faults fired at this site in this run
uint64_t fired_kind(Kind);
Rng&fault_rng();

// memory accounting
uint64_t mem_live();             // live allocations made through malloc/new since reset
void mem_reset();
extern bool mem_faults_armed;    // S_ALLOC fault points are live
uint64_t alloc_events();
void mem_stop();
std::string mem_describe();
uint64_t my_allocations();       // allocations this thread made for the code under test (0 in the AddressSanitizer build)
bool mem_available();            // false in the AddressSanitizer build
void mem_arena_start();          // run memory at fixed addresses from here on
void mem_set_fill(int byte);     // pattern for fresh memory, -1 = none
// io accounting
extern std::string scratch;      // directory; faults apply only to files below it
void io_track_fd(int fd);        // treat this descriptor as a scratch file
int open_fd_count();             // descriptors of scratch files currently open
extern uint64_t io_written_limit; // bytes that may still be written before ENOSPC (~0 = unlimited)
extern uint64_t io_fault_errors; // error returns injected so far (not short transfers or EINTR)
extern bool io_faults_on;
void io_reset(); void io_heal(); // io_heal: the disk works again, and a crashed machine has been restarted
bool io_crashed();               // the crash fault fired: the disk is frozen as it was then

// virtual clock
uint64_t vclock();

// test threads for harness code
void spawn(std::function<void()>f);   // simulated client thread
void join_all();

// scenario registry
struct Scenario{ const char*name; void(*fn)(int tier); };
void register_scenario(const char*name,void(*fn)(int));
struct Reg{ Reg(const char*n,void(*f)(int)){ register_scenario(n,f);} };
#define SCENARIO(name) static void scen_##name(int tier); static ::sim::Reg reg_##name(#name,scen_##name); static void scen_##name(int tier)

}
#endif
