// Allocation seam (T build): malloc family interposed. During a run all memory comes from two arenas at
// fixed addresses (one for the code under test, one for the harness), so that addresses and their reuse
// are a function of the seed. Allocations of the code under test can be made to fail at any point, are
// filled with a seed-dependent pattern so that reads of uninitialised memory show, carry guard words so
// that overruns and double frees show, and are accounted so that a failed operation that leaks is noticed.
#include "core.h"
#include <errno.h>
#include <malloc.h>
#include <string.h>
#include <sys/mman.h>
#include <atomic>
extern "C"{ void*__libc_malloc(size_t); void __libc_free(void*); void*__libc_calloc(size_t,size_t); void*__libc_realloc(void*,size_t); void*__libc_memalign(size_t,size_t); }
namespace sim{
bool mem_faults_armed=false; static bool tracking=false; static uint64_t events=0; static int fill_byte=-1;
struct Head{ Head*next,*prev; size_t size; char*base; uint32_t cls; uint32_t gen; uint64_t magic; char pad[16]; }; // 64 bytes, directly before the user's bytes
static_assert(sizeof(Head)==64,"header size");
static const uint64_t LIVE=0x51deca5e0a110c8dull,DEAD=0xdeadf4eedeadf4eeull,GUARD=0xfdfdfdfdfdfdfdfdull;
static const size_t SPAN=6ull<<30; static const int NC=160;
struct Arena{ char*lo=nullptr,*top=nullptr,*hi=nullptr; void*freelist[NC]; char*fresh=nullptr; };
static Arena ar[2]; static bool on=false; static Head live_list; static uint64_t nlive_blk=0; static uint32_t cur_gen=1;
static std::atomic_flag lk=ATOMIC_FLAG_INIT; struct Lock{ Lock(){ while(lk.test_and_set(std::memory_order_acquire)) ; } ~Lock(){ lk.clear(std::memory_order_release); } };
static size_t cls_size(int c){ if(c<64) return 16*(size_t)(c+1); c-=64; return ((size_t)(4+c%4+1))<<(8+c/4); } // 16..1024 in steps of 16, then four steps per power of two
static int cls_of(size_t n){ if(n<=1024) return n?(int)((n-1)/16):0; int c=64; while(cls_size(c)<n) ++c; return c; }
void mem_arena_start(){
	static const uintptr_t at[2]={0x200000000000ull,0x240000000000ull};
	for(int i=0;i<2;++i){ void*p=mmap((void*)at[i],SPAN,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p==MAP_FAILED) internal_error("cannot map the arena"); ar[i].lo=ar[i].top=(char*)p; ar[i].hi=ar[i].lo+SPAN; }
	live_list.next=live_list.prev=&live_list; on=true;
}
static inline int arena_of(void*p){ char*c=(char*)p; if(c>=ar[0].lo&&c<ar[0].hi&&ar[0].lo) return 0; if(c>=ar[1].lo&&c<ar[1].hi&&ar[1].lo) return 1; return -1; }
static void*get(int a,size_t n,size_t align,bool zero,bool track){
	if(n>(SPAN>>1)) return nullptr;
	Lock l; size_t need=n+64+8+(align>16?align:0); int c=cls_of(need); size_t cs=cls_size(c); Arena&A=ar[a]; char*base; bool fresh=false;
	if(A.freelist[c]){ base=(char*)A.freelist[c]; A.freelist[c]=*(void**)base; }
	else{ if(A.top+cs+16>A.hi) return nullptr; base=A.top; A.top+=(cs+15)&~15ull; fresh=true; }
	uintptr_t u=(uintptr_t)base+64; if(align>16) u=(u+align-1)&~(uintptr_t)(align-1);
	Head*h=(Head*)(u-64); h->size=n; h->base=base; h->cls=(uint32_t)c; h->magic=LIVE; h->gen=0;
	if(track){ h->gen=cur_gen; h->next=live_list.next; h->prev=&live_list; h->next->prev=h; live_list.next=h; ++nlive_blk; }
	memcpy((char*)u+n,&GUARD,8);
	if(zero&&!fresh) memset((void*)u,0,n);
	return (void*)u;
}
static void put(void*p,int a){
	Head*h=(Head*)((char*)p-64);
	if(h->magic!=LIVE){ if(self&&shm) violation(h->magic==DEAD?"double_free":"heap_corruption",h->magic==DEAD?"memory was freed twice":"memory before an allocated block was overwritten or a wild pointer was freed"); return; }
	if(memcmp((char*)p+h->size,&GUARD,8)){ if(self&&shm) violation("heap_corruption","memory behind an allocated block of "+std::to_string(h->size)+" bytes was overwritten"); }
	Lock l; if(h->gen==cur_gen){ h->next->prev=h->prev; h->prev->next=h->next; --nlive_blk; }
	h->gen=0; h->magic=DEAD; if(a==0&&h->size<=4096) memset(p,0xdb,h->size);
	char*b=h->base; uint32_t c=h->cls; *(void**)b=ar[a].freelist[c]; ar[a].freelist[c]=b;
}
void mem_reset(){ Lock l; ++cur_gen; live_list.next=live_list.prev=&live_list; nlive_blk=0; tracking=true; }
uint64_t mem_live(){ return nlive_blk; }
void mem_stop(){ tracking=false; }
std::string mem_describe(){ std::string s; NoAcct z; int k=0; for(Head*h=live_list.next;h&&h!=&live_list&&k<8;h=h->next,++k) s+=" "+std::to_string(h->size)+"B"; return s; }
uint64_t alloc_events(){ return events; }
bool mem_available(){ return true; }
void mem_set_fill(int b){ fill_byte=b; }
static thread_local uint64_t tl_allocs=0; uint64_t my_allocations(){ return tl_allocs; }
static inline bool acct(){ return self!=nullptr && tl_noacct==0 && g_frozen==0; }
static inline bool fail(){ if(!mem_faults_armed) return false; ++events; Fault f=fault_point(S_ALLOC); return f.kind==K_NOMEM; }
static void*alloc(size_t n,size_t align,bool zero,bool fill){
	if(!on) return zero?__libc_calloc(1,n): align>16?__libc_memalign(align,n):__libc_malloc(n);
	if(!acct()) return get(1,n,align,zero,false);
	++tl_allocs; if(fail()){ errno=ENOMEM; return nullptr; }
	void*p=get(0,n,align,zero,tracking);
	if(p&&fill&&fill_byte>=0&&n<=(1u<<20)) memset(p,fill_byte,n);
	return p;
}
}
using namespace sim;
extern "C"{
void*malloc(size_t n){ return alloc(n,16,false,true); }
void free(void*p){ if(!p) return; int a=on?arena_of(p):-1; if(a<0) __libc_free(p); else put(p,a); }
void*calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return nullptr; } return alloc(n,16,true,false); }
void*realloc(void*p,size_t n){
	int a=on&&p?arena_of(p):-1;
	if(!on||(p&&a<0)) { if(!on) return __libc_realloc(p,n); size_t o=0; { o=*(size_t*)((char*)p-8); o=(o&~7ull)-16; } void*q=alloc(n,16,false,false); if(q){ memcpy(q,p,o<n?o:n); __libc_free(p); } return q; }
	if(!p) return malloc(n);
	if(n==0){ free(p); return nullptr; }
	size_t o=((Head*)((char*)p-64))->size; void*q=alloc(n,16,false,true); if(!q) return nullptr;
	memcpy(q,p,o<n?o:n); free(p); return q;
}
void*memalign(size_t a,size_t n){ return alloc(n,a,false,true); }
void*aligned_alloc(size_t a,size_t n){ return memalign(a,n); }
int posix_memalign(void**o,size_t a,size_t n){ void*p=memalign(a,n); if(!p) return ENOMEM; *o=p; return 0; }
size_t malloc_usable_size(void*p){ if(!p) return 0; int a=on?arena_of(p):-1; if(a<0) return (*(size_t*)((char*)p-8)&~7ull)-16; return ((Head*)((char*)p-64))->size; }
}
