// Memory-access seam: the hooks that `g++ -fsanitize=thread` places before every load, store and
// atomic operation of the code under test. libtsan is not linked; these definitions let the simulator
// preempt a thread between any two memory accesses.
#include "core.h"
using namespace sim;
static inline __attribute__((always_inline)) void acc(const void*p,bool w){ if(__builtin_expect(--g_cd<=0,0)) mem_access_slow(p,w); }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef unsigned __int128 u128;
extern "C"{
void __tsan_init(){}
void __tsan_func_entry(void*){} void __tsan_func_exit(){}
void __tsan_vptr_update(void**p,void*){ acc(p,true); } void __tsan_vptr_read(void**p){ acc(p,false); }
#define RW(n) void __tsan_read##n(void*p){ acc(p,false); } void __tsan_write##n(void*p){ acc(p,true); } \
 void __tsan_unaligned_read##n(void*p){ acc(p,false); } void __tsan_unaligned_write##n(void*p){ acc(p,true); } \
 void __tsan_volatile_read##n(void*p){ acc(p,false); } void __tsan_volatile_write##n(void*p){ acc(p,true); } \
 void __tsan_read_write##n(void*p){ acc(p,true); } void __tsan_unaligned_read_write##n(void*p){ acc(p,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,unsigned long){ acc(p,false); } void __tsan_write_range(void*p,unsigned long){ acc(p,true); }
void __tsan_atomic_thread_fence(int){ __atomic_thread_fence(__ATOMIC_SEQ_CST); } void __tsan_atomic_signal_fence(int){}
#define AT(b,T) \
 T __tsan_atomic##b##_load(const volatile T*p,int){ atomic_point((const void*)p,false); return __atomic_load_n(p,__ATOMIC_SEQ_CST); } \
 void __tsan_atomic##b##_store(volatile T*p,T v,int){ atomic_point((const void*)p,true); __atomic_store_n(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_exchange(volatile T*p,T v,int){ atomic_point((const void*)p,true); return __atomic_exchange_n(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_add(volatile T*p,T v,int){ atomic_point((const void*)p,true); return __atomic_fetch_add(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_sub(volatile T*p,T v,int){ atomic_point((const void*)p,true); return __atomic_fetch_sub(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_and(volatile T*p,T v,int){ atomic_point((const void*)p,true); return __atomic_fetch_and(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_or(volatile T*p,T v,int){ atomic_point((const void*)p,true); return __atomic_fetch_or(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_xor(volatile T*p,T v,int){ atomic_point((const void*)p,true); return __atomic_fetch_xor(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_nand(volatile T*p,T v,int){ atomic_point((const void*)p,true); return __atomic_fetch_nand(p,v,__ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T*p,T*e,T v,int,int){ atomic_point((const void*)p,true); return __atomic_compare_exchange_n(p,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T*p,T*e,T v,int,int){ atomic_point((const void*)p,true); return __atomic_compare_exchange_n(p,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T*p,T e,T v,int,int){ atomic_point((const void*)p,true); __atomic_compare_exchange_n(p,&e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return e; }
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64)
}
