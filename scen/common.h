#ifndef SCEN_COMMON_H
#define SCEN_COMMON_H
#include "../sim/sim.h"
#include <string>
#include <vector>
#include <stdexcept>
#include <new>
#include <system_error>
#include <cstring>
#include <algorithm>
using namespace sim;
inline std::string S(uint64_t x){ return std::to_string(x); }
struct HarnessError:std::runtime_error{ int code; HarnessError(const std::string&s,int c):std::runtime_error(s),code(c){} };
// biased size: often tiny, sometimes large
inline uint64_t skewed(uint64_t lo,uint64_t hi){ uint64_t k=draw(4); uint64_t span=hi-lo; if(k==0) span=std::min<uint64_t>(span,3); else if(k==1) span=std::min<uint64_t>(span,12); return lo+draw(span+1); }
// live = mem_live() taken before any text is put together
inline void leak_check_live(uint64_t live,const std::string&what){ if(mem_available()&&live!=0){ std::string d=mem_describe(); mem_stop(); violation("leak",what+": "+S(live)+" allocations are still alive:"+d); } checked(); }
#define leak_check(live,what) do{ uint64_t live_now=(live); leak_check_live(live_now,(what)); }while(0)
#endif
