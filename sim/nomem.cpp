// A build: AddressSanitizer owns the allocator, so there are no allocation faults or leak accounting here.
#include "core.h"
namespace sim{ bool mem_faults_armed=false; void mem_reset(){} uint64_t mem_live(){ return 0; } void mem_stop(){} std::string mem_describe(){ return ""; } uint64_t alloc_events(){ return 0; } uint64_t my_allocations(){ return 0; } void mem_arena_start(){} bool mem_available(){ return false; } void mem_set_fill(int){} }
