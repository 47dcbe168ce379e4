// P16: the containers against their models through histories with failing allocations and concurrent readers.
#include "common.h"
#include <routingkit/bit_vector.h>
#include <routingkit/id_mapper.h>
#include <routingkit/id_queue.h>
#include <routingkit/id_set_queue.h>
#include <routingkit/timestamp_flag.h>
#include <routingkit/tag_map.h>
#include <routingkit/constants.h>
#include <map>
#include <set>
#include <memory>
using namespace RoutingKit;
namespace{
typedef std::vector<bool>Model;
uint64_t some_size(uint64_t top){ static const uint64_t edge[]={64,512,1024,1536,2048}; switch(draw(4)){ case 0: return draw(5); case 1: { uint64_t e=edge[draw(5)],d=draw(7); uint64_t v=e+d; return std::min<uint64_t>(v<3?0:v-3,top); } case 2: return std::min<uint64_t>(512*draw(5),top); default: return draw(top+1); } }
// runs f with failing allocations; false = out of memory
template<class F>bool attempt(const F&f){ bool before=mem_faults_armed; uint64_t had=fired(S_ALLOC); try{ f(); return true; }catch(std::bad_alloc&){ Frozen z; SIM_CHECK(before&&fired(S_ALLOC)>had,"spurious_error","ran out of memory although every allocation succeeded"); feature(9); return false; } }
struct Slot{ BitVector v; Model m; };
void compare(const BitVector&v,const Model&m,const std::string&where,bool deep){
	Frozen z;
	SIM_CHECK(v.size()==m.size()&&v.empty()==m.empty(),"size",where+": the bit vector has "+S(v.size())+" bits instead of "+S(m.size()));
	uint64_t ones=0; for(uint64_t i=0;i<m.size();++i){ ones+=m[i]; if(v.is_set(i)!=m[i]) violation("bits",where+": bit "+S(i)+" of "+S(m.size())+" is "+(m[i]?"not ":"")+"set"); }
	SIM_CHECK(v.uint512_count()==(m.size()+511)/512,"size",where+": wrong number of blocks");
	if(deep){ for(uint64_t i=0;i<v.uint512_count()*8;++i){ uint64_t w=0; for(unsigned b=0;b<64;++b) if(i*64+b<m.size()&&m[i*64+b]) w|=1ull<<b; SIM_CHECK(v.data()[i]==w,"padding",where+": word "+S(i)+" of the data of "+S(m.size())+" bits is wrong"); } }
	SIM_CHECK(v.population_count()==ones&&v.count_true()==ones&&v.count_false()==m.size()-ones,"count",where+": "+S(v.population_count())+" bits are counted instead of "+S(ones)+" of "+S(m.size()));
	SIM_CHECK(v.are_all_set()==(ones==m.size()),"all",where+": are_all_set is wrong for "+S(ones)+" of "+S(m.size())+" bits set");
	SIM_CHECK(v.is_any_set()==(ones!=0),"any",where+": is_any_set is wrong for "+S(ones)+" of "+S(m.size())+" bits set");
}
// three-way comparison must be a strict order that agrees with equality
void compare_order(const Slot&a,const Slot&b){ Frozen z; bool eq=a.m==b.m; SIM_CHECK((a.v==b.v)==eq&&(a.v!=b.v)==!eq,"equality","comparing bit vectors for equality is wrong"); bool lt=a.v<b.v,gt=a.v>b.v; SIM_CHECK(eq?(!lt&&!gt):(lt!=gt),"order","two bit vectors are ordered both ways or neither"); SIM_CHECK((a.v<=b.v)==!gt&&(a.v>=b.v)==!lt,"order","the comparison operators of bit vectors contradict each other"); }
void concurrently(const std::function<void(unsigned)>&f,unsigned clients){ for(unsigned c=0;c<clients;++c){ Frozen z; spawn([&f,c]{ f(c); }); } join_all(); }
// more bits than 32 bit numbers count; rare, as every pass over them takes long
bool big_bits(){
#ifdef ROUTING_KIT_NO_GCC_EXTENSIONS
	return false; // counting bits one after another takes half a minute there
#endif
	if(!mem_available()||!chance(1,8000)) return false;
	uint64_t n=(1ull<<32)+draw(5000),m= chance(1,2)?n+513+draw(4000):(1ull<<32)-draw(3000); bool val=chance(1,3),enlarge=chance(1,2); note("bit vector of "+S(n)+" bits "+(enlarge?"made large enough for ":"resized to ")+S(m)); feature(8);
	std::set<uint64_t>pos; unsigned c=1+(unsigned)draw(20); for(unsigned i=0;i<c;++i) pos.insert(chance(1,2)?n-1-draw(std::min<uint64_t>(n,6000)):draw(n));
	begin_threads(); mem_reset(); { Frozen z; // no allocation fails and nothing else runs: only the size is of interest
	{ BitVector v(n,val); auto ones=[&](uint64_t size){ uint64_t k=0; for(uint64_t p:pos) k+= p<size; return val?size-k:k; };
	for(uint64_t p:pos) v.set(p,!val); auto look=[&](uint64_t size){ SIM_CHECK(v.size()==size,"size","the bit vector has "+S(v.size())+" bits instead of "+S(size)); SIM_CHECK(v.population_count()==ones(size),"count",S(v.population_count())+" bits are counted instead of "+S(ones(size))+" of "+S(size)); SIM_CHECK(v.is_any_set()==(ones(size)!=0)&&v.are_all_set()==(ones(size)==size),"any","is_any_set or are_all_set is wrong for "+S(ones(size))+" of "+S(size)+" bits set"); for(uint64_t p:pos) for(uint64_t q: {p,(uint64_t)(p&0xffffffffull),(uint64_t)(p^(1ull<<32))}) if(q<size) SIM_CHECK(v.is_set(q)==(pos.count(q)?!val:val),"bits","bit "+S(q)+" of "+S(size)+" has the wrong value"); };
	look(n); if(enlarge){ v.make_large_enough_for(m,val); SIM_CHECK(v.size()>m,"size","the bit vector was made large enough for "+S(m)+" but has "+S(v.size())+" bits"); m=v.size(); } else v.resize(m,val); look(m); { uint64_t k=ones(m); BitVector w=v; w.inplace_not(); SIM_CHECK(w.population_count()==m-k,"count","the complement of "+S(k)+" of "+S(m)+" bits has "+S(w.population_count())); w|=v; SIM_CHECK(w.are_all_set()&&w!=v,"bits","a bit vector joined with its complement has gaps"); }
	{ IDMapper map(v); uint64_t k=ones(m); SIM_CHECK(map.global_id_count()==m&&map.local_id_count()==k,"count","the mapper counts "+S(map.local_id_count())+" of "+S(map.global_id_count())+" identifiers instead of "+S(k)+" of "+S(m)); for(uint64_t p:pos) for(uint64_t g:{p,p?p-1:p,p+1}) if(g<m){ bool in=v.is_set(g); uint64_t below=0; for(uint64_t q:pos) below+= q<g; uint64_t l=val?g-below:below; SIM_CHECK(map.is_global_id_mapped(g)==in&&map.to_local(g,77)==(in?l:77),"to_local","identifier "+S(g)+" of "+S(m)+" is mapped to "+S(map.to_local(g,77))+" instead of "+S(in?l:77)); if(in) SIM_CHECK(map.to_global(l)==g,"to_global","local identifier "+S(l)+" is mapped to "+S(map.to_global(l))+" instead of "+S(g)); } } }
	} checked(1); leak_check(mem_live(),"after the bit vector was destroyed"); mem_stop(); end_threads(); return true;
}
}
SCENARIO(bit_vectors){
	if(big_bits()) return;
	uint64_t top= chance(1,6)?6000:2100; bool large=chance(1,150); if(large){ top=70000+draw(140000); feature(7); } unsigned ops=1+(unsigned)skewed(0,large?12:tier?120:60); unsigned den=(unsigned)(chance(2,3)?2+draw(12):0); note("bit vectors up to "+S(top)+" bits, "+S(ops)+" operations"+(den?", every "+S(den)+"th allocation fails":"")); mem_set_fill((int)draw(3)==0?-1:(int)draw(256));
	if(den) fault_prob(S_ALLOC,K_NOMEM,1,den);
	bool deep=chance(1,2); unsigned readers=chance(1,4)?2:0;
	begin_threads(); mem_reset();
	{ std::vector<Slot>s; { Frozen z; s.resize(3); }
	auto fill=[&](Model&m,const BitVector&v){ Frozen z; m.assign(v.size(),false); for(uint64_t i=0;i<v.size();++i) m[i]=v.is_set(i); };
	for(unsigned k=0;k<ops;++k){
		unsigned a=(unsigned)draw(3),b=(unsigned)draw(3),op=(unsigned)draw(26); Slot&x=s[a],&y=s[b]; uint64_t n=some_size(top),i= x.m.empty()?0:draw(x.m.size()); bool val=chance(1,2); std::string what; { Frozen z; what="operation "+S(k); }
		if(op>=8&&op<=14&&x.m.empty()) op=0;
		mem_faults_armed= den!=0;
		switch(op){
			case 0: if(attempt([&]{ x.v=BitVector(n,val); })){ Frozen z; x.m.assign(n,val); what+=" (construct)"; } break;
			case 1: if(attempt([&]{ x.v=BitVector(n,BitVector::uninitialized); })){ Frozen z; SIM_CHECK(x.v.size()==n,"size","an uninitialised bit vector has the wrong size"); fill(x.m,x.v); what+=" (construct uninitialised)"; } break;
			case 2: if(attempt([&]{ x.v=y.v; })){ Frozen z; Model t=y.m; x.m=t; what+=" (copy)"; } break;
			case 3: if(a!=b){ x.v=std::move(y.v); // what was moved from is a bit vector still: it can be looked at, copied and given a new value
				attempt([&]{ uint64_t left=y.v.size(); BitVector c(y.v); Frozen z; SIM_CHECK(c.size()==left&&c==y.v,"moved","a bit vector that was moved from cannot be copied"); uint64_t ones=0; for(uint64_t q=0;q<left;++q) ones+=y.v.is_set(q); SIM_CHECK(ones==y.v.population_count()&&y.v.empty()==(left==0),"moved","a bit vector that was moved from contradicts itself"); });
				y.v=BitVector(); Frozen z; x.m=y.m; y.m.clear(); what+=" (move)"; } break;
			case 4: x.v.swap(y.v); { Frozen z; Model t=x.m; x.m=y.m; y.m=t; what+=" (swap)"; } break;
			case 5: if(attempt([&]{ x.v.resize(n,val); })){ Frozen z; what+=" (resize from "+S(x.m.size())+" to "+S(n)+" filling with "+S(val)+")"; x.m.resize(n,val); feature(2); } break;
			case 6: if(attempt([&]{ x.v.resize(n,BitVector::uninitialized); })){ Frozen z; what+=" (resize uninitialised)"; uint64_t old=x.m.size(); SIM_CHECK(x.v.size()==n,"size",what+": wrong size"); x.m.resize(n); for(uint64_t q=old;q<n;++q) x.m[q]=x.v.is_set(q); feature(3); } break;
			case 7: { bool uninit=chance(1,3); if(attempt([&]{ if(uninit) x.v.make_large_enough_for(n,BitVector::uninitialized); else x.v.make_large_enough_for(n,val); })){ Frozen z; what+=" (make large enough for "+S(n)+" filling with "+S(val)+")"; uint64_t old=x.m.size(); SIM_CHECK(x.v.size()>n&&(old<=n||x.v.size()==old),"size",what+": wrong size"); x.m.resize(x.v.size(),val); if(uninit) for(uint64_t q=old;q<x.m.size();++q) x.m[q]=x.v.is_set(q); feature(4); } break; }
			case 8: x.v.set(i); x.m[i]=true; break;
			case 9: x.v.set(i,val); x.m[i]=val; break;
			case 10: x.v.set_if(i,val); if(val) x.m[i]=true; break;
			case 11: x.v.reset(i); x.m[i]=false; break;
			case 12: x.v.toggle(i); x.m[i]=!x.m[i]; break;
			case 13: { uint64_t to=i+draw(std::min<uint64_t>(700,x.m.size()-i)); for(uint64_t q=i;q<=to;++q){ x.v.set(q,val); x.m[q]=val; } { Frozen z; what+=" (range)"; } break; }
			case 14: { uint64_t seed=draw(1u<<20); Rng r(seed); for(uint64_t q=0;q<x.m.size();++q){ bool w=r.chance(1,3); x.v.set(q,w); x.m[q]=w; } { Frozen z; what+=" (randomise)"; } break; }
			case 15: x.v.set_all(); { Frozen z; x.m.assign(x.m.size(),true); what+=" (set all)"; } break;
			case 16: x.v.set_all(val); { Frozen z; x.m.assign(x.m.size(),val); what+=" (set all to "+S(val)+")"; } break;
			case 17: x.v.reset_all(); { Frozen z; x.m.assign(x.m.size(),false); } break;
			case 18: case 19: case 20: { // combine with one of the same size
				if(x.m.size()!=y.m.size()){ if(!attempt([&]{ y.v=BitVector(x.m.size(),val); })) break; Frozen z; y.m.assign(x.m.size(),val); }
				unsigned form=(unsigned)draw(5); bool ok=attempt([&]{
					if(form==0){ if(op==18) x.v|=y.v; else if(op==19) x.v^=y.v; else x.v&=y.v; }
					else if(form==1) x.v= op==18?x.v|y.v:op==19?x.v^y.v:x.v&y.v;
					else if(form==2){ BitVector t=x.v; x.v= op==18?std::move(t)|y.v:op==19?std::move(t)^y.v:std::move(t)&y.v; }
					else if(form==3){ BitVector t=y.v; x.v= op==18?x.v|std::move(t):op==19?x.v^std::move(t):x.v&std::move(t); }
					else { BitVector t=y.v,u=x.v; x.v= op==18?std::move(u)|std::move(t):op==19?std::move(u)^std::move(t):std::move(u)&std::move(t); } });
				if(ok){ Frozen z; what+= op==18?" (or)":op==19?" (xor)":" (and)"; for(uint64_t q=0;q<x.m.size();++q) x.m[q]= op==18?(x.m[q]||y.m[q]):op==19?(x.m[q]!=y.m[q]):(x.m[q]&&y.m[q]); feature(5); } break; }
			case 21: x.v.inplace_not(); { Frozen z; x.m.flip(); what+=" (not)"; } break;
			case 22: if(attempt([&]{ x.v=~y.v; })){ Frozen z; Model t=y.m; t.flip(); x.m=t; what+=" (complement)"; } break;
			case 23: { uint64_t p=1+draw(9); if(attempt([&]{ x.v=make_bit_vector(n,[&](uint64_t q){ return q%p==0; }); })){ Frozen z; x.m.assign(n,false); for(uint64_t q=0;q<n;q+=p) x.m[q]=true; what+=" (make)"; } break; }
			case 24: if(x.m.size()){ // data written directly, then the padding cleared
				uint64_t w=draw(x.v.uint512_count()*8); x.v.data()[w]=~0ull; x.v.reset_all_padding_bits(); Frozen z; for(uint64_t q=w*64;q<w*64+64&&q<x.m.size();++q) x.m[q]=true; what+=" (write data)"; } break;
			default: if(readers&&x.m.size()){ std::function<void(unsigned)>f; { Frozen z; Slot*px=&x; bool d=deep; f=[px,d](unsigned c){ uint64_t ones=px->v.population_count(); yield_point(); bool all=px->v.are_all_set(),any=px->v.is_any_set(); Frozen z2; SIM_CHECK(all==(ones==px->m.size())&&any==(ones!=0),"readers","concurrent readers see another bit vector"); compare(px->v,px->m,"read by client "+S(c),d); }; } bool keep=mem_faults_armed; mem_faults_armed=false; concurrently(f,readers); { Frozen z; f=nullptr; } mem_faults_armed=keep; feature(6); } break;
		}
		mem_faults_armed=false;
		compare(x.v,x.m,what,deep); if(a!=b) compare(y.v,y.m,what+" (other operand)",deep); compare_order(s[a],s[b]); { Frozen z; std::string().swap(what); }
		observe(x.v.population_count());
	}
	{ Frozen z; for(auto&q:s){ Model().swap(q.m); } }
	for(auto&q:s) q.v=BitVector(); { Frozen z; std::vector<Slot>().swap(s); } }
	clear_faults(); uint64_t live=mem_live(); leak_check(live,"after all bit vectors were destroyed"); mem_stop(); end_threads();
}
SCENARIO(id_maps){
	unsigned kind=(unsigned)draw(3); bool large=chance(1,80); uint64_t n= large?100000+draw(200000):kind==0?some_size(2600):kind==1?skewed(0,6000):512*draw(20); unsigned dens=(unsigned)draw(6); uint64_t seed=draw(1ull<<30); unsigned clients=(unsigned)draw(3); unsigned den=(unsigned)(chance(1,2)?2+draw(6):0); bool as_raw=chance(1,3);
	if(large) feature(5); note("mapping of "+S(n)+" identifiers, density "+S(dens)+(den?", failing allocations":"")+", "+S(clients)+" concurrent readers");
	if(den) fault_prob(S_ALLOC,K_NOMEM,1,den);
	Rng r(seed); BitVector bits(n); std::vector<uint64_t>global; 
	{ uint64_t lo= dens==5&&n?r.below(n):0; for(uint64_t i=0;i<n;++i){ bool b= dens==0?false:dens==1?true:dens==2?r.chance(1,2):dens==3?r.chance(1,200):dens==4?!r.chance(1,100):(i>=lo&&i<lo+700); if(b){ bits.set(i); global.push_back(i); } } }
	std::vector<uint64_t>raw((n+511)/512*8,0); for(uint64_t g:global) raw[g/64]|=1ull<<(g%64);
	std::vector<uint64_t>local(n,~0ull); for(uint64_t l=0;l<global.size();++l) local[global[l]]=l;
	auto verify=[&](const LocalIDMapper&m,const IDMapper*full,const std::string&who,uint64_t skip,uint64_t step){
		uint64_t gc=m.global_id_count(),lc=m.local_id_count(); { Frozen z; SIM_CHECK(gc==n&&lc==global.size(),"count",who+": the mapper counts "+S(lc)+" of "+S(gc)+" identifiers instead of "+S(global.size())+" of "+S(n)); }
		for(uint64_t g=skip;g<n;g+=step){ bool mapped=m.is_global_id_mapped(g); uint64_t l=m.to_local(g,12345678901ull); uint64_t e=local[g]; if(mapped!=(e!=~0ull)||l!=(e==~0ull?12345678901ull:e)||(mapped&&m.to_local(g)!=e)){ Frozen z; violation("to_local",who+": identifier "+S(g)+" of "+S(n)+" is mapped to "+S(l)+" instead of "+(e==~0ull?"nothing":S(e))); } if(g%64==0) yield_point(); }
		checked(n/step);
		uint64_t beyond=m.to_local(n,7),far=m.to_local(n+100000,8); { Frozen z; SIM_CHECK(beyond==7&&far==8,"to_local",who+": an identifier out of range is mapped"); }
		if(full) for(uint64_t l=skip;l<global.size();l+=step){ uint64_t g=full->to_global(l); if(g!=global[l]){ Frozen z; violation("to_global",who+": local identifier "+S(l)+" is mapped to "+S(g)+" instead of "+S(global[l])); } if(l%64==0) yield_point(); }
		checked(global.size()/step);
	};
	begin_threads(); mem_reset(); mem_faults_armed= den!=0;
	{ LocalIDMapper loc; IDMapper full; { Frozen z; SIM_CHECK(loc.global_id_count()==0&&loc.local_id_count()==0&&full.local_id_count()==0&&full.to_local(0,5)==5,"count","a default constructed mapper is not empty"); }
	bool l_ok=false,f_ok=false; unsigned fails=0;
	for(unsigned round=0;round<6&&!(l_ok&&f_ok);++round){
		if(round==4) mem_faults_armed=false;
		if(!l_ok) l_ok=attempt([&]{ if(as_raw) loc=LocalIDMapper(n,raw.data()); else loc=LocalIDMapper(bits); });
		if(!f_ok) f_ok=attempt([&]{ if(as_raw) full=IDMapper(n,raw.data()); else full=IDMapper(bits); });
		if(!l_ok||!f_ok){ ++fails; Frozen z; if(!l_ok) SIM_CHECK(loc.global_id_count()==0&&loc.local_id_count()==0,"target_changed","a mapper changed although building its replacement failed"); if(!f_ok) SIM_CHECK(full.local_id_count()==0,"target_changed","a mapper changed although building its replacement failed"); }
	}
	IDMapper copy; bool copied=attempt([&]{ IDMapper c(full); copy=std::move(c); });
	mem_faults_armed=false;
	if(clients<2){ verify(loc,nullptr,"local mapper",0,1); verify(full,&full,"mapper",0,1); }
	else { feature(0); uint64_t st=1+n/800; std::function<void(unsigned)>f; { Frozen z; const LocalIDMapper*pl=&loc; const IDMapper*pf=&full; auto*pv=&verify; f=[pl,pf,pv,st](unsigned c){ if(c==0) (*pv)(*pf,pf,"mapper, first reader",0,st); else { (*pv)(*pf,pf,"mapper, second reader",st/2,st); (*pv)(*pl,nullptr,"local mapper, second reader",0,st); } }; } concurrently(f,2); { Frozen z; f=nullptr; } }
	if(copied) verify(copy,&copy,"copied mapper",0,3); if(fails) feature(2); if(n%512==0) feature(3); if(!global.empty()&&global.size()==n) feature(4); }
	clear_faults(); uint64_t live=mem_live(); leak_check(live,"after the mappers were destroyed"); mem_stop(); end_threads();
	for(uint64_t g=0;g<n;++g) SIM_CHECK(bits.is_set(g)==(local[g]!=~0ull),"bits","the mapped bit vector changed");
}
SCENARIO(queues){
	unsigned kind=(unsigned)draw(3),n= chance(1,15)?0:1+(unsigned)skewed(0,tier?300:120); unsigned ops=1+(unsigned)skewed(0,tier?800:300); unsigned den=(unsigned)(chance(1,2)?1+draw(5):0); unsigned keys=1+(unsigned)skewed(0,40);
	static const char*names[]={"priority queue","identifier set","flags"}; std::string name=names[kind]; note(name+" of "+S(n)+" identifiers, "+S(ops)+" operations"+(den?", failing allocations":"")); feature((int)kind); mem_set_fill((int)draw(3)==0?-1:(int)draw(256));
	uint64_t seed=draw(1ull<<30); Rng r(seed); bool extreme=chance(1,4); auto key=[&]{ unsigned k=(unsigned)r.below(keys); return extreme&&r.chance(1,3)?(r.chance(1,2)?inf_weight-k:4294967295u-k):k; };
	if(den) fault_prob(S_ALLOC,K_NOMEM,1,den); begin_threads(); mem_reset(); mem_faults_armed= den!=0;
	auto make=[&](const std::function<void()>&f){ for(unsigned i=0;i<20;++i){ if(i==19) mem_faults_armed=false; if(attempt(f)) break; } mem_faults_armed=den!=0; };
	std::function<void()>ctor; auto set_ctor=[&](const std::function<void()>&f){ Frozen z; ctor=f; };
	if(kind==0){ MinIDQueue q; std::map<unsigned,unsigned>m; set_ctor([&]{ q=MinIDQueue(n); }); make(ctor);
		{ Frozen z; SIM_CHECK(q.id_count()==n&&q.empty(),"size","a new queue is not empty"); }
		for(unsigned k=0;k<ops&&n;++k){ unsigned id=(unsigned)r.below(n),op=(unsigned)r.below(12),w=key(); bool in; { Frozen z; in=m.count(id)!=0; SIM_CHECK(q.contains_id(id)==in,"contains","the queue is wrong about containing an identifier"); if(in) SIM_CHECK(q.get_key(id)==m[id],"key","the queue has the wrong key for an identifier"); }
			if(op<5){ if(!in){ q.push({id,w}); Frozen z; m[id]=w; } else { bool res=op<2?q.decrease_key({id,w}):q.increase_key({id,w}); Frozen z; bool exp= op<2?w<m[id]:w>m[id]; SIM_CHECK(res==exp,"key","changing a key reported the wrong outcome"); if(exp) m[id]=w; } }
			else if(op<9&&!m.empty()){ IDKeyPair p=q.peek(); IDKeyPair x=q.pop(); Frozen z; SIM_CHECK(p.id==x.id&&p.key==x.key,"pop","the element removed is not the one shown"); auto it=m.find(x.id); SIM_CHECK(it!=m.end()&&it->second==x.key,"pop","an element was removed that is not in the queue"); for(auto&e:m) SIM_CHECK(e.second>=x.key,"pop","the element removed is not the smallest"); m.erase(it); }
			else if(op==9&&r.chance(1,6)){ q.clear(); Frozen z; m.clear(); feature(4); }
			else if(op==10&&r.chance(1,6)){ std::unique_ptr<MinIDQueue>c; bool ok=attempt([&]{ c.reset(new MinIDQueue(q)); }); if(ok){ MinIDQueue&o=*c; if(r.chance(1,2)){ q.clear(); swap(q,o); } else if(r.chance(1,2)) q=std::move(o); c.reset(); } feature(5); }
			Frozen z; SIM_CHECK(q.size()==m.size()&&q.empty()==m.empty(),"size","the queue has the wrong size"); }
		unsigned last=0; while(!q.empty()){ IDKeyPair x=q.pop(); Frozen z; SIM_CHECK(x.key>=last&&m.count(x.id)&&m[x.id]==x.key,"pop","draining the queue gives the wrong elements"); last=x.key; m.erase(x.id); } { Frozen z; SIM_CHECK(m.empty(),"pop","the queue lost elements"); for(unsigned i=0;i<n;++i) SIM_CHECK(!q.contains_id(i),"contains","an empty queue contains an identifier"); std::map<unsigned,unsigned>().swap(m); }
	}else if(kind==1){ IDSetMinQueue q; std::set<unsigned>m; { Frozen z; SIM_CHECK(q.empty()&&q.id_count()==0&&q.peek()==invalid_id,"size","a default constructed set is not empty"); } set_ctor([&]{ q=IDSetMinQueue(n); }); make(ctor); { Frozen z; SIM_CHECK(q.id_count()==n&&q.empty(),"size","a new set is not empty"); }
		for(unsigned k=0;k<ops&&n;++k){ unsigned id=(unsigned)(r.chance(1,4)?n-1:r.below(n)),op=(unsigned)r.below(10);
			if(op<5){ q.push(id); Frozen z; m.insert(id); }
			else if(op<8&&!m.empty()){ unsigned p=q.peek(),x=q.pop(); Frozen z; SIM_CHECK(x==p&&x==*m.begin(),"pop","the identifier removed is not the smallest"); m.erase(m.begin()); }
			else if(op==8&&r.chance(1,8)){ q.clear(); Frozen z; m.clear(); feature(4); }
			else if(op==9&&r.chance(1,5)){ attempt([&]{ IDSetMinQueue c(q); q=std::move(c); }); feature(5); }
			Frozen z; SIM_CHECK(q.empty()==m.empty()&&q.peek()==(m.empty()?invalid_id:*m.begin()),"peek","the set shows the wrong smallest identifier"); SIM_CHECK(q.contains(id)==(m.count(id)!=0),"contains","the set is wrong about containing an identifier"); }
		{ Frozen z; for(unsigned i=0;i<n;++i) SIM_CHECK(q.contains(i)==(m.count(i)!=0),"contains","the set is wrong about containing an identifier"); std::set<unsigned>().swap(m); }
	}else{ TimestampFlags f; std::vector<char>m; { Frozen z; m.assign(n,0); } set_ctor([&]{ f=TimestampFlags(n); }); make(ctor); unsigned long resets=0;
		for(unsigned k=0;k<ops&&n;++k){ unsigned id=(unsigned)r.below(n),op=(unsigned)r.below(12);
			if(op<5){ f.set(id); m[id]=1; } else if(op<8){ f.reset_one(id); m[id]=0; }
			else if(op<10){ unsigned long c= r.chance(1,3)?1: r.chance(1,2)?65534+r.below(4):1+r.below(3000); if(resets>400000) c=1; { Frozen z; for(unsigned long i=0;i<c;++i) f.reset_all(); resets+=c; m.assign(n,0); } if(c>60000) feature(6); }
			else if(op==10){ attempt([&]{ TimestampFlags c(f); f=std::move(c); }); }
			Frozen z; SIM_CHECK(f.is_set(id)==(m[id]!=0),"flag","a flag has the wrong value"); if(k%16==0||k+1==ops) for(unsigned i=0;i<n;++i) SIM_CHECK(f.is_set(i)==(m[i]!=0),"flag","flag "+S(i)+" of "+S(n)+" has the wrong value after "+S(resets)+" resets"); }
		{ Frozen z; std::vector<char>().swap(m); }
	}
	{ Frozen z; ctor=nullptr; }
	mem_faults_armed=false; clear_faults(); uint64_t live=mem_live(); leak_check(live,"after the "+name+" was destroyed"); mem_stop(); end_threads();
}
SCENARIO(tag_maps){
	unsigned rounds=1+(unsigned)draw(6),den=(unsigned)(chance(1,2)?1+draw(5):0); uint64_t seed=draw(1ull<<30); Rng r(seed); unsigned clients=(unsigned)draw(3); note("tag map built "+S(rounds)+" times"+(den?", failing allocations":""));
	if(den) fault_prob(S_ALLOC,K_NOMEM,1,den);
	static const char*stem[]={"name","highway","oneway","maxspeed","access","e","t","","ref","a:b","restriction:bicycle","etaoin","EtaoiN"};
	auto word=[&](bool key){ std::string s= r.chance(1,2)?stem[r.below(13)]:""; unsigned len=(unsigned)r.below(5); for(unsigned i=0;i<len;++i) s+=(char)(r.chance(1,8)?128+r.below(128):r.chance(1,2)?'a'+r.below(26):"etaoinshrETAO_7"[r.below(15)]); if(!key&&r.chance(1,10)) s=""; return s; };
	// all rounds are prepared first, the strings live as long as the run
	std::vector<std::vector<std::pair<std::string,std::string>>>data(rounds); std::vector<std::string>probe{"","e","name","nema","highway","x"};
	bool large=chance(1,400); if(large) feature(3); for(auto&d:data){ unsigned c= large&&r.chance(1,2)?65536+(unsigned)r.below(9000):r.chance(1,6)?(unsigned)r.below(600):(unsigned)r.below(12); std::set<std::string>seen; for(unsigned i=0;i<c;++i){ std::string k=word(true); if(c>60000) k+=S(i); if(!seen.insert(k).second) continue; d.push_back({k,word(false)}); if(r.chance(1,3)&&probe.size()<60){ probe.push_back(k); if(k.size()>2){ std::string t=k; std::swap(t[1],t[t.size()-2]); probe.push_back(t); t=k; t[0]^=32; probe.push_back(t); } } } }
	begin_threads(); mem_reset();
	{ std::unique_ptr<TagMap>m; mem_faults_armed= den!=0; for(unsigned i=0;i<30&&!m;++i){ if(i==29) mem_faults_armed=false; attempt([&]{ m.reset(new TagMap); }); } mem_faults_armed=false;
	{ Frozen z; SIM_CHECK(m->empty()&&m->size()==0,"size","a new tag map is not empty"); for(auto&p:probe) SIM_CHECK((*m)[p.c_str()]==nullptr,"lookup","an empty tag map knows a key"); }
	for(unsigned k=0;k<rounds;++k){ auto&d=data[k]; mem_faults_armed= den!=0; bool ok=attempt([&]{ m->build((unsigned)d.size(),[&](unsigned i){ return d[i].first.c_str(); },[&](unsigned i){ return d[i].second.c_str(); }); }); mem_faults_armed=false; std::string at; { Frozen z; at="build "+S(k); }
		auto look=[&](const std::string&key){ const char*v=(*m)[key.c_str()]; Frozen z; const std::string*e=nullptr; for(auto&x:d) if(x.first==key) e=&x.second; if(ok) SIM_CHECK(e?(v&&*e==v):!v,"lookup",at+": looking up \""+key+"\" gives "+(v?"\""+std::string(v)+"\"":"nothing")+" instead of "+(e?"\""+*e+"\"":"nothing"));
			else { bool fine= !v||(e&&*e==v); for(unsigned o=0;o<k&&!fine;++o) for(auto&x:data[o]) if(x.first==key&&x.second.c_str()==v) fine=true; SIM_CHECK(fine,"lookup",at+" failed and looking up \""+key+"\" gives a value that was never stored for it"); } };
		if(ok&&clients==2){ feature(0); std::function<void(unsigned)>f; { Frozen z; auto*pl=&look; auto*pp=&probe; f=[pl,pp](unsigned c){ for(size_t i=0;i<pp->size();++i){ (*pl)((*pp)[c?pp->size()-1-i:i]); yield_point(); } }; } concurrently(f,2); { Frozen z; f=nullptr; } }
		for(auto&p:probe) look(p); for(size_t i=0;i<d.size();i+= d.size()>5000?d.size()/60:1) look(d[i].first);
		if(ok){ Frozen z; SIM_CHECK(m->size()==d.size()&&m->empty()==d.empty(),"size",at+": the tag map has "+S(m->size())+" entries instead of "+S(d.size())); std::map<std::string,std::string>all; for(auto&e:*m) SIM_CHECK(all.insert({e.key,e.value}).second,"iterate",at+": a key appears twice"); SIM_CHECK(all.size()==d.size(),"iterate",at+": entries are missing"); for(auto&x:d) SIM_CHECK(all.count(x.first)&&all[x.first]==x.second,"iterate",at+": an entry is wrong"); } else feature(1);
		if(r.chance(1,5)){ m->clear(); feature(2); Frozen z; SIM_CHECK(m->empty(),"clear","a cleared tag map is not empty"); for(auto&x:d) SIM_CHECK((*m)[x.first.c_str()]==nullptr,"clear","a cleared tag map knows a key"); }
		{ Frozen z; std::string().swap(at); } } }
	clear_faults(); uint64_t live=mem_live(); leak_check(live,"after the tag map was destroyed"); mem_stop(); end_threads();
}
