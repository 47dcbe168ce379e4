// P14: building indexes while memory runs out, callbacks throw and the clock jumps.
#include "cch.h"
#include <routingkit/nested_dissection.h>
#include <routingkit/geo_position_to_node.h>
#include <routingkit/strongly_connected_component.h>
#include <routingkit/timer.h>
static bool same(const std::vector<unsigned>&a,const std::vector<unsigned>&b){ return a==b; }
static bool same(const CustomizableContractionHierarchyMetric&a,const CustomizableContractionHierarchyMetric&b){ return a.forward==b.forward&&a.backward==b.backward; }
static bool same(const CustomizableContractionHierarchyParallelization&a,const CustomizableContractionHierarchyParallelization&b){ return a.first_arc_of_level==b.first_arc_of_level&&a.arcs_ordered_by_level==b.arcs_ordered_by_level; }
static bool same(const SeparatorDecomposition&a,const SeparatorDecomposition&b){ if(a.order!=b.order||a.tree.size()!=b.tree.size()) return false; for(size_t i=0;i<a.tree.size();++i) if(a.tree[i].left_child!=b.tree[i].left_child||a.tree[i].right_sibling!=b.tree[i].right_sibling||a.tree[i].first_separator_vertex!=b.tree[i].first_separator_vertex||a.tree[i].last_separator_vertex!=b.tree[i].last_separator_vertex) return false; return true; }
static bool same(const GeoPositionToNode&a,const GeoPositionToNode&b){ if(a.point_id!=b.point_id||a.point_position.size()!=b.point_position.size()) return false; for(size_t i=0;i<a.point_id.size();++i) if(a.point_position[i].latitude!=b.point_position[i].latitude||a.point_position[i].longitude!=b.point_position[i].longitude) return false; return true; }
static bool same(const ContractionHierarchyExtraWeight<unsigned>&a,const ContractionHierarchyExtraWeight<unsigned>&b){ return a.forward_weight==b.forward_weight&&a.backward_weight==b.backward_weight; }
static bool same(const StronlyConnectedComponentsResult&a,const StronlyConnectedComponentsResult&b){ return a.component_of==b.component_of&&a.component_count==b.component_count; }
namespace{
struct Calls{ long at=-1; long seen=0; bool threw=false; void hit(){ yield_point(); if(seen++==at){ threw=true; shm->fired[S_CALLBACK][K_THROW]++; throw HarnessError("callback",4711); } } };
typedef std::function<void(const std::string&)>Log;
struct Run{ Calls*c; bool log; Log logger()const{ if(!log) return Log(); Calls*k=c; return [k](const std::string&s){ if(s.empty()) violation("log","an empty message was logged"); k->hit(); }; } std::function<void(std::string)> logger2()const{ if(!log) return std::function<void(std::string)>(); Calls*k=c; return [k](std::string){ k->hit(); }; } };
struct Setup{ unsigned fault; uint64_t at; unsigned clients; bool log,clock; std::string what; };
// make(run) builds a T. Every client assigns the result to an object that held something before.
template<class T,class M> void trial(const Setup&s,const M&make,const T&old,const std::function<void(const T&)>&validate){
	Calls quiet; const T ref=make(Run{&quiet,false}); if(validate) validate(ref);
	std::vector<T>dest(s.clients,old); std::vector<Calls>calls(s.clients); std::vector<int>state(s.clients,0); // 0 running 1 returned 2 out of memory 3 callback error
	if(s.fault==1) plan_fault(S_ALLOC,s.at,K_NOMEM); else if(s.fault==2) calls[0].at=(long)s.at;
	if(s.clock) fault_prob(S_CLOCK,K_JUMP,1,3,10000000000000ull);
	begin_threads(); mem_reset(); mem_faults_armed= s.fault==1;
	auto client=[&](unsigned c){
		try{ dest[c]=make(Run{&calls[c],s.log||c}); state[c]=1; }
		catch(std::bad_alloc&){ state[c]=2; }
		catch(HarnessError&e){ state[c]= e.code==4711?3:9; }
		catch(std::exception&e){ Frozen z; violation("wrong_error",s.what+": threw \""+e.what()+"\" instead of the error that occurred"); } };
	if(s.clients==1) client(0); else { for(unsigned c=0;c<s.clients;++c){ Frozen z; spawn([&,c]{ client(c); }); } join_all(); }
	mem_faults_armed=false; clear_faults();
	unsigned nomem=0; 
	for(unsigned c=0;c<s.clients;++c){ Frozen z; 
		if(state[c]==1){ SIM_CHECK(same(dest[c],ref),"result",s.what+": the result differs from that of an undisturbed build"); SIM_CHECK(!calls[c].threw,"error_swallowed",s.what+": the error of a callback was swallowed"); if(validate) validate(dest[c]); feature(20); }
		else { if(state[c]==2){ ++nomem; SIM_CHECK(!calls[c].threw,"wrong_error",s.what+": the error of a callback became a lack of memory"); } else SIM_CHECK(state[c]==3&&calls[c].threw,"wrong_error",s.what+": an error that did not occur was thrown"); SIM_CHECK(same(dest[c],old),"target_changed",s.what+": the object to be assigned changed although the build failed"); feature(state[c]==2?21:22); } }
	SIM_CHECK(nomem<=fired(S_ALLOC),"spurious_error",s.what+": ran out of memory without reason");
	for(unsigned c=0;c<s.clients;++c) if(state[c]==1) dest[c]=T();
	uint64_t live=mem_live(); if(s.clients==1) leak_check(live,"after "+s.what+(state[0]==1?" succeeded and its result was destroyed":" failed")); mem_stop();
	end_threads();
	{ Calls q; T again=make(Run{&q,s.log}); SIM_CHECK(same(again,ref),"repeat",s.what+": repeating the operation gives another result"); }
	observe((uint64_t)calls[0].seen); observe((uint64_t)state[0]);
}
bool is_permutation_of_ids(const std::vector<unsigned>&o,unsigned n){ std::vector<bool>seen(n); if(o.size()!=n) return false; for(unsigned x:o){ if(x>=n||seen[x]) return false; seen[x]=true; } return true; }
}
SCENARIO(build_faults){
	Rng r(draw(1ull<<32)); unsigned kind=(unsigned)draw(13); unsigned n= chance(1,12)?0:1+(unsigned)skewed(0,tier?60:36); int shape=(int)draw(8),style=(int)draw(6); bool large=chance(1,150); if(large) sync_budget=2000000; if(large){ n=200+(unsigned)draw(1300); static const int thin[]={1,3,7,1}; shape=thin[draw(kind==1||(kind>=2&&kind<=7)?3:4)]; if(shape==1&&kind>=1&&kind<=7) shape=3; feature(19); } Graph g=random_graph(r,n,shape,style);
	Setup s; s.fault=(unsigned)draw(4); if(s.fault==3) s.fault=1; s.log=chance(2,3)||s.fault==2; s.clock=chance(1,3); s.at= s.fault==2?skewed(0,30):skewed(0,large?20000:chance(1,2)?60:600); s.clients= chance(1,5)?2:1;
	static const char*names[]={"hierarchy construction","construction with given order","customizable hierarchy construction","copy of a customizable hierarchy","metric construction","perfect customization","parallelization object","partial customization","nested dissection","separator decomposition","spatial index construction","extra weight","strongly connected components"};
	s.what=names[kind]; bool filter=chance(1,2),built=chance(1,2); unsigned pop=(unsigned)(chance(1,2)?500:1+draw(8)); Graph og=random_graph(r,4,2,0); std::vector<unsigned>order=good_order(r,g,large?0:(int)draw(4)),oorder=rnd_perm(r,4);
	std::vector<unsigned>wt=rnd_weights(r,g,chance(1,3)?4:style); 
	note(s.what+" for "+S(n)+" nodes and "+S(g.m())+" arcs"+(s.fault==1?", allocation "+S(s.at)+" fails":s.fault==2?", callback throws at call "+S(s.at):"")+(s.clock?", clock jumps":"")+(s.log?", logging":"")+(s.clients>1?", two at once":""));
	feature((int)kind); if(s.clock) feature(16); if(s.clients>1) feature(17); if(n==0) feature(18);
	std::vector<float>lat,lon; for(unsigned i=0;i<n;++i){ lat.push_back((float)r.below(1000)*0.01f); lon.push_back((float)r.below(chance(1,3)?3:1000)*0.01f); }
	Log none; World w; if(kind>=4&&kind<=7){ w.g=g; w.order=order; w.filter=filter; build_world(w); }
	auto build_cch=[&](const Run&x){ return CustomizableContractionHierarchy(order,g.tail,g.head,x.logger(),filter); };
	CustomizableContractionHierarchy oldc; if(built) oldc=CustomizableContractionHierarchy(oorder,og.tail,og.head); ContractionHierarchy oldh; if(built) oldh=ContractionHierarchy::build(4,og.tail,og.head,og.w);
	switch(kind){
		case 0: case 1: trial<ContractionHierarchy>(s,[&](const Run&x){ return kind==0?ContractionHierarchy::build(n,g.tail,g.head,g.w,x.logger2(),pop):(pop&1)?ContractionHierarchy::build_given_order(order,g.tail,g.head,g.w,x.logger2(),pop):ContractionHierarchy::build_given_rank(order,g.tail,g.head,g.w,x.logger2(),pop); },oldh,[&](const ContractionHierarchy&c){ SIM_CHECK(is_permutation_of_ids(c.order,n)&&c.node_count()==n,"result",s.what+": the hierarchy does not contain every node once"); }); break;
		case 2: trial<CustomizableContractionHierarchy>(s,build_cch,oldc,nullptr); break;
		case 3: trial<CustomizableContractionHierarchy>(s,[&](const Run&x){ CustomizableContractionHierarchy a=build_cch(x); if(filter){ CustomizableContractionHierarchy b(a); return b; } CustomizableContractionHierarchy b; b=a; return b; },oldc,
			[&](const CustomizableContractionHierarchy&c){ Frozen z; World u; u.g=g; u.order=order; u.filter=filter; build_world(u); SIM_CHECK(same(c,u.cch),"copy","a copy of a customizable hierarchy differs from the original"); CustomizableContractionHierarchyMetric m(c,wt),m2(u.cch,wt); m.customize(); m2.customize(); SIM_CHECK(same(m,m2),"copy","a copy of a customizable hierarchy cannot be customized"); }); break;
		case 4: { RefMetric ref=reference_metric(w,wt); CustomizableContractionHierarchyMetric old; trial<CustomizableContractionHierarchyMetric>(s,[&](const Run&){ CustomizableContractionHierarchyMetric m(w.cch,wt); m.customize(); return m; },old,[&](const CustomizableContractionHierarchyMetric&m){ compare_metric(m,ref,w,s.what); }); break; }
		case 5: { CustomizableContractionHierarchyMetric m0(w.cch,wt); trial<ContractionHierarchy>(s,[&](const Run&){ CustomizableContractionHierarchyMetric m(w.cch,wt); m.customize(); return m.build_contraction_hierarchy_using_perfect_witness_search(); },oldh,[&](const ContractionHierarchy&c){ SIM_CHECK(is_permutation_of_ids(c.order,n),"result",s.what+": the hierarchy does not contain every node once"); }); break; }
		case 6: trial<CustomizableContractionHierarchyParallelization>(s,[&](const Run&){ return CustomizableContractionHierarchyParallelization(w.cch); },CustomizableContractionHierarchyParallelization(oldc),[&](const CustomizableContractionHierarchyParallelization&p){ SIM_CHECK(is_permutation_of_ids(p.arcs_ordered_by_level,w.cch.cch_arc_count()),"result",s.what+": not every arc is in one level"); }); break;
		case 7: { std::vector<unsigned>w2=wt; for(unsigned i=0;i<3&&g.m();++i) w2[r.below(g.m())]=(unsigned)r.below(20); RefMetric ref=reference_metric(w,w2); CustomizableContractionHierarchyMetric old; CustomizableContractionHierarchyMetric start(w.cch,wt); start.customize();
			trial<CustomizableContractionHierarchyMetric>(s,[&](const Run&){ CustomizableContractionHierarchyMetric m=start; m.reset(w2); CustomizableContractionHierarchyPartialCustomization p(w.cch); for(unsigned a=0;a<w2.size();++a) if(w2[a]!=wt[a]) p.update_arc(a); p.customize(m); return m; },old,[&](const CustomizableContractionHierarchyMetric&m){ compare_metric(m,ref,w,s.what); }); break; }
		case 8: trial<std::vector<unsigned>>(s,[&](const Run&x){ return compute_nested_node_dissection_order_using_inertial_flow(n,g.tail,g.head,lat,lon,x.logger()); },std::vector<unsigned>{1,2,3},[&](const std::vector<unsigned>&o){ SIM_CHECK(is_permutation_of_ids(o,n),"result",s.what+": the order is no permutation of the nodes"); }); break;
		case 9: trial<SeparatorDecomposition>(s,[&](const Run&x){ GraphFragment f=make_graph_fragment(n,g.tail,g.head); Calls*c=x.c; return compute_separator_decomposition(f,[&](const GraphFragment&h){ c->hit(); BitVector b(h.node_count()); for(unsigned i=0;i<h.node_count();++i) b.set(i,h.global_node_id[i]%3==0); if(b.population_count()==0) b.set(h.node_count()/2); return b; },x.logger()); },SeparatorDecomposition(),[&](const SeparatorDecomposition&d){ SIM_CHECK(is_permutation_of_ids(d.order,n),"result",s.what+": the order is no permutation of the nodes"); }); break;
		case 10: { std::vector<float>ol{1,2},om{3,4}; trial<GeoPositionToNode>(s,[&](const Run&){ return GeoPositionToNode(lat,lon); },GeoPositionToNode(ol,om),nullptr); break; }
		case 11: { ContractionHierarchy ch=ContractionHierarchy::build(n,g.tail,g.head,g.w); trial<ContractionHierarchyExtraWeight<unsigned>>(s,[&](const Run&x){ Calls*c=x.c; auto link=[c](unsigned a,unsigned b){ c->hit(); return SaturatedWeightAddition()(a,b); }; return ContractionHierarchyExtraWeight<unsigned>(ch,wt,link); },ContractionHierarchyExtraWeight<unsigned>(),nullptr); break; }
		default: { std::vector<unsigned>p(g.m()),head; for(unsigned i=0;i<p.size();++i) p[i]=i; std::stable_sort(p.begin(),p.end(),[&](unsigned a,unsigned b){ return g.tail[a]<g.tail[b]; }); std::vector<unsigned>fo(n+1,0); for(unsigned a:p){ ++fo[g.tail[a]+1]; head.push_back(g.head[a]); } for(unsigned i=0;i<n;++i) fo[i+1]+=fo[i];
			trial<StronlyConnectedComponentsResult>(s,[&](const Run&){ return compute_strongly_connected_components(fo,head); },StronlyConnectedComponentsResult{{0,1},2},nullptr); }
	}
}
