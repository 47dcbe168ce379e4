// Shared by the scenarios around customizable contraction hierarchies.
#ifndef SCEN_CCH_H
#define SCEN_CCH_H
#include "queries.h"
struct World{ Graph g; std::vector<unsigned>order; bool filter=false; CustomizableContractionHierarchy cch; };
inline std::vector<unsigned> good_order(Rng&r,const Graph&g,int how){ // 0 random, 1 by degree (leaves first), 2 reversed ids, 3 ids
	std::vector<unsigned>p=rnd_perm(r,g.n); if(how==1){ std::vector<unsigned>d(g.n,0); for(unsigned a=0;a<g.m();++a){ d[g.tail[a]]++; d[g.head[a]]++; } std::stable_sort(p.begin(),p.end(),[&](unsigned a,unsigned b){ return d[a]<d[b]; }); } else if(how==2) for(unsigned i=0;i<g.n;++i) p[i]=g.n-1-i; else if(how==3) for(unsigned i=0;i<g.n;++i) p[i]=i;
	return p;
}
// a ladder contracted from one end to the other: about as many levels as nodes
inline void tall_world(World&w,Rng&r,unsigned n,int style){
	w.g=Graph(); w.g.n=n; std::vector<unsigned>p(n); for(unsigned i=0;i<n;++i) p[i]=i; if(r.chance(1,2)) p=rnd_perm(r,n);
	unsigned reach=1+(unsigned)r.below(3); for(unsigned i=0;i<n;++i) for(unsigned k=1;k<=reach&&i+k<n;++k) if(k==1||r.chance(1,2)){ if(!r.chance(1,6)) w.g.add(p[i],p[i+k],rnd_weight(r,style,n)); if(!r.chance(1,6)) w.g.add(p[i+k],p[i],rnd_weight(r,style,n)); }
	w.order=p; if(r.chance(1,3)) std::reverse(w.order.begin(),w.order.end());
}
inline void build_world(World&w){ w.cch=CustomizableContractionHierarchy(w.order,w.g.tail,w.g.head,[](const std::string&){},w.filter); }
inline std::vector<unsigned> rnd_weights(Rng&r,const Graph&g,int style){ std::vector<unsigned>w; for(unsigned a=0;a<g.m();++a) w.push_back(rnd_weight(r,style,g.n)); return w; }
// The metric by definition: the weight of x->y is the length of the shortest x-y path whose inner nodes all have lower
// rank than x and y. Computed by contracting the nodes one after another on an adjacency matrix or map of maps.
struct RefMetric{ std::vector<unsigned>forward,backward; };
inline RefMetric reference_metric(const World&w,const std::vector<unsigned>&wt){
	const Graph&g=w.g; unsigned n=g.n; std::vector<unsigned>rank(n); for(unsigned i=0;i<n;++i) rank[w.order[i]]=i;
	std::vector<std::map<unsigned,uint64_t>>up(n),down(n); // up[x][y]: x->y, down[x][y]: y->x, x<y
	for(unsigned a=0;a<g.m();++a){ unsigned x=rank[g.tail[a]],y=rank[g.head[a]]; if(x==y||wt[a]>=INF) continue; auto&m= x<y?up[x]:down[y]; unsigned k=std::max(x,y); auto i=m.emplace(k,wt[a]); if(!i.second) i.first->second=std::min<uint64_t>(i.first->second,wt[a]); }
	for(unsigned x=0;x<n;++x) for(auto&p:down[x]) for(auto&q:up[x]) if(p.first!=q.first){ uint64_t l=p.second+q.second; if(l>=INF) continue; unsigned a=p.first,b=q.first; auto&m= a<b?up[a]:down[b]; auto i=m.emplace(std::max(a,b),l); if(!i.second) i.first->second=std::min(i.first->second,l); }
	RefMetric r; const auto&c=w.cch; r.forward.assign(c.up_head.size(),INF); r.backward.assign(c.up_head.size(),INF); size_t nf=0,nb=0;
	for(unsigned a=0;a<c.up_head.size();++a){ auto i=up[c.up_tail[a]].find(c.up_head[a]); if(i!=up[c.up_tail[a]].end()){ r.forward[a]=(unsigned)i->second; ++nf; } i=down[c.up_tail[a]].find(c.up_head[a]); if(i!=down[c.up_tail[a]].end()){ r.backward[a]=(unsigned)i->second; ++nb; } }
	for(unsigned x=0;x<n;++x){ nf-=up[x].size(); nb-=down[x].size(); }
	if(nf||nb) violation("topology","the hierarchy lacks an arc that a shortest path between two nodes needs");
	return r;
}
inline void compare_metric(const CustomizableContractionHierarchyMetric&m,const RefMetric&r,const World&w,const std::string&what){
	Frozen z; checked(m.forward.size()); if(m.forward.size()!=r.forward.size()||m.backward.size()!=r.backward.size()) violation("metric",what+": the metric has the wrong size");
	for(unsigned a=0;a<r.forward.size();++a){ bool f=m.forward[a]!=r.forward[a],b=m.backward[a]!=r.backward[a]; if(f||b) violation("metric",what+": the "+(f?"up":"down")+"ward weight between nodes "+S(w.order[w.cch.up_tail[a]])+" and "+S(w.order[w.cch.up_head[a]])+" is "+S(f?m.forward[a]:m.backward[a])+" instead of "+S(f?r.forward[a]:r.backward[a])); observe(m.forward[a]); observe(m.backward[a]); }
}
// a few point-to-point checks of a customized metric
inline void spot_check(const World&w,const CustomizableContractionHierarchyMetric&m,const std::vector<unsigned>&wt,const std::vector<std::pair<unsigned,unsigned>>&pairs,const std::string&who){
	Oracle*o; { Frozen z; o=new Oracle(w.g,wt); } Ctx c{&w.g,&wt,o,who}; CustomizableContractionHierarchyQuery q(m);
	for(auto&p:pairs){ q.reset().add_source(p.first).add_target(p.second).run(); unsigned d=q.get_distance(),us=q.get_used_source(),ut=q.get_used_target(); auto np=q.get_node_path(),ap=q.get_arc_path(); Frozen z; check_p2p(c,{{p.first,0}},{{p.second,0}},d,us,ut,&np,&ap); }
	{ Frozen z; delete o; }
}
// default construction in storage that held another object, as a local variable or container slot does
template<class T> struct Reused{ alignas(T) unsigned char b[sizeof(T)]; T*p=nullptr;
	__attribute__((noinline)) void put(const T&old){ std::memcpy(b,(const void*)&old,sizeof(T)); asm volatile("":::"memory"); p=new(b) T; }
	~Reused(){ if(p) p->~T(); } };
#endif
