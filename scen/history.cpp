// P09: query objects with long and interrupted histories.
#include "cch.h"
#include <routingkit/dijkstra.h>
namespace{
// Q: query type, Index: what it is attached to. worlds: graph, weights, oracle, index
template<class Q> struct Attach{ const Graph*g; const std::vector<unsigned>*w; Oracle*o; const typename QTraits<Q>::Index*ix; Extra*ex; };
template<class Q> void tiny(Q&q,unsigned n,unsigned k){ q.add_source(k%n).add_target((k/3)%n); }
// replace(i): the index that attachment i refers to gives way to another one, usually at the same address; the old one is gone
template<class Q> void run_history(std::vector<Attach<Q>>&at,unsigned steps,bool faults,const std::function<void(unsigned)>&replace){
	std::unique_ptr<Q>q; int cur=-1; bool failed=false,unattached=false; std::string log; bool wrapped=false;
	for(unsigned s=0;s<steps;++s){
		if(chance(1,12)){ replace((unsigned)draw(at.size())); unattached=true; log+=" index-replaced"; feature(6); }
		unsigned k=(unsigned)draw(16); int ix= cur<0||chance(1,4)?(int)draw(at.size()):cur; Attach<Q>&a=at[ix]; unsigned n=a.g->n;
		Ctx c{a.g,a.w,a.o,"after"+log,a.ex}; QOp op=draw_op(n,a.ex!=nullptr,true);
		if((ix!=cur||unattached)&&op.how==0) op.how=1;
		bool fault=faults&&chance(1,3); uint64_t fi=draw(12); 
		if(op.how==3&&!fault&&chance(1,2)){ // default construction in the storage of an earlier object
			Reused<Q>u; Q old(*a.ix); tiny(old,n,s); u.put(old); u.p->reset(*a.ix); std::unique_ptr<Q>t(new Q(*u.p)); QOp o2=op; o2.how=0; perform(c,t,*a.ix,o2); q=std::move(t); cur=ix; unattached=false; log+=" reused"; feature(4); continue;
		}
		if(fault){ plan_fault(S_ALLOC,fi,K_NOMEM); mem_faults_armed=true; }
		try{
			if(k<8||cur<0){ perform(c,q,*a.ix,op); log+= failed?" query-after-failure":" query"; if(failed) feature(1); failed=false; }
			else if(k<12){ freshen(q,*a.ix,op.how); abandon(q,op); log+=" abandoned"; feature(0); failed=false; }
			else if(k==12){ // copies are independent
				freshen(q,*a.ix,op.how); if(op.order&1) abandon(q,op); std::unique_ptr<Q>copy(new Q(*q)); QOp o2=op; o2.how=0; perform(c,copy,*a.ix,o2); if(op.order&2) std::swap(q,copy); else if(op.order&4) *q=*copy; log+=" copied"; feature(2); failed=false; }
			else if(k==13&&!wrapped&&!fault&&n<12&&chance(1,8)){ // many reuses, ending near the overflow of 16-bit counters
				wrapped=true; freshen(q,*a.ix,op.how); unsigned style=(unsigned)draw(5); unsigned cnt=65534-(unsigned)draw(4)-(unsigned)draw(40);
				if(style>=3){ q.reset(new Q(*a.ix)); unsigned early=1+(unsigned)draw(8); for(unsigned i=0;i<early;++i){ QOp o2=draw_op(n,a.ex!=nullptr,false); o2.how=0; o2.rounds.resize(std::min<size_t>(o2.rounds.size(),2)); perform(c,q,*a.ix,o2); } }
				if(style==0) for(unsigned i=0;i<cnt;++i){ tiny(*q,n,i); q->reset(); }
				else if(style==1) for(unsigned i=0;i<cnt;++i){ if(i%4096==0){ tiny(*q,n,i); q->run(); } q->reset(); }
				else if(style==3) for(unsigned i=0;i<cnt;++i) q->reset();
				else if(style==4){ q->reset(); if(cnt&1) q->pin_targets({(unsigned)(cnt/2)%n}); else q->pin_sources({(unsigned)(cnt/2)%n}); for(unsigned i=0;i<cnt;++i){ if(cnt&1) q->reset_source(); else q->reset_target(); } }
				else { q->pin_targets({0}); for(unsigned i=0;i<cnt;++i){ q->reset_source(); if(i%1024==0) q->add_source(i%n); } }
				log+=" reused-"+S(cnt)+"-times"; feature(3); failed=false; steps+=6;
				cur=ix; unattached=false; // continue on the same object without reattaching, so that the counters pass the edge
				for(unsigned i=0;i<60;++i){ QOp o2=draw_op(n,a.ex!=nullptr,false); o2.how=0; o2.rounds.resize(std::min<size_t>(o2.rounds.size(),2)); perform(c,q,*a.ix,o2); }
			}
			else { freshen(q,*a.ix,op.how); q->reset(); q->reset(*a.ix); perform(c,q,*a.ix,op); log+=" query"; failed=false; }
			mem_faults_armed=false; cur=ix; unattached=false;
		}catch(std::bad_alloc&){
			mem_faults_armed=false; Frozen z; checked();
			if(!fired_kind(K_NOMEM)) violation("exception","an operation failed for lack of memory although memory was available");
			log+=" memory-failed("+S(op.kind)+","+S(op.how)+")"; failed=true; feature(5); if(!q||ix!=cur||op.how>=2) unattached=true; if(!q) cur=-1; else if(op.how!=0) cur=ix;
		}
		clear_faults();
		if(log.size()>400) log=log.substr(log.size()-300);
	}
}
}
SCENARIO(history_ch){
	Rng r(draw(1ull<<32)); unsigned k=1+(unsigned)draw(3); std::vector<Graph>g(k); std::vector<ContractionHierarchy>ch(k); std::vector<std::unique_ptr<Oracle>>o; std::vector<Extra>ex(k); unsigned n0=1+(unsigned)draw(16);
	auto make=[&](unsigned i,unsigned n){ g[i]=random_graph(r,n,(int)draw(8),(int)draw(6)); ch[i]=build_ch(g[i],r,(unsigned)draw(3),500); ex[i]=Extra(); bool far=r.below(6)==0; for(unsigned a=0;a<g[i].m();++a){ ex[i].u.push_back((unsigned)r.below(far?1u<<30:1000)); ex[i].f.push_back({r.below(8)*2+1,r.below(100)}); } ex[i].cu.reset(ch[i],ex[i].u,SaturatedWeightAddition()); ex[i].cf.reset(ch[i],ex[i].f,AffineLink()); };
	for(unsigned i=0;i<k;++i) make(i,i&&!chance(1,2)?1+(unsigned)draw(16):n0);
	std::vector<Attach<ContractionHierarchyQuery>>at; for(unsigned i=0;i<k;++i){ o.emplace_back(new Oracle(g[i],g[i].w)); at.push_back({&g[i],&g[i].w,o[i].get(),&ch[i],&ex[i]}); }
	bool faults=chance(1,2); unsigned steps=4+(unsigned)draw(tier?30:14); note(S(k)+" contraction hierarchies of about "+S(n0)+" nodes, history of "+S(steps)+" steps"+(faults?", failing allocations":"")); mem_set_fill((int)draw(256));
	run_history<ContractionHierarchyQuery>(at,steps,faults,[&](unsigned i){ make(i,chance(1,2)?g[i].n:1+(unsigned)draw(16)); o[i].reset(new Oracle(g[i],g[i].w)); at[i].o=o[i].get(); });
}
SCENARIO(history_cch){
	Rng r(draw(1ull<<32)); unsigned k=1+(unsigned)draw(3); std::vector<std::unique_ptr<World>>w; std::vector<std::unique_ptr<Oracle>>o; std::vector<std::unique_ptr<CustomizableContractionHierarchyMetric>>m; std::vector<std::unique_ptr<std::vector<unsigned>>>wt; unsigned n0=1+(unsigned)draw(16); std::vector<Attach<CustomizableContractionHierarchyQuery>>at;
	auto make=[&](World&x,unsigned n){ x.g=random_graph(r,n,(int)draw(8),(int)draw(6)); x.order=good_order(r,x.g,(int)draw(4)); x.filter=chance(1,2); build_world(x); }; std::vector<unsigned>of;
	for(unsigned i=0;i<k;++i){ w.emplace_back(new World); World&x=*w.back(); make(x,i&&!chance(1,2)?1+(unsigned)draw(16):n0);
		unsigned nm=1+(unsigned)draw(2); for(unsigned j=0;j<nm;++j){ wt.emplace_back(new std::vector<unsigned>(j?rnd_weights(r,x.g,(int)draw(6)):x.g.w)); m.emplace_back(new CustomizableContractionHierarchyMetric(x.cch,*wt.back())); m.back()->customize(); o.emplace_back(new Oracle(x.g,*wt.back())); at.push_back({&x.g,wt.back().get(),o.back().get(),m.back().get(),nullptr}); of.push_back(i); } }
	bool faults=chance(1,2); unsigned steps=4+(unsigned)draw(tier?30:14); note(S(k)+" customizable hierarchies of about "+S(n0)+" nodes, "+S(at.size())+" metrics, history of "+S(steps)+" steps"+(faults?", failing allocations":"")); mem_set_fill((int)draw(256));
	run_history<CustomizableContractionHierarchyQuery>(at,steps,faults,[&](unsigned i){ // the whole hierarchy with its metrics, or one metric only
		bool all=chance(2,3); World&x=*w[of[i]]; if(all) make(x,chance(1,2)?x.g.n:1+(unsigned)draw(16));
		for(unsigned j=0;j<at.size();++j) if(all?of[j]==of[i]:j==i){ *wt[j]=chance(1,2)?x.g.w:rnd_weights(r,x.g,(int)draw(6)); if(chance(1,2)){ m[j]->~CustomizableContractionHierarchyMetric(); new(m[j].get()) CustomizableContractionHierarchyMetric(x.cch,*wt[j]); } else m[j]->reset(x.cch,*wt[j]); m[j]->customize(); o[j].reset(new Oracle(x.g,*wt[j])); at[j].o=o[j].get(); } });
}
SCENARIO(history_dijkstra){
	Rng r(draw(1ull<<32)); struct DG{ Graph g; std::vector<unsigned>first_out; }; unsigned n0=1+(unsigned)draw(16);
	auto make=[&](){ std::unique_ptr<DG>d(new DG); unsigned n=chance(1,2)?n0:1+(unsigned)draw(20); int shape=(int)draw(8),style=(int)draw(6); Graph x=random_graph(r,n,shape,style==5?6:style); std::vector<unsigned>p(x.m()); for(unsigned i=0;i<p.size();++i) p[i]=i; std::stable_sort(p.begin(),p.end(),[&](unsigned a,unsigned b){ return x.tail[a]<x.tail[b]; }); d->g.n=n; for(unsigned a:p) d->g.add(x.tail[a],x.head[a],x.w[a]); d->first_out.assign(n+1,0); for(unsigned a:d->g.tail) d->first_out[a+1]++; for(unsigned i=0;i<n;++i) d->first_out[i+1]+=d->first_out[i]; return d; };
	std::unique_ptr<DG>cur=make(); std::unique_ptr<Dijkstra>d; bool faults=chance(1,2); unsigned steps=3+(unsigned)draw(tier?25:12); mem_set_fill((int)draw(256)); std::string log; bool bound=false; bool wrapped=false;
	note("Dijkstra object, graphs of about "+S(n0)+" nodes, history of "+S(steps)+" steps"+(faults?", failing allocations":""));
	for(unsigned s=0;s<steps;++s){
		bool change=chance(1,3); unsigned how=(unsigned)draw(4); bool fault=faults&&chance(1,3); uint64_t fi=draw(6); bool keep_old=chance(1,2);
		Ends src; unsigned k=1+(unsigned)draw(3); for(unsigned i=0;i<k;++i) src.push_back({0,(unsigned)draw(12)});
		std::unique_ptr<DG>next,old; if(change||!cur){ next=make(); old=std::move(cur); cur=std::move(next); bound=false; if(!keep_old) old.reset(); }
		std::set<unsigned>used; Ends e; for(auto&x:src){ unsigned v=(unsigned)draw(cur->g.n); if(used.insert(v).second) e.push_back({v,x.second}); } src=e;
		uint64_t stop= chance(1,3)?draw(cur->g.n+1):~0ull;
		if(fault){ plan_fault(S_ALLOC,fi,K_NOMEM); mem_faults_armed=true; }
		try{
			if(!d||how==2){ if(d&&chance(1,2)) *d=Dijkstra(cur->first_out,cur->g.tail,cur->g.head); else d.reset(new Dijkstra(cur->first_out,cur->g.tail,cur->g.head)); }
			else if(how==3){ bool reuse=chance(1,2); if(reuse){ *d=Dijkstra(); d->reset(cur->first_out,cur->g.tail,cur->g.head); } else { std::unique_ptr<Dijkstra>t(new Dijkstra); t->reset(cur->first_out,cur->g.tail,cur->g.head); d=std::move(t); } }
			else if(how==1||!bound) d->reset(cur->first_out,cur->g.tail,cur->g.head);
			else d->reset();
			bound=true; mem_faults_armed=false;
		}catch(std::bad_alloc&){ mem_faults_armed=false; Frozen z; checked(); if(!fired_kind(K_NOMEM)) violation("exception","resetting failed for lack of memory although memory was available"); bound=false; log+=" memory-failed"; feature(0); clear_faults(); if(keep_old&&old&&chance(1,2)){ cur=std::move(old); } continue; }
		clear_faults();
		if(!wrapped&&cur->g.n<12&&chance(1,80)){ wrapped=true; unsigned cnt=65533-(unsigned)draw(6); for(unsigned i=0;i<cnt;++i){ if(i%97==0) d->add_source(i%cur->g.n); d->reset(); } log+=" reused-"+S(cnt)+"-times"; feature(1); steps+=8; }
		for(auto&x:src) d->add_source(x.first,x.second);
		Oracle o(cur->g,cur->g.w); std::vector<uint64_t>want=o.from(src); uint64_t settled=0; unsigned last=0; ScalarGetWeight w(cur->g.w); std::vector<char>popped(cur->g.n,0);
		while(!d->is_finished()&&settled<stop){ auto x=d->settle(w); ++settled; checked(); if(x.node>=cur->g.n||popped[x.node]) violation("settle","a node was settled twice or does not exist,"+log); popped[x.node]=1; if(x.distance<last||x.distance!=want[x.node]) violation("distance","node "+S(x.node)+" settled at distance "+S(x.distance)+" instead of "+S(want[x.node])+", history"+log); last=x.distance; observe(x.node); }
		for(unsigned v=0;v<cur->g.n;++v){ checked(); bool reached=popped[v]; if(d->was_node_reached(v)!=reached) violation("reached","node "+S(v)+(reached?" is not":" is")+" reported as reached, history"+log); unsigned dist=d->get_distance_to(v); if(dist!=(reached?want[v]:INF)) violation("distance","distance of node "+S(v)+" is "+S(dist)+" instead of "+S(reached?want[v]:INF)+", history"+log);
			auto np=d->get_node_path_to(v),ap=d->get_arc_path_to(v); if(!reached){ if(!np.empty()||!ap.empty()) violation("path","a path to a node that was not reached, history"+log); continue; }
			if(np.size()!=ap.size()+1||np.back()!=v) violation("path","path to node "+S(v)+" is malformed, history"+log); uint64_t l=offset_of(src,np[0]); if(l==INF) violation("path","path does not begin at a source, history"+log); for(size_t i=0;i<ap.size();++i){ if(ap[i]>=cur->g.m()||cur->g.tail[ap[i]]!=np[i]||cur->g.head[ap[i]]!=np[i+1]) violation("path","path to node "+S(v)+" is not connected, history"+log); l+=cur->g.w[ap[i]]; } if(l!=want[v]) violation("path","path to node "+S(v)+" has the wrong length, history"+log); }
		if(stop==~0ull) for(unsigned v=0;v<cur->g.n;++v) if((want[v]<INF)!=(bool)popped[v]) violation("reached","node "+S(v)+" was not settled, history"+log);
		log+= stop==~0ull?" search":" abandoned"; if(stop!=~0ull) feature(2); if(change) feature(3);
	}
}
