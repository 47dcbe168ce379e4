// Drives one query object of a contraction hierarchy (Q = ContractionHierarchyQuery or
// CustomizableContractionHierarchyQuery) through drawn operations and compares every answer with the oracle.
#ifndef SCEN_QUERIES_H
#define SCEN_QUERIES_H
#include "graph.h"
#include <routingkit/contraction_hierarchy.h>
#include <routingkit/customizable_contraction_hierarchy.h>
using namespace RoutingKit;
struct QOp{
	int kind=0;   // 0 point-to-point, 1 pinned targets, 2 pinned sources, 3 abandon: prepare without running
	int how=0;    // how the object is made fresh: 0 reset(), 1 reset(index), 2 new object, 3 default construction then reset(index)
	Ends src,tgt; std::vector<unsigned>pins; std::vector<Ends>rounds; unsigned order=0; bool extra=false; int stop_after=-1;
};
inline Ends draw_ends(unsigned n,bool big){ Ends e; unsigned k= chance(1,2)?1:1+(unsigned)draw(big?6:3); for(unsigned i=0;i<k;++i) e.push_back({(unsigned)draw(n),chance(1,2)?0u:(unsigned)draw(chance(1,4)?100000:12)}); return e; }
inline QOp draw_op(unsigned n,bool allow_extra,bool long_pins){
	QOp o; o.kind=(int)draw(3); o.how=(int)draw(4); o.order=(unsigned)draw(8); o.extra=allow_extra&&chance(1,2);
	if(o.kind==0){ o.src=draw_ends(n,true); o.tgt=draw_ends(n,true); }
	else{ unsigned k=(unsigned)draw(std::min(n,12u)+1); if(long_pins&&chance(1,6)) k=n+1+(unsigned)draw(n+3); for(unsigned i=0;i<k;++i) o.pins.push_back((unsigned)draw(n)); unsigned r=1+(unsigned)draw(3); for(unsigned i=0;i<r;++i) o.rounds.push_back(draw_ends(n,true)); }
	return o;
}
struct Affine{ uint64_t a=1,b=0; bool operator==(const Affine&o)const{ return a==o.a&&b==o.b; } }; // non-commutative extra weight
struct AffineLink{ Affine operator()(const Affine&l,const Affine&r)const{ return {l.a*r.a,l.b*r.a+r.b}; } };
struct Extra{ std::vector<unsigned>u; std::vector<Affine>f; ContractionHierarchyExtraWeight<unsigned>cu; ContractionHierarchyExtraWeight<Affine>cf; };

struct Ctx{ const Graph*g; const std::vector<unsigned>*w; Oracle*o; std::string who; Extra*ex=nullptr; };
[[noreturn]] inline void bad(const Ctx&c,const char*cls,const std::string&m){ violation(cls,c.who+": "+m); }
inline uint64_t best(const Ctx&c,const Ends&s,const Ends&t,std::vector<uint64_t>&d){ d=c.o->from(s); uint64_t b=INF; for(auto&x:t) b=std::min(b,sat(d[x.first]+x.second)); return b; }
inline uint64_t offset_of(const Ends&e,unsigned x){ uint64_t b=INF; for(auto&p:e) if(p.first==x) b=std::min<uint64_t>(b,p.second); return b; }
// result of one point-to-point query
inline void check_p2p(const Ctx&c,const Ends&s,const Ends&t,unsigned dist,unsigned us,unsigned ut,const std::vector<unsigned>*np,const std::vector<unsigned>*ap){
	std::vector<uint64_t>d; uint64_t want=best(c,s,t,d); std::string q="from"+show(s)+" to"+show(t);
	checked();
	if(dist!=want) bad(c,"distance","distance "+q+" is "+S(dist)+" but the shortest path has length "+(want==INF?"infinity":S(want)));
	if(want==INF){ if(us!=NONE||ut!=NONE) bad(c,"used_end","there is no path "+q+" but a used source or target is reported"); if(np&&!np->empty()) bad(c,"path","there is no path "+q+" but a node path is reported"); if(ap&&!ap->empty()) bad(c,"path","there is no path "+q+" but an arc path is reported"); return; }
	uint64_t os=offset_of(s,us),ot=offset_of(t,ut);
	if(us>=c.g->n||ut>=c.g->n||os==INF||ot==INF) bad(c,"used_end","used source or target "+q+" is not one of the given nodes");
	if(os+c.o->dist(us,ut)+ot!=want) bad(c,"used_end","the used source "+S(us)+" and target "+S(ut)+" "+q+" do not give distance "+S(want));
	if(np){ if(np->empty()||np->front()!=us||np->back()!=ut) bad(c,"path","node path "+q+" does not lead from the used source to the used target"); uint64_t l=os+ot; for(size_t i=0;i+1<np->size();++i){ uint64_t b=INF; if((*np)[i]>=c.g->n) bad(c,"path","node path contains an unknown node"); for(unsigned a:c.o->out[(*np)[i]]) if(c.g->head[a]==(*np)[i+1]) b=std::min<uint64_t>(b,(*c.w)[a]); if(b==INF) bad(c,"path","node path "+q+" uses an arc that does not exist"); l+=b; } if(l!=want) bad(c,"path","node path "+q+" has length "+S(l)+" instead of "+S(want)); }
	if(ap){ uint64_t l=os+ot; unsigned x=us; for(unsigned a:*ap){ if(a>=c.g->m()||c.g->tail[a]!=x) bad(c,"path","arc path "+q+" is not connected"); x=c.g->head[a]; l+=(*c.w)[a]; } if(x!=ut) bad(c,"path","arc path "+q+" does not end at the used target"); if(l!=want) bad(c,"path","arc path "+q+" has length "+S(l)+" instead of "+S(want)); if(np&&np->size()!=ap->size()+1) bad(c,"path","node path and arc path "+q+" have different lengths"); }
}
// for positive weights: smallest and largest extra weight over all shortest paths, and the composed weight if the path is unique
struct ExtraRange{ std::vector<uint64_t>lo,hi; std::vector<int>count; std::vector<Affine>f; };
inline ExtraRange extra_range(const Ctx&c,const Ends&s,bool reverse,const std::vector<uint64_t>&d){
	ExtraRange r; r.lo.assign(c.g->n,~0ull); r.hi.assign(c.g->n,0); r.count.assign(c.g->n,0); r.f.resize(c.g->n);
	std::vector<unsigned>ord; for(unsigned i=0;i<c.g->n;++i) if(d[i]<INF) ord.push_back(i); std::sort(ord.begin(),ord.end(),[&](unsigned a,unsigned b){ return d[a]<d[b]; });
	for(unsigned x:ord){ if(offset_of(s,x)==d[x]){ r.lo[x]=0; r.hi[x]=0; r.count[x]=1; }
		for(unsigned a:(reverse?c.o->out:c.o->in)[x]){ unsigned y=reverse?c.g->head[a]:c.g->tail[a]; uint64_t w=(*c.w)[a]; if(y==x||d[y]>=INF||d[y]+w!=d[x]) continue; r.lo[x]=std::min(r.lo[x],r.lo[y]+c.ex->u[a]); r.hi[x]=std::max(r.hi[x],r.hi[y]+c.ex->u[a]); if(r.count[x]==0) r.f[x]= reverse? AffineLink()(c.ex->f[a],r.f[y]) : AffineLink()(r.f[y],c.ex->f[a]); r.count[x]=std::min(2,r.count[x]+r.count[y]); } }
	return r;
}
inline bool positive(const Ctx&c){ for(unsigned x:*c.w) if(x==0) return false; return true; }

template<class Q> struct QTraits;
template<> struct QTraits<ContractionHierarchyQuery>{ static const bool ch=true; typedef ContractionHierarchy Index; };
template<> struct QTraits<CustomizableContractionHierarchyQuery>{ static const bool ch=false; typedef CustomizableContractionHierarchyMetric Index; };

template<class Q> void freshen(std::unique_ptr<Q>&q,const typename QTraits<Q>::Index&ix,int how){
	if(!q){ q.reset(how==3?new Q():new Q(ix)); if(how==3) q->reset(ix); return; }
	switch(how){ case 0: q->reset(); break; case 1: q->reset(ix); break; case 2: *q=Q(ix); break; default: *q=Q(); q->reset(ix); }
}
template<class Q> void answer_extra(const Ctx&c,Q&,const QOp&,const Ends&,bool){}
inline void p2p_extra(const Ctx&c,ContractionHierarchyQuery&q,const std::vector<unsigned>&ap,bool reachable){
	unsigned e1=q.get_extra_weight_distance(c.ex->u,SaturatedWeightAddition()),e2=q.get_extra_weight_distance(c.ex->cu,SaturatedWeightAddition()); Affine f1=q.get_extra_weight_distance(c.ex->f,AffineLink()),f2=q.get_extra_weight_distance(c.ex->cf,AffineLink());
	std::vector<int>iv(c.g->m()); for(size_t a=0;a<iv.size();++a) iv[a]=(int)(c.ex->u[a]%1001)-500; int e3=q.get_extra_weight_distance(iv,SaturatedWeightAddition()); // signed
	Frozen z; checked(); uint64_t s=0; int64_t si=0; Affine f; for(unsigned a:ap){ s+=c.ex->u[a]; si+=iv[a]; f=AffineLink()(f,c.ex->f[a]); }
	s=sat(s);
	if(!reachable||ap.empty()){ s=0; f=Affine(); }
	if(e3!=si) bad(c,"extra_weight","signed extra weight "+S(e3)+" differs from the sum "+S(si)+" along the reported path");
	if(e1!=s||e2!=s) bad(c,"extra_weight","extra weight "+S(e1)+" / "+S(e2)+" differs from the sum "+S(s)+" along the reported path");
	if(!(f1==f)||!(f2==f)) bad(c,"extra_weight","extra weights are not linked in the order of the path");
}
inline void p2p_extra(const Ctx&,CustomizableContractionHierarchyQuery&,const std::vector<unsigned>&,bool){}
inline void pinned_extra(const Ctx&c,ContractionHierarchyQuery&q,const QOp&op,const Ends&s,bool to_targets){
	size_t k=op.pins.size(); std::vector<unsigned>tmp(c.g->n,77),e1(k,78),e2,e3,used(k,79),used2; std::vector<Affine>f; std::vector<Affine>ftmp(c.g->n,Affine{5,6}); // results must not depend on what the buffers held
	std::vector<Affine>f2(k,Affine{7,8}); uint64_t a0=0,a1=0;
	if(to_targets){ used2=q.get_used_sources_to_targets(); a0=my_allocations(); q.get_used_sources_to_targets(used.data()); q.get_extra_weight_distances_to_targets(c.ex->u,SaturatedWeightAddition(),tmp,e1); q.get_extra_weight_distances_to_targets(c.ex->cf,AffineLink(),ftmp,f2); a1=my_allocations(); e2=q.get_extra_weight_distances_to_targets(c.ex->cu,SaturatedWeightAddition()); f=q.get_extra_weight_distances_to_targets(c.ex->cf,AffineLink(),ftmp); e3=q.get_extra_weight_distances_to_targets(c.ex->u,SaturatedWeightAddition(),tmp); }
	else{ used2=q.get_used_targets_to_sources(); a0=my_allocations(); q.get_used_targets_to_sources(used.data()); q.get_extra_weight_distances_to_sources(c.ex->u,SaturatedWeightAddition(),tmp,e1); q.get_extra_weight_distances_to_sources(c.ex->cf,AffineLink(),ftmp,f2); a1=my_allocations(); e2=q.get_extra_weight_distances_to_sources(c.ex->cu,SaturatedWeightAddition()); f=q.get_extra_weight_distances_to_sources(c.ex->cf,AffineLink(),ftmp); e3=q.get_extra_weight_distances_to_sources(c.ex->u,SaturatedWeightAddition(),tmp); }
	if(a1!=a0) bad(c,"allocation","asking for pinned results with buffers of the caller allocated memory, though it is documented not to");
	Frozen z; std::vector<uint64_t>d=c.o->from(s,!to_targets); bool pos=positive(c); ExtraRange r; if(pos) r=extra_range(c,s,!to_targets,d);
	if(used!=used2||e1!=e2||e1!=e3||f.size()!=k||!(f==f2)) bad(c,"extra_weight","two ways of asking for pinned results disagree");
	for(size_t i=0;i<k;++i){ unsigned t=op.pins[i]; checked();
		if(d[t]>=INF){ if(used[i]!=NONE) bad(c,"used_end","pinned node "+S(t)+" cannot be reached but a used end is reported"); if(e1[i]!=0) bad(c,"extra_weight","pinned node "+S(t)+" cannot be reached but has an extra weight"); continue; }
		uint64_t o=offset_of(s,used[i]); if(o==INF) bad(c,"used_end","used end of pinned node "+S(t)+" is not one of the given nodes");
		if(o+(to_targets?c.o->dist(used[i],t):c.o->rdist(t,used[i]))!=d[t]) bad(c,"used_end","used end of pinned node "+S(t)+" does not give its distance");
		if(pos){ if(e1[i]<sat(r.lo[t])||e1[i]>sat(r.hi[t])) bad(c,"extra_weight","extra weight "+S(e1[i])+" of pinned node "+S(t)+" is not that of a shortest path ("+S(r.lo[t])+" to "+S(r.hi[t])+")"); if(r.count[t]==1&&!(f[i]==r.f[t])) bad(c,"extra_weight","extra weights of pinned node "+S(t)+" are not linked in the order of the path"); }
	}
}
inline void pinned_extra(const Ctx&,CustomizableContractionHierarchyQuery&,const QOp&,const Ends&,bool){}

// performs the operation on q and checks every answer
template<class Q> void perform(const Ctx&c,std::unique_ptr<Q>&q,const typename QTraits<Q>::Index&ix,const QOp&op){
	freshen(q,ix,op.how);
	if(op.kind==0){
		if(op.order&1){ for(auto&x:op.tgt) q->add_target(x.first,x.second); for(auto&x:op.src) q->add_source(x.first,x.second); } else for(size_t i=0;i<std::max(op.src.size(),op.tgt.size());++i){ if(i<op.src.size()) q->add_source(op.src[i].first,op.src[i].second); if(i<op.tgt.size()) q->add_target(op.tgt[i].first,op.tgt[i].second); }
		q->run();
		unsigned d,us,ut; std::vector<unsigned>np,ap;
		if(op.order&2){ ap=q->get_arc_path(); ut=q->get_used_target(); np=q->get_node_path(); us=q->get_used_source(); d=q->get_distance(); } else { d=q->get_distance(); us=q->get_used_source(); ut=q->get_used_target(); np=q->get_node_path(); ap=q->get_arc_path(); }
		{ Frozen z; check_p2p(c,op.src,op.tgt,d,us,ut,&np,&ap); observe(d); }
		if(op.extra&&c.ex) p2p_extra(c,*q,ap,d<INF);
	}else{
		bool tt=op.kind==1; if(tt) q->pin_targets(op.pins); else q->pin_sources(op.pins);
		for(size_t i=0;i<op.rounds.size();++i){ const Ends&e=op.rounds[i];
			if(i||(op.order&4)){ if(tt) q->reset_source(); else q->reset_target(); }
			for(auto&x:e){ if(tt) q->add_source(x.first,x.second); else q->add_target(x.first,x.second); }
			if(tt) q->run_to_pinned_targets(); else q->run_to_pinned_sources();
			std::vector<unsigned>r,r2(op.pins.size()); if(tt){ r=q->get_distances_to_targets(); q->get_distances_to_targets(r2.data()); } else { r=q->get_distances_to_sources(); q->get_distances_to_sources(r2.data()); }
			{ Frozen z; std::vector<uint64_t>d=c.o->from(e,!tt); if(r!=r2||r.size()!=op.pins.size()) bad(c,"pinned","the two ways to ask for pinned distances disagree");
				for(size_t k=0;k<r.size();++k){ checked(); if(r[k]!=sat(d[op.pins[k]])) bad(c,"pinned_distance",std::string("distance ")+(tt?"from":"to")+show(e)+(tt?" to":" from")+" pinned node "+S(op.pins[k])+" is "+S(r[k])+" but the shortest path has length "+(d[op.pins[k]]>=INF?"infinity":S(d[op.pins[k]]))); observe(r[k]); } }
			if(op.extra&&c.ex) pinned_extra(c,*q,op,e,tt);
		}
	}
}
// prepares without running, so that stale state is left behind
template<class Q> void abandon(std::unique_ptr<Q>&q,const QOp&op){
	if(op.kind==0){ for(auto&x:op.src) q->add_source(x.first,x.second); if(op.order&1) for(auto&x:op.tgt) q->add_target(x.first,x.second); }
	else if(op.kind==1){ q->pin_targets(op.pins); if(op.order&1) for(auto&x:op.rounds[0]) q->add_source(x.first,x.second); }
	else { q->pin_sources(op.pins); if(op.order&1) for(auto&x:op.rounds[0]) q->add_target(x.first,x.second); }
}
inline bool same(const BitVector&a,const BitVector&b){ if(a.size()!=b.size()) return false; for(uint64_t i=0;i<a.size();++i) if(a.is_set(i)!=b.is_set(i)) return false; return true; }
inline bool same(const ContractionHierarchy::Side&a,const ContractionHierarchy::Side&b){ return a.first_out==b.first_out&&a.head==b.head&&a.weight==b.weight&&same(a.is_shortcut_an_original_arc,b.is_shortcut_an_original_arc)&&a.shortcut_first_arc==b.shortcut_first_arc&&a.shortcut_second_arc==b.shortcut_second_arc; }
inline bool same(const ContractionHierarchy&a,const ContractionHierarchy&b){ return a.rank==b.rank&&a.order==b.order&&same(a.forward,b.forward)&&same(a.backward,b.backward); }
inline bool same(const LocalIDMapper&a,const LocalIDMapper&b,const BitVector&bits){ if(a.local_id_count()!=b.local_id_count()||a.global_id_count()!=b.global_id_count()) return false; for(uint64_t i=0;i<bits.size();++i) if(bits.is_set(i)&&a.to_local(i)!=b.to_local(i)) return false; return true; }
inline bool same(const CustomizableContractionHierarchy&a,const CustomizableContractionHierarchy&b){ return a.order==b.order&&a.rank==b.rank&&a.elimination_tree_parent==b.elimination_tree_parent&&a.up_first_out==b.up_first_out&&a.up_head==b.up_head&&a.up_tail==b.up_tail&&a.down_first_out==b.down_first_out&&a.down_head==b.down_head&&a.down_to_up==b.down_to_up&&a.input_arc_to_cch_arc==b.input_arc_to_cch_arc&&same(a.is_input_arc_upward,b.is_input_arc_upward)&&same(a.does_cch_arc_have_input_arc,b.does_cch_arc_have_input_arc)&&same(a.does_cch_arc_have_input_arc_mapper,b.does_cch_arc_have_input_arc_mapper,a.does_cch_arc_have_input_arc)&&a.forward_input_arc_of_cch==b.forward_input_arc_of_cch&&a.backward_input_arc_of_cch==b.backward_input_arc_of_cch&&same(a.does_cch_arc_have_extra_input_arc,b.does_cch_arc_have_extra_input_arc)&&same(a.does_cch_arc_have_extra_input_arc_mapper,b.does_cch_arc_have_extra_input_arc_mapper,a.does_cch_arc_have_extra_input_arc)&&a.first_extra_forward_input_arc_of_cch==b.first_extra_forward_input_arc_of_cch&&a.first_extra_backward_input_arc_of_cch==b.first_extra_backward_input_arc_of_cch&&a.extra_forward_input_arc_of_cch==b.extra_forward_input_arc_of_cch&&a.extra_backward_input_arc_of_cch==b.extra_backward_input_arc_of_cch; }
inline ContractionHierarchy build_ch(const Graph&g,Rng&r,unsigned how,unsigned pops){
	if(how==0) return ContractionHierarchy::build(g.n,g.tail,g.head,g.w,std::function<void(std::string)>(),pops);
	std::vector<unsigned>p=rnd_perm(r,g.n); if(how==1) return ContractionHierarchy::build_given_order(p,g.tail,g.head,g.w,std::function<void(std::string)>(),pops);
	return ContractionHierarchy::build_given_rank(p,g.tail,g.head,g.w,std::function<void(std::string)>(),pops);
}
#endif
