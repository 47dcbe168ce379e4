// P07: many threads query one contraction hierarchy.
#include "queries.h"
#include <routingkit/contraction_hierarchy.h>
SCENARIO(ch_queries){
	Rng r(draw(1ull<<32));
	unsigned big=(unsigned)draw(40); // mostly small graphs: more queries, more interleavings
	unsigned n= big==39? 150+(unsigned)draw(250) : big>30? 20+(unsigned)draw(100) : 1+(unsigned)draw(30);
	int shape=(int)draw(8),style=(int)draw(6); bool large=chance(1,400); if(large) sync_budget=2000000; if(large){ n= chance(1,2)?65530+(unsigned)draw(2000):1000+(unsigned)draw(8000); shape=chance(1,2)?3:7; if(style==1) style=0; feature(7); } if(n>100&&(shape==6||shape==4)) shape=1;
	Graph g=random_graph(r,n,shape,style);
	unsigned how=(unsigned)draw(3); static const unsigned pops[]={500,1,2,5,50}; unsigned pop=pops[draw(5)]; if(n>100&&how) pop=500;
	ContractionHierarchy ch=build_ch(g,r,how,pop),before=ch;
	SIM_CHECK(ch.node_count()==n,"size","hierarchy has the wrong number of nodes");
	Extra ex,exbefore; bool extra=chance(1,2);
	if(extra){ bool far=r.below(6)==0; for(unsigned a=0;a<g.m();++a){ ex.u.push_back((unsigned)r.below(far?1u<<30:1000)); ex.f.push_back({r.below(8)*2+1,r.below(100)}); } ex.cu.reset(ch,ex.u,SaturatedWeightAddition()); ex.cf.reset(ch,ex.f,AffineLink()); exbefore=ex; }
	Oracle o(g,g.w);
	unsigned threads=1+(unsigned)draw(large?2:4),per=1+(unsigned)draw(n>60?3:6);
	std::vector<std::vector<QOp>>ops(threads); for(auto&v:ops) for(unsigned i=0;i<per;++i) { v.push_back(draw_op(n,extra,!large)); if(large&&v.back().kind&&r.chance(1,3)) for(unsigned k=n+(unsigned)r.below(9);k--;) v.back().pins.push_back((unsigned)r.below(n)); }
	note("contraction hierarchy of "+S(n)+" nodes and "+S(g.m())+" arcs (shape "+S(shape)+", weights "+S(style)+", build "+S(how)+", pops "+S(pop)+"), "+S(threads)+" threads with "+S(per)+" queries each");
	if(n>100) feature(0); if(extra) feature(1); if(threads>1) feature(2); for(auto&v:ops) for(auto&q:v){ if(q.kind==0) feature(3); else{ feature(3+q.kind); if(q.pins.size()>n) feature(6); } }
	begin_threads();
	for(unsigned t=0;t<threads;++t) spawn([&,t]{
		Ctx c{&g,&g.w,&o,"client "+S(t),extra?&ex:nullptr}; std::unique_ptr<ContractionHierarchyQuery>q;
		for(auto&op:ops[t]){
			perform(c,q,ch,op);
			if(extra&&op.order==7){ ContractionHierarchyExtraWeight<unsigned>x(ch,ex.u,SaturatedWeightAddition()); Frozen z; if(x.forward_weight!=exbefore.cu.forward_weight||x.backward_weight!=exbefore.cu.backward_weight) violation("extra_weight","an extra weight computed while queries ran differs from one computed before"); }
		}
	});
	join_all(); end_threads();
	SIM_CHECK(same(ch,before),"index_changed","the contraction hierarchy changed while it was queried");
	if(extra) SIM_CHECK(ex.u==exbefore.u&&ex.f==exbefore.f&&ex.cu.forward_weight==exbefore.cu.forward_weight&&ex.cu.backward_weight==exbefore.cu.backward_weight&&ex.cf.forward_weight==exbefore.cf.forward_weight&&ex.cf.backward_weight==exbefore.cf.backward_weight,"index_changed","a shared extra weight changed while it was used");
}
