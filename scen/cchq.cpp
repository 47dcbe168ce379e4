// P06 parallel customization, P08 concurrent queries, P10 partial customization.
#include "cch.h"
namespace{
std::vector<std::pair<unsigned,unsigned>> draw_pairs(unsigned n,unsigned k){ std::vector<std::pair<unsigned,unsigned>>v; for(unsigned i=0;i<k;++i) v.push_back({(unsigned)draw(n),(unsigned)draw(n)}); return v; }
void layered(Graph&g,Rng&r,unsigned leaves,unsigned mids,unsigned hubs,int style){ // ids: leaves, mids, hubs; order = id order
	g.n=leaves+mids+hubs; auto arc=[&](unsigned a,unsigned b){ if(!r.chance(1,5)) g.add(a,b,rnd_weight(r,style,g.n)); if(!r.chance(1,5)) g.add(b,a,rnd_weight(r,style,g.n)); };
	for(unsigned i=0;i<leaves;++i){ unsigned k=1+(unsigned)r.below(3); for(unsigned j=0;j<k;++j) arc(i,leaves+(unsigned)r.below(mids+hubs)); }
	for(unsigned i=0;i<mids;++i) for(unsigned j=0;j<hubs;++j) if(r.chance(1,2)) arc(leaves+i,leaves+mids+j);
	for(unsigned i=0;i<hubs;++i) for(unsigned j=0;j<i;++j) if(r.chance(1,3)) arc(leaves+mids+i,leaves+mids+j);
}
}
SCENARIO(cch_parallel){
	Rng r(draw(1ull<<32)); World w; int mode=(int)draw(4),style=(int)draw(6);
	if(mode<2){ unsigned leaves=mode==0? 180+(unsigned)draw(300) : 3+(unsigned)draw(20); layered(w.g,r,leaves,1+(unsigned)draw(mode==0?6:4),1+(unsigned)draw(4),style); w.order=good_order(r,w.g,3); if(chance(1,4)) w.order=good_order(r,w.g,1); }
	else { unsigned n=1+(unsigned)draw(mode==2?24:70); w.g=random_graph(r,n,(int)draw(8),style); w.order=good_order(r,w.g,(int)draw(4)); }
	bool large=chance(1,300); sync_budget=large?2000000:200000; if(large){ w=World(); unsigned n= chance(1,2)?65530+(unsigned)draw(2000):2000+(unsigned)draw(9000); w.g=random_graph(r,n,chance(1,2)?3:7,style==1?0:style); w.order=good_order(r,w.g,0); if(chance(1,2)){ tall_world(w,r,200+(unsigned)draw(chance(1,5)?3000:500),style==1?0:style); feature(6); } else feature(5); }
	w.filter=chance(1,2); build_world(w); CustomizableContractionHierarchy before=w.cch;
	CustomizableContractionHierarchyParallelization par; if(chance(1,2)) par=CustomizableContractionHierarchyParallelization(w.cch); else par.reset(w.cch);
	unsigned clients=!large&&chance(1,3)?2+(unsigned)draw(2):1; unsigned rounds=1+(unsigned)draw(2); omp_procs=1+(int)draw(6);
	struct Job{ std::vector<unsigned>w; unsigned threads; RefMetric ref; }; std::vector<std::vector<Job>>jobs(clients); std::string tc;
	for(auto&v:jobs) for(unsigned i=0;i<rounds;++i){ Job j; j.w=rnd_weights(r,w.g,(int)draw(6)); unsigned t=(unsigned)draw(8); static const unsigned tn[]={0,2,3,4,2,1,5,8}; j.threads=tn[t]; j.ref=reference_metric(w,j.w); tc+=" "+S(j.threads); v.push_back(j); }
	if(chance(1,3)) fault_prob(S_TEAM,K_FEWER,1,2,8);
	auto pairs=draw_pairs(w.g.n,3);
	auto fal=par.first_arc_of_level,abl=par.arcs_ordered_by_level; unsigned widest=0; for(unsigned i=0;i+1<fal.size();++i) widest=std::max(widest,fal[i+1]-fal[i]);
	note("customizable hierarchy of "+S(w.g.n)+" nodes, "+S(w.cch.cch_arc_count())+" arcs"+(w.filter?" (filtered)":"")+", widest level "+S(widest)+" arcs, "+S(clients)+" clients, threads per customization"+tc+" (0 = all "+S(omp_procs)+")");
	if(widest>512) feature(0); if(widest>256) feature(1); if(clients>1) feature(2); if(w.filter) feature(3);
	begin_threads();
	auto client=[&](unsigned c){
		CustomizableContractionHierarchyMetric m(w.cch,jobs[c][0].w);
		for(unsigned i=0;i<jobs[c].size();++i){ Job&j=jobs[c][i]; std::vector<unsigned>copy; { Frozen z; copy=j.w; }
			if(i){ if(c%2) m.reset(j.w); else m.reset(w.cch,j.w); }
			if(j.threads) par.customize(m,j.threads); else par.customize(m);
			compare_metric(m,j.ref,w,"client "+S(c)+", parallel customization with "+S(j.threads)+" threads");
			{ Frozen z; SIM_CHECK(copy==j.w,"weights_changed","customization changed the input weights"); }
			if((large||w.g.n<100)&&i==0){ spot_check(w,m,j.w,pairs,"client "+S(c)); }
		}
	};
	if(clients==1) client(0); else { for(unsigned c=0;c<clients;++c) spawn([&,c]{ client(c); }); join_all(); }
	end_threads();
	if(fired(S_TEAM)) feature(4);
	SIM_CHECK(same(before,w.cch)&&fal==par.first_arc_of_level&&abl==par.arcs_ordered_by_level,"index_changed","customization changed the hierarchy or the parallelization object");
	for(unsigned c=0;c<clients;++c){ CustomizableContractionHierarchyMetric s(w.cch,jobs[c][0].w); s.customize(); compare_metric(s,jobs[c][0].ref,w,"sequential customization"); }
}
SCENARIO(cch_queries){
	Rng r(draw(1ull<<32)); World w; unsigned n= chance(1,10)?30+(unsigned)draw(60):1+(unsigned)draw(24); int style=(int)draw(6);
	bool large=chance(1,300); sync_budget=large?2000000:200000; if(large){ n= chance(1,2)?65530+(unsigned)draw(2000):1000+(unsigned)draw(9000); if(style==1) style=0; feature(8); }
	w.g=random_graph(r,n,large?(chance(1,2)?3:7):(int)draw(8),style); w.order=good_order(r,w.g,large?0:(int)draw(4)); if(large&&chance(1,3)){ tall_world(w,r,200+(unsigned)draw(1500),style); n=w.g.n; feature(9); } w.filter=chance(1,2); build_world(w); CustomizableContractionHierarchy before=w.cch;
	unsigned nm=1+(unsigned)draw(3); std::vector<std::vector<unsigned>>wt; for(unsigned i=0;i<nm;++i) wt.push_back(i?rnd_weights(r,w.g,large?0:(int)draw(6)):w.g.w); auto wcopy=wt;
	std::vector<CustomizableContractionHierarchyMetric>shared; for(unsigned i=0;i<nm;++i){ shared.emplace_back(w.cch,wt[i]); shared.back().customize(); } auto scopy=shared;
	std::vector<std::unique_ptr<Oracle>>o; for(unsigned i=0;i<nm;++i) o.emplace_back(new Oracle(w.g,wt[i]));
	unsigned threads=1+(unsigned)draw(large?2:4),per=1+(unsigned)draw(large?3:5); omp_procs=1+(int)draw(3);
	struct Step{ unsigned what,metric; QOp op; }; // what: 0-2 query a shared metric, 3 customize an own metric and query it
	std::vector<std::vector<Step>>st(threads); for(auto&v:st) for(unsigned i=0;i<per;++i){ Step s; s.what=(unsigned)draw(5); s.metric=(unsigned)draw(nm); s.op=draw_op(n,false,!large); if(large&&s.op.kind&&r.chance(1,3)) for(unsigned k=n+(unsigned)r.below(9);k--;) s.op.pins.push_back((unsigned)r.below(n)); v.push_back(s); }
	std::unique_ptr<CustomizableContractionHierarchyParallelization>par; if(chance(1,2)) par.reset(new CustomizableContractionHierarchyParallelization(w.cch));
	note("customizable hierarchy of "+S(n)+" nodes and "+S(w.g.m())+" arcs"+(w.filter?" (filtered)":"")+", "+S(nm)+" metrics, "+S(threads)+" threads with "+S(per)+" steps each");
	if(threads>1) feature(0); if(w.filter) feature(1); if(par) feature(2); for(auto&v:st) for(auto&s:v){ feature(3+s.op.kind); if(s.what>=3) feature(6); if(s.op.pins.size()>n) feature(7); }
	begin_threads();
	for(unsigned t=0;t<threads;++t) spawn([&,t]{
		std::unique_ptr<CustomizableContractionHierarchyQuery>q; std::unique_ptr<CustomizableContractionHierarchyMetric>own; std::unique_ptr<CustomizableContractionHierarchyQuery>oq; const void*last=nullptr;
		for(auto&s:st[t]){ Ctx c{&w.g,&wt[s.metric],o[s.metric].get(),"client "+S(t)+" metric "+S(s.metric)};
			if(s.what<3){ QOp op=s.op; if(op.how==0&&last!=&shared[s.metric]) op.how=1; last=&shared[s.metric]; perform(c,q,shared[s.metric],op); }
			else { if(!own) own.reset(new CustomizableContractionHierarchyMetric(w.cch,wt[s.metric])); else own->reset(wt[s.metric]); if(s.what==4&&par) par->customize(*own,2); else own->customize(); perform(c,oq,*own,s.op); }
		}
	});
	join_all(); end_threads();
	SIM_CHECK(same(before,w.cch),"index_changed","the customizable hierarchy changed while it was queried");
	for(unsigned i=0;i<nm;++i) SIM_CHECK(shared[i].forward==scopy[i].forward&&shared[i].backward==scopy[i].backward&&wt[i]==wcopy[i],"index_changed","a metric or its weights changed while it was queried");
}
SCENARIO(cch_partial){
	Rng r(draw(1ull<<32)); unsigned nw=chance(1,4)?2:1; std::vector<std::unique_ptr<World>>ws; bool twin=nw==2&&chance(1,2); bool large=chance(1,200); sync_budget=large?2000000:200000; if(large) feature(8);
	for(unsigned i=0;i<nw;++i){ ws.emplace_back(new World); World&w=*ws.back(); unsigned n= chance(1,6)?20+(unsigned)draw(60):1+(unsigned)draw(16); if(i&&twin){ w.g=ws[0]->g; w.order=ws[0]->order; w.filter=ws[0]->filter; for(auto&x:w.g.tail) x=w.g.n-1-x; for(auto&x:w.g.head) x=w.g.n-1-x; for(auto&x:w.order) x=w.g.n-1-x; } else { if(large) n=300+(unsigned)draw(3000); w.g=random_graph(r,n,large?(chance(1,2)?3:7):(int)draw(8),(int)draw(6)); w.order=good_order(r,w.g,large?0:(int)draw(4)); if(large&&chance(1,3)){ tall_world(w,r,200+(unsigned)draw(1500),(int)draw(6)); feature(9); } w.filter=chance(1,2); } build_world(w); }
	struct M{ unsigned world; std::vector<unsigned>*w; CustomizableContractionHierarchyMetric m; bool clean=false; std::set<unsigned>dirty; };
	std::vector<std::vector<std::vector<unsigned>>>pool(nw); for(unsigned i=0;i<nw;++i) for(int k=0;k<3;++k) pool[i].push_back(rnd_weights(r,ws[i]->g,(int)draw(6)));
	// the previous contents of every weight vector at the time a metric was last customized with it
	unsigned nm=1+(unsigned)draw(3); std::vector<std::unique_ptr<M>>ms; for(unsigned i=0;i<nm;++i){ ms.emplace_back(new M); M&m=*ms.back(); m.world=(unsigned)draw(nw); m.w=&pool[m.world][draw(3)]; if(chance(1,3)){ m.m.reset(ws[m.world]->cch,*m.w); } else m.m=CustomizableContractionHierarchyMetric(ws[m.world]->cch,*m.w); }
	unsigned steps=3+(unsigned)draw(tier?20:12); unsigned threads=1; if(chance(1,4)) threads=2+(unsigned)draw(2);
	std::string log;
	CustomizableContractionHierarchyPartialCustomization shared_pc; int pc_world=-1; // queue is always empty between steps
	std::vector<CustomizableContractionHierarchyParallelization>par; for(auto&w:ws) par.emplace_back(w->cch);
	auto fresh=[&](M&m,const std::string&how){ m.clean=true; m.dirty.clear(); compare_metric(m.m,reference_metric(*ws[m.world],*m.w),*ws[m.world],how); };
	auto partial=[&](M&m,unsigned style,uint64_t seed){ // announces all changed arcs of this metric, plus some unchanged ones, in some order
		Rng q(seed); std::vector<unsigned>a(m.dirty.begin(),m.dirty.end()); unsigned extra=(unsigned)q.below(4); for(unsigned i=0;i<extra&&!m.w->empty();++i) a.push_back((unsigned)q.below(m.w->size())); for(size_t i=a.size();i>1;--i) std::swap(a[i-1],a[q.below(i)]);
		World&w=*ws[m.world];
		if(style==0){ CustomizableContractionHierarchyPartialCustomization pc(w.cch); for(unsigned x:a) pc.update_arc(x); pc.customize(m.m); }
		else if(style==1){ shared_pc.reset(w.cch); pc_world=(int)m.world; for(unsigned x:a) shared_pc.update_arc(x); shared_pc.customize(m.m); }
		else if(style==2){ if(pc_world!=(int)m.world){ shared_pc=CustomizableContractionHierarchyPartialCustomization(w.cch); pc_world=(int)m.world; } for(unsigned x:a) shared_pc.update_arc(x); shared_pc.reset(); for(unsigned x:a) shared_pc.update_arc(x); shared_pc.customize(m.m); }
		else { Reused<CustomizableContractionHierarchyPartialCustomization>u; CustomizableContractionHierarchyPartialCustomization old(w.cch); u.put(old); u.p->reset(w.cch); for(unsigned x:a) u.p->update_arc(x); u.p->customize(m.m); feature(7); }
		fresh(m,"partial customization"+log);
	};
	note(S(nw)+" hierarchies (first: "+S(ws[0]->g.n)+" nodes, "+S(ws[0]->g.m())+" arcs"+(ws[0]->filter?", filtered":"")+"), "+S(nm)+" metrics, "+S(steps)+" steps, "+S(threads)+" threads at the end");
	for(unsigned s=0;s<steps;++s){
		unsigned k=(unsigned)draw(12); M&m=*ms[draw(nm)]; World&w=*ws[m.world];
		if(k<4){ // change weights; every metric using this vector must learn of it
			unsigned cnt=1+(unsigned)draw(4); int st=(int)draw(5); bool revert=chance(1,4);
			for(unsigned i=0;i<cnt&&!m.w->empty();++i){ unsigned a=(unsigned)draw(m.w->size()); unsigned old=(*m.w)[a]; (*m.w)[a]=rnd_weight(r,st,w.g.n); if(revert&&chance(1,2)) (*m.w)[a]=old; for(auto&x:ms) if(x->w==m.w) x->dirty.insert(a); }
			log+=" change"; feature(0);
		}else if(k<7){ if(m.clean){ if(m.dirty.size()>1) feature(1); partial(m,(unsigned)draw(4),draw(1000000)); log+=" partial"; } else { m.m.customize(); fresh(m,"full customization"+log); log+=" full"; } }
		else if(k==7){ m.m.customize(); fresh(m,"full customization"+log); log+=" full"; }
		else if(k==8){ omp_procs=1+(int)draw(4); begin_threads(); par[m.world].customize(m.m,1+(unsigned)draw(4)); end_threads(); fresh(m,"parallel customization"+log); log+=" parallel"; feature(2); }
		else if(k==9){ // other weight vector of the same hierarchy: announce every arc, or customize fully
			std::vector<unsigned>*nv=&pool[m.world][draw(3)]; if(chance(1,2)) m.m.reset(*nv); else m.m.reset(nv->data()); if(m.clean&&nv!=m.w) for(unsigned a=0;a<nv->size();++a) if((*nv)[a]!=(*m.w)[a]) m.dirty.insert(a); m.w=nv; log+=" repoint"; feature(3); }
		else if(k==10&&nw==2){ m.world=1-m.world; m.w=&pool[m.world][draw(3)]; m.m.reset(ws[m.world]->cch,*m.w); m.clean=false; m.dirty.clear(); m.m.customize(); fresh(m,"full customization after switching the hierarchy"+log); log+=" switch"; feature(4); }
		else { // perfect witness search
			ContractionHierarchy ch=m.m.build_contraction_hierarchy_using_perfect_witness_search(); m.clean=false; m.dirty.clear(); Oracle o(w.g,*m.w); Extra ex; bool far=r.below(6)==0; for(unsigned a=0;a<w.g.m();++a){ ex.u.push_back((unsigned)r.below(far?1u<<30:1000)); ex.f.push_back({r.below(8)*2+1,r.below(100)}); } ex.cu.reset(ch,ex.u,SaturatedWeightAddition()); ex.cf.reset(ch,ex.f,AffineLink()); Ctx c{&w.g,m.w,&o,"extracted hierarchy after"+log,&ex}; std::unique_ptr<ContractionHierarchyQuery>q; unsigned cnt=1+(unsigned)draw(5); for(unsigned i=0;i<cnt;++i) perform(c,q,ch,draw_op(w.g.n,true,false)); log+=" witness"; feature(5); }
	}
	// finally bring all metrics up to date at the same time from different threads
	std::vector<std::string>err; bool conc=threads>1&&nm>1;
	if(conc){ feature(6); begin_threads(); for(auto&x:ms){ M*m=x.get(); spawn([&,m]{ World&w=*ws[m->world]; if(m->clean){ CustomizableContractionHierarchyPartialCustomization pc(w.cch); for(unsigned a:m->dirty) pc.update_arc(a); pc.customize(m->m); } else m->m.customize(); }); } join_all(); end_threads(); for(auto&x:ms) fresh(*x,"concurrent customization of different metrics"+log); }
	else for(auto&x:ms){ if(x->clean) partial(*x,0,1); else { x->m.customize(); fresh(*x,"full customization"+log); } }
	for(auto&x:ms) spot_check(*ws[x->world],x->m,*x->w,draw_pairs(ws[x->world]->g.n,2),"metric after"+log);
}
