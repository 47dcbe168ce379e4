// Random graphs and the shortest-path oracle used by the routing scenarios. Nothing here uses RoutingKit.
#ifndef SCEN_GRAPH_H
#define SCEN_GRAPH_H
#include "common.h"
#include <map>
#include <queue>
#include <set>
#include <memory>
static const unsigned INF=2147483647u, NONE=4294967295u;
struct Graph{ unsigned n=0; std::vector<unsigned>tail,head,w; size_t m()const{ return tail.size(); } void add(unsigned a,unsigned b,unsigned c){ tail.push_back(a); head.push_back(b); w.push_back(c); } };
// weight styles: 0 small with ties, 1 large and almost unique, 2 with zeros, 3 all equal, 4 with closed arcs, 5 very long arcs (paths beyond the infinite weight), 6 arcs as long as they can be without that
inline unsigned rnd_weight(Rng&r,int style,unsigned n){
	switch(style){ case 0: return 1+(unsigned)r.below(9); case 1: return 1+(unsigned)r.below(std::min<uint64_t>(2000000000ull/(n+2),4000000)); case 2: return (unsigned)r.below(4); case 3: return 7; case 6: { unsigned top=(INF-100)/n; return r.chance(1,2)?top:1+(unsigned)r.below(top); } case 5: switch(r.below(8)){ case 0: return INF; case 1: return INF-1-(unsigned)r.below(3); case 2: return (unsigned)r.below(INF); case 3: return 1500000000u; case 4: return (INF>>1)+(unsigned)r.below(3); case 5: return (unsigned)r.below(30); default: return (unsigned)r.below(400000000); } default: return r.chance(1,5)?INF:(unsigned)r.below(30); } }
inline std::vector<unsigned> rnd_perm(Rng&r,unsigned n){ std::vector<unsigned>p(n); for(unsigned i=0;i<n;++i) p[i]=i; for(unsigned i=n;i>1;--i) std::swap(p[i-1],p[r.below(i)]); return p; }
inline Graph random_graph(Rng&r,unsigned n,int shape,int style){
	Graph g; g.n=n; if(!n) return g;
	auto both=[&](unsigned a,unsigned b){ g.add(a,b,rnd_weight(r,style,n)); if(!r.chance(1,4)) g.add(b,a,rnd_weight(r,style,n)); };
	switch(shape){
		case 0: { size_t m=r.below(4*n+1); for(size_t i=0;i<m;++i) g.add((unsigned)r.below(n),(unsigned)r.below(n),rnd_weight(r,style,n)); break; } // arbitrary, with loops and parallel arcs
		case 1: { unsigned k=1; while(k*k<n) ++k; for(unsigned i=0;i<n;++i){ if(i%k+1<k&&i+1<n) both(i,i+1); if(i+k<n) both(i,i+k); } break; } // grid
		case 2: for(unsigned i=1;i<n;++i) both((unsigned)r.below(i),i); for(unsigned i=0;i<n/4;++i) both((unsigned)r.below(n),(unsigned)r.below(n)); break; // tree with shortcuts
		case 3: for(unsigned i=0;i+1<n;++i) both(i,i+1); if(n>2) both(n-1,0); break; // ring
		case 4: { unsigned h=std::min(n,2+(unsigned)r.below(4)); for(unsigned i=0;i<h;++i) for(unsigned j=0;j<i;++j) if(r.chance(2,3)) both(i,j); for(unsigned i=h;i<n;++i) for(unsigned j=0;j<h;++j) if(r.chance(2,3)) both(i,j); break; } // hubs and leaves
		case 5: { unsigned h=n/2; for(unsigned i=0;i<n;++i){ unsigned lo=i<h?0:h,hi=i<h?h:n; if(hi-lo>1) for(int k=0;k<2;++k) both(i,lo+(unsigned)r.below(hi-lo)); } break; } // two components
		case 6: for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) if(i!=j&&(n<=8||r.chance(8,n))) g.add(i,j,rnd_weight(r,style,n)); break; // dense
		default: for(unsigned i=0;i+1<n;++i) g.add(i,i+1,rnd_weight(r,style,n)); // one-way path
	}
	if(r.chance(1,3)) for(unsigned i=0;i<3;++i){ unsigned x=(unsigned)r.below(n); g.add(x,x,rnd_weight(r,style,n)); } // loops
	if(r.chance(1,3)&&g.m()) for(unsigned i=0;i<4;++i){ size_t a=r.below(g.m()); g.add(g.tail[a],g.head[a],rnd_weight(r,style,n)); } // parallel arcs
	if(r.chance(1,2)){ std::vector<unsigned>p=rnd_perm(r,n); for(auto&x:g.tail) x=p[x]; for(auto&x:g.head) x=p[x]; }
	if(r.chance(1,2)){ std::vector<unsigned>p=rnd_perm(r,(unsigned)g.m()); Graph q; q.n=n; for(unsigned a:p) q.add(g.tail[a],g.head[a],g.w[a]); g=q; }
	return g;
}
typedef std::vector<std::pair<unsigned,unsigned>> Ends; // node, offset
// distances from a set of ends, saturated at INF; 64-bit inside
struct Oracle{
	const Graph*g; const std::vector<unsigned>*w; std::vector<std::vector<unsigned>>out,in; std::map<unsigned,std::vector<uint64_t>>memo,rmemo;
	Oracle(const Graph&gr,const std::vector<unsigned>&wt):g(&gr),w(&wt),out(gr.n),in(gr.n){ for(unsigned a=0;a<gr.m();++a){ out[gr.tail[a]].push_back(a); in[gr.head[a]].push_back(a); } }
	std::vector<uint64_t> from(const Ends&s,bool reverse=false)const{
		std::vector<uint64_t>d(g->n,INF); typedef std::pair<uint64_t,unsigned>E; std::priority_queue<E,std::vector<E>,std::greater<E>>q; for(auto&x:s) if(x.second<d[x.first]){ d[x.first]=x.second; q.push({x.second,x.first}); }
		while(!q.empty()){ E e=q.top(); q.pop(); if(e.first!=d[e.second]) continue; for(unsigned a:(reverse?in:out)[e.second]){ unsigned wa=(*w)[a]; if(wa>=INF) continue; uint64_t nd=e.first+wa; unsigned h=reverse?g->tail[a]:g->head[a]; if(nd<d[h]){ d[h]=nd; q.push({nd,h}); } } }
		return d;
	}
	uint64_t rdist(unsigned a,unsigned b){ auto i=rmemo.find(b); if(i==rmemo.end()) i=rmemo.emplace(b,from({{b,0}},true)).first; return i->second[a]; } // the same, remembered per target
	uint64_t dist(unsigned a,unsigned b){ auto i=memo.find(a); if(i==memo.end()) i=memo.emplace(a,from({{a,0}})).first; return i->second[b]; }
};
inline uint64_t sat(uint64_t x){ return x>=INF?INF:x; }
inline std::string show(const Ends&e){ std::string s; for(auto&x:e) s+=" "+S(x.first)+(x.second?"+"+S(x.second):""); return s; }
#endif
