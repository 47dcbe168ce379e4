// random map data and file layouts
#ifndef SCEN_MAPGEN_H
#define SCEN_MAPGEN_H
#include "pbf.h"
inline std::string rnd_string(Rng&r){
	static const char*pool[]={"highway","name","ref","oneway","maxspeed","residential","yes","no","a","aa","b","\xc3\xbc","type","restriction","note","x1","surface"};
	switch(r.below(8)){ case 0: return std::string(1+r.below(300),(char)('a'+r.below(26))); case 1: { std::string s; for(uint64_t i=0,n=1+r.below(12);i<n;++i) s.push_back((char)('a'+r.below(26))); return s; } case 2: return "k"+std::to_string(r.below(50)); default: return pool[r.below(17)]; }
}
inline Tags rnd_tags(Rng&r,unsigned maxn){ Tags t; std::set<std::string>seen; unsigned n= r.chance(1,2)?0:(unsigned)r.below(maxn+1); for(unsigned i=0;i<n;++i){ std::string k=rnd_string(r); if(!seen.insert(k).second) continue; t.push_back({k,r.chance(1,12)?"":rnd_string(r)}); } return t; }
struct GenMap{ MMap map; FileLayout lay; std::vector<MElem>file_order; bool ordered; };
// sizes of real files, one dimension at a time
enum{ L_NONE,L_NODES,L_REFS,L_MEMBERS,L_TAGS,L_STRINGS,L_LONG_STRING,L_WAYS,L_COUNT };
inline void make_large(MMap&m,int large,Rng&r){
	if(large==L_REFS){ if(m.ways.empty()) m.ways.push_back({3,{},{}}); auto&w=m.ways[r.below(m.ways.size())]; for(uint64_t i=0,k=250+r.below(r.chance(1,3)?9000:300);i<k;++i) w.refs.push_back(1+r.below(1ull<<(1+r.below(40)))); }
	else if(large==L_MEMBERS){ if(m.rels.empty()) m.rels.push_back({3,{},{}}); auto&x=m.rels[r.below(m.rels.size())]; for(uint64_t i=0,k=250+r.below(r.chance(1,3)?3000:300);i<k;++i) x.members.push_back({(int)r.below(3),1+r.below(1ull<<(1+r.below(40))),"role"+std::to_string(r.below(400))}); }
	else if(large==L_TAGS){ Tags t; for(uint64_t i=0,k= r.chance(1,4)?65530+r.below(3000):30+r.below(r.chance(1,2)?300:60);i<k;++i) t.push_back({"key"+std::to_string(i*7919),"value"+std::to_string(r.below(1000))}); unsigned w=(unsigned)r.below(3); if(w==0&&!m.nodes.empty()) m.nodes[r.below(m.nodes.size())].tags=t; else if(w==1&&!m.ways.empty()) m.ways[r.below(m.ways.size())].tags=t; else if(!m.rels.empty()) m.rels[r.below(m.rels.size())].tags=t; else if(!m.nodes.empty()) m.nodes[r.below(m.nodes.size())].tags=t; }
	else if(large==L_LONG_STRING){ std::string a(16000+r.below(60000),'x'); for(size_t i=0;i<a.size();i+=97) a[i]=(char)('a'+i%26); if(!m.nodes.empty()) m.nodes[0].tags.push_back({"long",a}); if(!m.ways.empty()) m.ways[0].tags.push_back({a,"long"}); }
}
inline MMap random_map(unsigned nn,unsigned nw,unsigned nr,Rng&r){
	MMap m; uint64_t idbase= r.chance(1,3)? (1ull<<33) : r.chance(1,6)?(1ull<<60):0; std::set<uint64_t>ids;
	uint64_t span= r.chance(1,2)? 4*nn+10 : 1000000000ull;
	for(unsigned i=0;i<nn;++i){ uint64_t id; do id=idbase+1+r.below(span); while(!ids.insert(id).second); m.nodes.push_back({id,(int64_t)(r.below(18000000))*10000-90000000000ll,(int64_t)(r.below(36000000))*10000-180000000000ll,rnd_tags(r,4)}); }
	if(r.chance(1,2)) std::sort(m.nodes.begin(),m.nodes.end(),[](const MNode&a,const MNode&b){return a.id<b.id;});
	for(unsigned i=0;i<nw;++i){ MWay w; w.id=1+i*(1+r.below(5))+r.below(2)*1000000007ull*i; for(auto&x:m.ways) if(x.id>=w.id) w.id=x.id+1; unsigned k=(unsigned)r.below(r.chance(1,8)?60:8); for(unsigned j=0;j<k;++j) w.refs.push_back(nn? m.nodes[r.below(nn)].id : 5+r.below(9)); w.tags=rnd_tags(r,6); m.ways.push_back(w); }
	for(unsigned i=0;i<nr;++i){ MRel x; x.id=1+3*i; unsigned k=(unsigned)r.below(6); for(unsigned j=0;j<k;++j){ static const char*roles[]={"","from","to","via","outer","a_very_long_role_name_that_takes_some_room"}; x.members.push_back({(int)r.below(3),1+r.below(1ull<<(r.below(40)+1)),roles[r.below(6)]}); } x.tags=rnd_tags(r,4); m.rels.push_back(x); }
	return m;
}
// distribute the elements of m over blocks; ordered = nodes, then ways, then relations
inline void random_layout(GenMap&g,bool ordered,unsigned per_block,Rng&r,bool simple,int large=0){
	g.ordered=ordered; g.lay=FileLayout(); g.file_order.clear();
	std::vector<MBlock>bl;
	for(int kind=0;kind<3;++kind){ size_t n= kind==0?g.map.nodes.size():kind==1?g.map.ways.size():g.map.rels.size(); size_t i=0;
		while(i<n){ MBlock b; unsigned ng=simple?1:1+(unsigned)r.below(2); bool first=true;
			for(unsigned q=0;q<ng&&i<n;++q){ MGroup x; x.kind=kind; x.dense=r.chance(1,2); size_t k=std::min<size_t>(n-i,1+r.below(per_block)); for(size_t j=0;j<k;++j) x.idx.push_back(i++); b.groups.push_back(x); first=false; }
			(void)first;
			bl.push_back(b); } }
	if(!simple) for(uint64_t e=r.below(3);e>0;--e){ MBlock b; if(r.chance(1,2)){ MGroup x; x.kind=1; x.dense=false; b.groups.push_back(x); } bl.insert(bl.begin()+(long)r.below(bl.size()+1),b); } // empty blocks
	if(!ordered){ for(size_t i=bl.size();i>1;--i) std::swap(bl[i-1],bl[r.below(i)]);
		if(!simple) for(size_t i=0;i+1<bl.size();++i) if(r.chance(1,5)){ for(auto&x:bl[i+1].groups) bl[i].groups.push_back(x); bl.erase(bl.begin()+(long)i+1); } } // mixed blocks
	static const int64_t gr[]={100,100,1,1000,10000,10};
	for(auto&b:bl){ b.compress=r.chance(2,3); static const int lv[]={6,0,1,9}; b.level=lv[r.below(4)]; if(!simple){ b.no_raw_size=r.chance(1,4); b.granularity=gr[r.below(6)]; if(r.chance(1,3)){ int64_t sc=r.chance(1,2)?10000:1000000000ll/10; b.lat_off=((int64_t)r.below(2000)-1000)*sc; b.lon_off=((int64_t)r.below(2000)-1000)*sc; } b.strings_last=r.chance(1,5); b.junk_fields=r.chance(1,4); if(b.junk_fields){ static const unsigned il[]={0,9,110,120,250,700,5000}; b.index_len=il[r.below(7)]; } b.dense_without_tags_omits_array=r.chance(1,2); b.shuffle=(int)r.below(3); } if(large==L_STRINGS) b.extra_strings=r.chance(1,4)?66000:110+(unsigned)r.below(400); }
	g.lay.blocks=bl; g.lay.header=simple||!r.chance(1,8); if(!simple){ g.lay.header_style=(int)r.below(3); if(r.chance(1,3)) g.lay.header_extra=1+(unsigned)r.below(r.chance(1,4)?3000:60); } for(size_t i=0;i<bl.size();++i) g.lay.unknown_before.push_back(simple?0:(r.chance(1,6)?1+(int)r.below(2):0));
	for(auto&b:bl) for(auto&x:b.groups) for(size_t i:x.idx) g.file_order.push_back({x.kind,i});
}
#endif
