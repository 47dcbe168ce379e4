// Model of an OSM file and an encoder for the PBF format, written from src/osmpbfformat.proto.
#ifndef SCEN_PBF_H
#define SCEN_PBF_H
#include "common.h"
#include <zlib.h>
#include <map>
#include <set>
typedef std::vector<std::pair<std::string,std::string>> Tags;
struct MNode{ uint64_t id; int64_t lat,lon; Tags tags; };      // coordinates in nano degrees
struct MMember{ int type; uint64_t id; std::string role; };
struct MWay{ uint64_t id; std::vector<uint64_t>refs; Tags tags; };
struct MRel{ uint64_t id; std::vector<MMember>members; Tags tags; };
struct MElem{ int kind; size_t idx; }; // 0 node 1 way 2 relation
struct MMap{ std::vector<MNode>nodes; std::vector<MWay>ways; std::vector<MRel>rels; };

// layout of one data block
struct MGroup{ int kind; bool dense; std::vector<size_t>idx; };
struct MBlock{ std::vector<MGroup>groups; bool compress=true; int level=6; int64_t granularity=100,lat_off=0,lon_off=0; bool strings_last=false; bool junk_fields=false; bool dense_without_tags_omits_array=true; int shuffle=0; unsigned extra_strings=0; bool no_raw_size=false; unsigned index_len=9; };
// deliberate damage to the contents of one block (structured, P04)
struct Corrupt{ int kind=0; size_t group=0,elem=0; uint64_t oob=0; };
enum{ C_NONE,C_KEY_INDEX,C_VALUE_INDEX,C_ROLE_INDEX,C_DENSE_LAT_SHORT,C_DENSE_LON_LONG,C_MISSING_VALUE,C_RAW_SIZE_WRONG,C_NO_DATA,C_BOTH_DATA,C_BAD_MEMBER_TYPE,C_GRANULARITY_ZERO,C_STRING_OVERRUN,C_NO_RAW_SIZE,C_SIZE_LIE,C_BAD_WIRE,C_KV_LONG,C_NO_ID,C_DENSE_LAT_LONG,C_DENSE_ID_MISSING,C_TRUNC32,C_TRUNC64,C_ROLE_LONG,C_TYPE_LONG,C_ROLE_SHORT,C_TYPE_SHORT,C_VALUE_LONG,C_KV_SHORT,C_NO_COORDINATE,C_DENSE_LAT_MISSING,C_DENSE_LON_MISSING,C_NO_DATASIZE,C_NO_TYPE,C_COUNT };
struct FileLayout{ bool header=true; int extra_header=-1; int header_style=0; unsigned header_extra=0; std::vector<int>unknown_before; std::vector<MBlock>blocks; };

inline void pvar(std::string&s,uint64_t v){ while(v>=128){ s.push_back((char)(v|128)); v>>=7; } s.push_back((char)v); }
inline uint64_t zz(int64_t v){ return ((uint64_t)v<<1)^(uint64_t)(v>>63); }
inline void fvar(std::string&s,unsigned f,uint64_t v){ pvar(s,(uint64_t)f<<3); pvar(s,v); }
inline void fstr(std::string&s,unsigned f,const std::string&v){ pvar(s,((uint64_t)f<<3)|2); pvar(s,v.size()); s+=v; }
inline void f32(std::string&s,unsigned f){ pvar(s,((uint64_t)f<<3)|5); s+="\1\2\3\4"; }
inline void f64(std::string&s,unsigned f){ pvar(s,((uint64_t)f<<3)|1); s+="\1\2\3\4\5\6\7\7"; }
inline std::string deflated(const std::string&in,int level){ uLongf n=compressBound(in.size()); std::string o(n,'\0'); compress2((Bytef*)&o[0],&n,(const Bytef*)in.data(),in.size(),level); o.resize(n); return o; }

struct Strings{ std::vector<std::string>v{""}; std::map<std::string,uint64_t>m; int shuffle=0; uint64_t get(const std::string&s){ auto i=m.find(s); if(i!=m.end()) return i->second; if(shuffle){ Rng r(v.size()*77+shuffle); if(r.chance(1,3)) v.push_back("unused"+std::to_string(v.size())); } uint64_t k=v.size(); v.push_back(s); m[s]=k; return k; } };

inline std::string encode_block(const MMap&map,const MBlock&b,const Corrupt&c,size_t*raw_size=nullptr){
	Strings st; st.shuffle=b.shuffle; for(unsigned i=0;i<b.extra_strings;++i) st.v.push_back("s"+std::to_string(i)); std::vector<std::string>groups; std::string bad;
	const uint64_t BAD=~0ull; // replaced below by the size of the string table
	std::vector<std::pair<size_t,size_t>>dummy;
	// two passes when an out-of-range index is wanted: the first fixes the table size
	for(int pass=0;pass<2;++pass){
		groups.clear(); uint64_t oob=st.v.size()+c.oob;
		for(size_t gi=0;gi<b.groups.size();++gi){ const MGroup&g=b.groups[gi]; bool here=c.kind&&gi==c.group; std::string gs;
			auto tagref=[&](const Tags&t,bool hit,std::string&ks,std::string&vs){ size_t i=0; for(auto&p:t){ uint64_t k=st.get(p.first),v=st.get(p.second); if(hit&&i==0){ if(c.kind==C_KEY_INDEX) k=oob; if(c.kind==C_VALUE_INDEX) v=oob; } pvar(ks,k); if(!(hit&&i==0&&c.kind==C_MISSING_VALUE)) pvar(vs,v); ++i; } if(hit&&c.kind==C_VALUE_LONG) pvar(vs,0); };
			if(g.kind==0&&g.dense){
				std::string ids,lats,lons,kv,msg; int64_t pi=0,pla=0,plo=0; bool any=false; for(size_t i:g.idx) if(!map.nodes[i].tags.empty()) any=true;
				for(size_t e=0;e<g.idx.size();++e){ const MNode&n=map.nodes[g.idx[e]]; bool hit=here&&e==c.elem; int64_t la=(n.lat-b.lat_off)/b.granularity,lo=(n.lon-b.lon_off)/b.granularity;
					pvar(ids,zz((int64_t)n.id-pi)); pi=(int64_t)n.id;
					if(!(hit&&c.kind==C_DENSE_LAT_SHORT)) pvar(lats,zz(la-pla));
					pla=la; pvar(lons,zz(lo-plo)); if(hit&&c.kind==C_DENSE_LON_LONG) pvar(lons,0); if(hit&&c.kind==C_DENSE_LAT_LONG) pvar(lats,0);
					plo=lo;
					size_t i=0; for(auto&p:n.tags){ uint64_t k=st.get(p.first),v=st.get(p.second); if(hit&&i==0){ if(c.kind==C_KEY_INDEX) k=oob; if(c.kind==C_VALUE_INDEX) v=oob; } pvar(kv,k); if(!(hit&&i==0&&c.kind==C_MISSING_VALUE&&e+1==g.idx.size()&&false)) pvar(kv,v); ++i; }
					if(!(hit&&c.kind==C_KV_SHORT&&e+1==g.idx.size())) pvar(kv,0);
				}
				if(here&&c.kind==C_KV_SHORT&&!any){ any=true; }
				if(here&&c.kind==C_KV_LONG){ pvar(kv,0); any=true; }
				if(b.junk_fields) fvar(msg,77,5);
				if(!(here&&c.kind==C_DENSE_ID_MISSING)) fstr(msg,1,ids); if(b.junk_fields) fstr(msg,5,"denseinfo"); if(!(here&&c.kind==C_DENSE_LAT_MISSING)) fstr(msg,8,lats); if(!(here&&c.kind==C_DENSE_LON_MISSING)) fstr(msg,9,lons); if(any||!b.dense_without_tags_omits_array) fstr(msg,10,kv);
				if(b.junk_fields){ if(gi%2) f32(msg,78); else f64(msg,78); }
				fstr(gs,2,msg);
			}else for(size_t e=0;e<g.idx.size();++e){ bool hit=here&&e==c.elem; std::string msg,ks,vs;
				if(g.kind==0){ const MNode&n=map.nodes[g.idx[e]]; tagref(n.tags,hit,ks,vs); if(!(hit&&c.kind==C_NO_ID)) fvar(msg,1,zz((int64_t)n.id)); if(b.junk_fields) fvar(msg,42,7); if(!ks.empty()||!vs.empty()){ fstr(msg,2,ks); fstr(msg,3,vs); } if(b.junk_fields){ fstr(msg,4,"info"); f32(msg,40); } bool nc=hit&&c.kind==C_NO_COORDINATE; if(!(nc&&c.oob%2==0)) fvar(msg,8,zz((n.lat-b.lat_off)/b.granularity)); if(!(nc&&c.oob%2==1)) fvar(msg,9,zz((n.lon-b.lon_off)/b.granularity)); if(b.junk_fields){ if(e%3==0) f64(msg,43); else if(e%3==1) f32(msg,43); } fstr(gs,1,msg); }
				else if(g.kind==1){ const MWay&w=map.ways[g.idx[e]]; tagref(w.tags,hit,ks,vs); if(b.junk_fields) f64(msg,41); if(!(hit&&c.kind==C_NO_ID)) fvar(msg,1,w.id); if(b.junk_fields) fvar(msg,42,9); if(!ks.empty()||!vs.empty()){ fstr(msg,2,ks); fstr(msg,3,vs); } std::string refs; int64_t p=0; for(uint64_t r:w.refs){ pvar(refs,zz((int64_t)r-p)); p=(int64_t)r; } if(!refs.empty()||b.shuffle) fstr(msg,8,refs); if(b.junk_fields){ fstr(msg,4,"info"); if(e%3==0) f32(msg,43); else if(e%3==1) f64(msg,43); } fstr(gs,3,msg); }
				else { const MRel&r=map.rels[g.idx[e]]; tagref(r.tags,hit,ks,vs); if(!(hit&&c.kind==C_NO_ID)) fvar(msg,1,r.id); if(b.junk_fields) fvar(msg,42,11); if(!ks.empty()||!vs.empty()){ fstr(msg,2,ks); fstr(msg,3,vs); } std::string ro,id,ty; int64_t p=0; size_t i=0; for(auto&m:r.members){ uint64_t k=st.get(m.role); int t=m.type; if(hit&&i==0){ if(c.kind==C_ROLE_INDEX) k=oob; if(c.kind==C_BAD_MEMBER_TYPE) t=3; } bool last=hit&&i+1==r.members.size(); if(!(last&&c.kind==C_ROLE_SHORT)) pvar(ro,k); pvar(id,zz((int64_t)m.id-p)); p=(int64_t)m.id; if(!(last&&c.kind==C_TYPE_SHORT)) pvar(ty,(uint64_t)t); ++i; } if(hit&&c.kind==C_ROLE_LONG) pvar(ro,0); if(hit&&c.kind==C_TYPE_LONG) pvar(ty,0); if(b.junk_fields) fstr(msg,4,"info"); fstr(msg,8,ro); fstr(msg,9,id); fstr(msg,10,ty); if(b.junk_fields&&e%2) f64(msg,43); fstr(gs,4,msg); }
			}
			if(here&&c.kind==C_BAD_WIRE){ pvar(gs,(50<<3)|3); }
			if(here&&c.kind==C_TRUNC32){ pvar(gs,(50<<3)|5); gs+=std::string(c.elem%4,'\3'); }
			if(here&&c.kind==C_TRUNC64){ pvar(gs,(50<<3)|1); gs+=std::string(c.elem%8,'\3'); }
			groups.push_back(gs);
		}
	}
	(void)BAD;
	std::string table; for(auto&s:st.v) fstr(table,1,s);
	if(c.kind==C_STRING_OVERRUN){ pvar(table,(1<<3)|2); pvar(table,1000); table+="x"; }
	std::string pb; if(!b.strings_last) fstr(pb,1,table);
	for(auto&g:groups) fstr(pb,2,g);
	if(b.granularity!=100||b.junk_fields) fvar(pb,17,(uint64_t)b.granularity); 
	if(c.kind==C_GRANULARITY_ZERO) fvar(pb,17,0);
	if(b.lat_off) fvar(pb,19,(uint64_t)b.lat_off);
	if(b.lon_off) fvar(pb,20,(uint64_t)b.lon_off);
	if(b.junk_fields) fvar(pb,18,1000);
	if(b.strings_last) fstr(pb,1,table);
	if(raw_size) *raw_size=pb.size();
	return pb;
}
struct Span{ size_t begin,end; bool compressed; size_t data_begin; };
inline void append_blob(std::string&file,const std::string&type,const std::string&pb,bool compress,int level,const Corrupt&c,bool junk,std::vector<Span>*spans,bool no_raw_size=false,unsigned index_len=9){
	std::string blob; size_t claimed=pb.size(); if(c.kind==C_RAW_SIZE_WRONG) claimed= c.oob%2==0&&claimed>1+c.elem? claimed-1-c.elem : claimed+1+c.elem;
	if(compress){ fvar(blob,2,claimed); }
	size_t off=0; bool nodata=c.kind==C_NO_DATA;
	std::string z= compress? deflated(c.kind==C_SIZE_LIE? pb+"zzzz" : pb,level) : std::string();
	if(c.kind==C_NO_RAW_SIZE) blob.clear();
	if(!nodata){ std::string h; if(compress){ pvar(h,(3<<3)|2); pvar(h,z.size()); off=blob.size()+h.size(); blob+=h+z; } else { pvar(h,(1<<3)|2); pvar(h,pb.size()); off=blob.size()+h.size(); blob+=h+pb; } }
	if(c.kind==C_BOTH_DATA){ if(compress) fstr(blob,1,pb); else fstr(blob,3,deflated(pb,6)); }
	if(!compress&&c.kind!=C_NO_RAW_SIZE&&!(no_raw_size&&c.kind==C_NONE)) fvar(blob,2,claimed); // the size is only needed for compressed data
	std::string head; if(c.kind!=C_NO_TYPE) fstr(head,1,type); if(junk) fstr(head,2,std::string(index_len,'i')); if(c.kind!=C_NO_DATASIZE) fvar(head,3,blob.size());
	size_t b0=file.size(); uint32_t hl=(uint32_t)head.size(); file.push_back((char)(hl>>24)); file.push_back((char)(hl>>16)); file.push_back((char)(hl>>8)); file.push_back((char)hl); file+=head; size_t db=file.size(); file+=blob;
	if(spans) spans->push_back({b0,file.size(),compress&&!nodata,db+off});
}
inline std::string encode_file(const MMap&map,const FileLayout&l,size_t bad_block,const Corrupt&c,std::vector<Span>*spans=nullptr,unsigned*block_need=nullptr){
	std::string f; std::string h; fstr(h,4,"OsmSchema-V0.6"); fstr(h,4,"DenseNodes"); fstr(h,16,"sim"); if(l.header_extra){ std::string bb; for(unsigned k=1;k<5;++k) fvar(bb,k,zz((int64_t)k*1000000007ll-2500000000ll)); fstr(h,1,bb); fstr(h,5,"LocationsOnWays"); fstr(h,17,std::string(l.header_extra,'s')); fvar(h,32,1234567890); fvar(h,33,77); fstr(h,34,"http://localhost/"); } unsigned need=64; Corrupt none; std::vector<Span>tmp; if(!spans) spans=&tmp;
	static const std::string unknown[]={"OSMUnknownBlockType","OSMDataIndex","OSMHeaders","osmdata","OSM","X","OSMDat",std::string(130,'O')};
	if(l.header) append_blob(f,"OSMHeader",h,l.header_style==0,6,none,l.header_extra%2!=0,spans,l.header_style==2,l.header_extra);
	for(size_t i=0;i<l.blocks.size();++i){
		if(i<l.unknown_before.size()) for(int k=0;k<l.unknown_before[i];++k) append_blob(f,unknown[(i*5+k*3+l.blocks.size())%8],std::string(1+(i*7+k*13)%50,'u'),false,6,none,true,spans);
		if((int)i==l.extra_header) append_blob(f,"OSMHeader",h,true,6,none,false,spans);
		Corrupt cc= i==bad_block?c:none; size_t rs; std::string pb=encode_block(map,l.blocks[i],cc,&rs); need=std::max<unsigned>(need,(unsigned)rs+4);
		append_blob(f,"OSMData",pb,l.blocks[i].compress,l.blocks[i].level,cc,l.blocks[i].junk_fields,spans,l.blocks[i].no_raw_size,l.blocks[i].index_len);
	}
	if(l.extra_header==(int)l.blocks.size()) append_blob(f,"OSMHeader",h,true,6,none,false,spans);
	for(auto&s:*spans) need=std::max<unsigned>(need,(unsigned)(s.end-s.begin));
	if(block_need) *block_need=need; return f;
}
#endif
