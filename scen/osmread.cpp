// P03, P04: reading OSM PBF files through the three-thread pipeline.
#include "mapgen.h"
#include <routingkit/osm_decoder.h>
#include <fcntl.h>
#include <unistd.h>
#include <math.h>
using namespace RoutingKit;
namespace RoutingKit{ extern unsigned simulated_pbf_block_size; }

namespace{
struct Stop{ int code; };
struct Collector{
	const MMap*map; std::vector<MElem>expect; size_t got=0; bool on[3]={true,true,true}; unsigned yields=0; long throw_at=-1; bool lenient=false; bool threw=false;
	Rng r{1};
	void fail(const char*c,const std::string&m){ violation(c,m); }
	void tags_equal(const Tags&want,const TagMap&t,const std::string&who){
		checked();
		if(t.size()!=want.size()||t.empty()!=want.empty()) fail("tags",who+" has "+S(want.size())+" tags but "+S(t.size())+" were delivered");
		std::multiset<std::pair<std::string,std::string>>a,b; for(auto&x:want) a.insert(x); for(auto&e:t) b.insert({e.key,e.value});
		if(a!=b) fail("tags",who+" was delivered with different tags");
		for(auto&x:want){ const char*v=t[x.first.c_str()]; if(!v||x.second!=v) fail("tag_lookup",who+": lookup of tag "+x.first.substr(0,30)+" gave a different value"); }
		static const char*absent[]={"highway","name","zz_absent","b","type"}; for(auto k:absent){ bool in=false; for(auto&x:want) in|=x.first==k; if(!in&&t[k]!=nullptr) fail("tag_lookup",who+": lookup of absent tag "+k+" gave a value"); }
	}
	const MElem&next(int kind,uint64_t id){
		static const char*n[]={"node","way","relation"};
		if(got>=expect.size()) fail("extra_element",std::string("an extra ")+n[kind]+" "+S(id)+" was delivered after all "+S(expect.size())+" elements");
		const MElem&e=expect[got]; uint64_t want= e.kind==0?map->nodes[e.idx].id:e.kind==1?map->ways[e.idx].id:map->rels[e.idx].id;
		checked();
		if(e.kind!=kind||want!=id) fail("wrong_element","element "+S(got)+" should be "+n[e.kind]+" "+S(want)+" but "+n[kind]+" "+S(id)+" was delivered");
		return e;
	}
	void pause(){ for(unsigned i=0;i<yields;++i) if(r.chance(1,2)) yield_point(); }
	void maybe_throw(){ if(throw_at>=0&&(long)got==throw_at){ threw=true; shm->fired[S_CALLBACK][K_THROW]++; throw Stop{77}; } }
	void node(uint64_t id,double lat,double lon,const TagMap&t){
		pause(); maybe_throw(); Frozen z; const MNode&n=map->nodes[next(0,id).idx];
		if(!(fabs(lat-1e-9*(double)n.lat)<1e-8)||!(fabs(lon-1e-9*(double)n.lon)<1e-8)) fail("coordinates","node "+S(id)+" was delivered at "+std::to_string(lat)+","+std::to_string(lon)+" instead of "+std::to_string(1e-9*n.lat)+","+std::to_string(1e-9*n.lon));
		tags_equal(n.tags,t,"node "+S(id)); ++got; observe(id);
	}
	void way(uint64_t id,const std::vector<uint64_t>&refs,const TagMap&t){
		pause(); maybe_throw(); Frozen z; const MWay&w=map->ways[next(1,id).idx]; if(refs!=w.refs) fail("way_nodes","way "+S(id)+" was delivered with a different node list"); tags_equal(w.tags,t,"way "+S(id)); ++got; observe(id);
	}
	void rel(uint64_t id,const std::vector<OSMRelationMember>&m,const TagMap&t){
		pause(); maybe_throw(); Frozen z; const MRel&x=map->rels[next(2,id).idx]; bool ok=m.size()==x.members.size(); for(size_t i=0;ok&&i<m.size();++i){ OSMIDType ty= x.members[i].type==0?OSMIDType::node:x.members[i].type==1?OSMIDType::way:OSMIDType::relation; ok=m[i].type==ty&&(uint64_t)m[i].id==x.members[i].id&&x.members[i].role==m[i].role; }
		if(!ok) fail("relation_members","relation "+S(id)+" was delivered with different members"); tags_equal(x.tags,t,"relation "+S(id)); ++got; observe(id);
	}
};
void write_file(const std::string&p,const std::string&d){ Frozen z; int fd=::open(p.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); size_t o=0; while(o<d.size()){ ssize_t k=::write(fd,d.data()+o,d.size()-o); if(k<=0) internal_error("cannot write scratch file"); o+=(size_t)k; } ::close(fd); }
std::vector<MElem> expected(const GenMap&g,bool ordered,const bool*on){ std::vector<MElem>v; if(ordered){ for(int k=0;k<3;++k) if(on[k]) for(auto&e:g.file_order) if(e.kind==k) v.push_back(e); } else for(auto&e:g.file_order) if(on[e.kind]) v.push_back(e); return v; }
struct ReadPlan{ GenMap g; bool ordered_read; bool flag; bool on[3]; std::string bytes; std::vector<Span>spans; unsigned need; unsigned block; Collector c; unsigned loglevel; };
void make(ReadPlan&p,int tier,bool small){
	Rng r(draw(1000000000)+1);
	unsigned scale=tier?2:1; unsigned nn=(unsigned)skewed(0,(small?12:30)*scale),nw=(unsigned)skewed(0,(small?5:12)*scale),nr=(unsigned)skewed(0,(small?4:8)*scale);
	p.ordered_read=chance(1,2); bool file_ordered=chance(1,2); p.flag= p.ordered_read&&file_ordered&&chance(1,2);
	unsigned per=1+(unsigned)draw(6); bool simple=chance(1,4); int large= !small&&chance(1,50)? 1+(int)draw(L_COUNT-1) : 0;
	if(large==L_NODES){ nn=300+(unsigned)draw(chance(1,4)?8000:600); per=8000; } else if(large==L_WAYS){ nw=270+(unsigned)draw(400); per=8000; }
	p.g.map=random_map(nn,nw,nr,r); make_large(p.g.map,large,r); random_layout(p.g,file_ordered,per,r,simple,large); if(large) feature(7);
	unsigned mask= chance(1,2)?7:1+(unsigned)draw(7); for(int k=0;k<3;++k) p.on[k]=mask>>k&1;
	p.bytes=encode_file(p.g.map,p.g.lay,~0ull,Corrupt(),&p.spans,&p.need);
	p.block=p.need+(chance(1,3)?(unsigned)draw(200):0); if(chance(1,10)) p.block=64<<20;
	p.c.map=&p.g.map; p.c.expect=expected(p.g,p.ordered_read,p.on); p.c.yields=(unsigned)draw(5); if(large==L_NODES||large==L_WAYS) p.c.yields=0; p.c.r=Rng(draw(1000000)+3); p.loglevel=(unsigned)draw(2);
	note(S(nn)+" nodes, "+S(nw)+" ways, "+S(nr)+" relations in "+S(p.g.lay.blocks.size())+" blocks ("+S(p.bytes.size())+" bytes), block size "+S(p.block)+(p.ordered_read?", ordered reading":", unordered reading")+(p.flag?" of a file declared ordered":"")+(file_ordered?"":", unordered file")+", callbacks "+S(mask));
}
void do_read(ReadPlan&p,const std::string&file){
	std::function<void(uint64_t,double,double,const TagMap&)>nf; std::function<void(uint64_t,const std::vector<std::uint64_t>&,const TagMap&)>wf; std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&)>rf; std::function<void(const std::string&)>lf;
	Collector*c=&p.c;
	if(p.on[0]) nf=[c](uint64_t i,double a,double b,const TagMap&t){ c->node(i,a,b,t); };
	if(p.on[1]) wf=[c](uint64_t i,const std::vector<std::uint64_t>&v,const TagMap&t){ c->way(i,v,t); };
	if(p.on[2]) rf=[c](uint64_t i,const std::vector<OSMRelationMember>&v,const TagMap&t){ c->rel(i,v,t); };
	if(p.loglevel) lf=[](const std::string&){};
	if(p.ordered_read) ordered_read_osm_pbf(file,nf,wf,rf,lf,p.flag); else unordered_read_osm_pbf(file,nf,wf,rf,lf);
}
}

SCENARIO(pbf_read){
	static ReadPlan p; make(p,tier,false); std::string file=scratch+"map.osm.pbf"; write_file(file,p.bytes);
	unsigned repeat=1+(unsigned)chance(1,6); static ReadPlan q; bool two=chance(1,8); std::string file2=scratch+"second.osm.pbf"; if(two){ note("; at the same time: "); make(q,0,true); write_file(file2,q.bytes); feature(8); }
	if(chance(3,4)) fault_prob(S_READ,K_SHORT,1,2,1u<<30);
	if(chance(1,4)) fault_prob(S_READ,K_EINTR,1,6);
	if(chance(1,3)){ allow_spurious=true; fault_prob(S_COND,K_SPURIOUS,1,8); }
	simulated_pbf_block_size=two?std::max(p.block,q.block):p.block;
	begin_threads();
	if(two) spawn([&]{ try{ do_read(q,file2); }catch(std::exception&e){ violation("spurious_error",std::string("reading a well-formed file failed while another one was read: ")+e.what()); } SIM_CHECK(q.c.got==q.c.expect.size(),"missing_elements",S(q.c.got)+" of "+S(q.c.expect.size())+" elements were delivered while another file was read"); });
	for(unsigned i=0;i<repeat;++i){
		p.c.got=0;
		if(i==1&&p.loglevel){ uint64_t sum[3]={0,0,0}; bool done=false; try{ speedtest_osm_pbf_reading(file,[&](std::string m){ Frozen z; unsigned long a,b,c; if(sscanf(m.c_str(),"Read %lu nodes, %lu ways, %lu relations",&a,&b,&c)==3){ sum[0]+=a; sum[1]+=b; sum[2]+=c; } if(m.find("finished")!=std::string::npos) done=true; }); }catch(std::exception&e){ violation("spurious_error",std::string("the speed test failed on a well-formed file: ")+e.what()); } SIM_CHECK(done&&sum[0]<=p.g.map.nodes.size()&&sum[1]<=p.g.map.ways.size()&&sum[2]<=p.g.map.rels.size(),"speedtest","the speed test reported more elements than the file has or did not finish"); feature(6); continue; }
		try{ do_read(p,file); }catch(std::exception&e){ violation("spurious_error",std::string("reading a well-formed file failed: ")+e.what()); }
		SIM_CHECK(p.c.got==p.c.expect.size(),"missing_elements",S(p.c.got)+" of "+S(p.c.expect.size())+" elements were delivered");
	}
	if(two) join_all();
	end_threads();
	SIM_CHECK(open_fd_count()==0,"open_file","a file is still open after reading");
	size_t big=0; for(auto&s:p.spans) big+=s.end-s.begin; if(big>5ull*p.block) feature(0); if(p.ordered_read&&!p.g.ordered) feature(1); if(!p.g.lay.header) feature(2); for(auto&b:p.g.lay.blocks){ if(b.lat_off||b.lon_off) feature(3); for(auto&g:b.groups) if(g.kind==0&&!g.dense) feature(4); } if(p.c.expect.empty()) feature(5);
}

SCENARIO(pbf_damage){
	static ReadPlan p; make(p,tier,true); std::string file=scratch+"map.osm.pbf";
	bool must=false,garbage=false,must_not=false; std::string what; bool callback_throw=false;
	unsigned v=(unsigned)draw(10);
	if(v==0||v==1){ // cut off inside a block
		if(!p.spans.empty()){ const Span&s=p.spans[draw(p.spans.size())]; size_t len=s.end-s.begin; size_t cut=s.begin+1+ (chance(1,3)? draw(std::min<size_t>(len-1,6)) : draw(len-1)); p.bytes.resize(cut); must=true; what="file cut at byte "+S(cut); }
	}else if(v==2){ // damaged compressed data
		std::vector<size_t>c; for(size_t i=0;i<p.spans.size();++i) if(p.spans[i].compressed&&!(i==0&&p.g.lay.header)) c.push_back(i);
		if(!c.empty()){ const Span&s=p.spans[c[draw(c.size())]]; unsigned n=1+(unsigned)draw(3); for(unsigned i=0;i<n;++i){ size_t o=s.data_begin+draw(s.end-s.data_begin); p.bytes[o]=(char)(p.bytes[o]^(1<<draw(8))); what+=" flip at byte "+S(o); } }
	}else if(v==3&&chance(1,12)){ // a second header, or a header behind the data
		p.g.lay.extra_header=(int)draw(p.g.lay.blocks.size()+1); if(p.g.lay.header||p.g.lay.extra_header>0){ unsigned need; std::vector<Span>sp; p.bytes=encode_file(p.g.map,p.g.lay,~0ull,Corrupt(),&sp,&need); p.block=std::max(p.block,need); must=true; what="misplaced header block"; feature(39); }
	}else if(v==3&&chance(1,4)){ // blocks that are larger than the reader is prepared for
		p.block=64+(unsigned)draw(p.need>64?p.need-63:1); what="blocks of up to "+S(p.need)+" bytes read with a block size of "+S(p.block); feature(62);
	}else if(v==3){ // invalid contents
		std::vector<size_t>bl; for(size_t i=0;i<p.g.lay.blocks.size();++i) if(!p.g.lay.blocks[i].groups.empty()) bl.push_back(i);
		if(!bl.empty()){
			size_t b=bl[draw(bl.size())]; Corrupt c; c.kind=1+(int)draw(C_COUNT-1); c.group=draw(p.g.lay.blocks[b].groups.size()); const MGroup&g=p.g.lay.blocks[b].groups[c.group]; c.elem= g.idx.empty()?0:draw(g.idx.size());
			auto tags=[&]()->size_t{ if(g.idx.empty()) return 0; size_t i=g.idx[c.elem]; return g.kind==0?p.g.map.nodes[i].tags.size():g.kind==1?p.g.map.ways[i].tags.size():p.g.map.rels[i].tags.size(); };
			static const uint64_t far[]={0,1,2,1000,65536,1ull<<32,(1ull<<32)-1,1ull<<40}; c.oob=far[draw(8)]; bool block_level=false,applies=true;
			switch(c.kind){
				case C_KEY_INDEX: case C_VALUE_INDEX: applies=tags()>0; break;
				case C_MISSING_VALUE: applies=tags()>0&&!(g.kind==0&&g.dense); break;
				case C_VALUE_LONG: applies=!g.idx.empty()&&!(g.kind==0&&g.dense); break;
				case C_NO_COORDINATE: applies=g.kind==0&&!g.dense&&!g.idx.empty(); break;
				case C_ROLE_LONG: case C_TYPE_LONG: applies=g.kind==2&&!g.idx.empty(); break;
				case C_ROLE_SHORT: case C_TYPE_SHORT: case C_ROLE_INDEX: case C_BAD_MEMBER_TYPE: applies=g.kind==2&&!g.idx.empty()&&!p.g.map.rels[g.idx[c.elem]].members.empty(); break;
				case C_KV_SHORT: case C_DENSE_LAT_SHORT: case C_DENSE_LON_LONG: case C_DENSE_LAT_LONG: applies=g.kind==0&&g.dense&&!g.idx.empty(); if(applies) c.elem=g.idx.size()-1; break;
				case C_NO_ID: applies=!g.idx.empty()&&!(g.kind==0&&g.dense); break;
				case C_DENSE_LAT_MISSING: case C_DENSE_LON_MISSING: case C_DENSE_ID_MISSING: case C_KV_LONG: applies=g.kind==0&&g.dense&&!g.idx.empty(); break;
				case C_NO_RAW_SIZE: case C_SIZE_LIE: applies=p.g.lay.blocks[b].compress; block_level=true; break;
				default: block_level=true;
			}
			if(applies){ must= block_level||p.on[g.kind]; unsigned need; std::vector<Span>sp; p.bytes=encode_file(p.g.map,p.g.lay,b,c,&sp,&need); p.block=std::max(p.block,need); what="invalid contents of kind "+S((uint64_t)c.kind)+" in block "+S(b)+" group "+S(c.group)+" element "+S(c.elem); feature(c.kind<23?16+c.kind:c.kind+19); }
		}
	}else if(v==4){ plan_fault(S_READ,skewed(0,20),K_EIO); what="read error"; if(chance(1,2)) fault_prob(S_READ,K_SHORT,1,2,1u<<30); }
	else if(v==5){ if(chance(1,2)){ plan_fault(S_OPEN,0,chance(1,2)?K_EMFILE:K_EIO); what="open fails"; must=true; } else if(chance(1,2)){ plan_fault(S_SEEK,draw(2),K_EIO); what="seek fails"; } else { file=scratch+"does_not_exist"; what="missing file"; must=true; } }
	else if(v==6){ p.c.throw_at=(long)(p.c.expect.empty()?0:draw(p.c.expect.size())); callback_throw=!p.c.expect.empty(); what="callback throws at element "+S((uint64_t)p.c.throw_at); }
	else if(v==7&&chance(1,8)){ // features in the header, or what looks like them
		static const char*feature_name[]={"DenseNodes","DenseNodesAndMore","Dense","","Sort.Type_then_ID","Sort.Type_then_ID_and_more","Sort","OsmSchema-V0.6"}; std::string blob,head,f; unsigned n=1+(unsigned)draw(3); for(unsigned i=0;i<n;++i) fstr(blob,4+(unsigned)draw(2),feature_name[draw(8)]);
		fstr(head,1,"OSMHeader"); fvar(head,3,blob.size()); uint32_t hl=(uint32_t)head.size(); for(int i=3;i>=0;--i) f.push_back((char)(hl>>(8*i))); p.bytes=f+head+blob+p.bytes.substr(p.g.lay.header&&!p.spans.empty()?p.spans[0].end:0); p.block=std::max<unsigned>(p.block,(unsigned)blob.size()); garbage=true; what="features in the header"; }
	else if(v==7){ unsigned n=1+(unsigned)draw(4); for(unsigned i=0;i<n&&!p.bytes.empty();++i){ size_t o=draw(p.bytes.size()); if(chance(1,2)) p.bytes[o]=(char)(p.bytes[o]^(1<<draw(8))); else p.bytes[o]=(char)draw(256); } garbage=true; what="arbitrary damage"; }
	else if(v==8){ plan_fault(S_THREAD,draw(4),K_EAGAIN); what="thread creation fails"; }
	else { plan_fault(S_ALLOC,skewed(0,150),K_NOMEM); what="allocation fails"; }
	(void)must_not;
	if(chance(1,4)) fault_prob(S_READ,K_SHORT,1,2,1u<<30);
	if(chance(1,4)) fault_prob(S_READ,K_EINTR,1,6);
	if(chance(1,4)){ allow_spurious=true; fault_prob(S_COND,K_SPURIOUS,1,8); }
	note("; "+what);
	if(file==scratch+"map.osm.pbf") write_file(file,p.bytes);
	simulated_pbf_block_size=p.block; feature((int)v);
	bool threw=false,stopped=false; int code=0; std::string err;
	static Collector ref; 
	if(garbage){ p.c.lenient=true; }
	begin_threads();
	mem_reset(); mem_faults_armed= v==9;
	{
		try{
			if(garbage){ // only termination, memory safety and clean-up are decided here
				auto n=[](uint64_t,double,double,const TagMap&t){ yield_point(); uint64_t h=0; for(auto&e:t) h+=strlen(e.key)+strlen(e.value); observe(h); }; auto w=[](uint64_t,const std::vector<std::uint64_t>&v,const TagMap&t){ uint64_t h=v.size(); for(auto&e:t) h+=strlen(e.key)+strlen(e.value); observe(h); }; auto r=[](uint64_t,const std::vector<OSMRelationMember>&m,const TagMap&t){ uint64_t h=t.size(); for(auto&x:m) h+=strlen(x.role); observe(h); };
				if(p.ordered_read) ordered_read_osm_pbf(file,n,w,r,nullptr,p.flag); else unordered_read_osm_pbf(file,n,w,r,nullptr);
			}else do_read(p,file);
		}catch(Stop&s){ mem_faults_armed=false; threw=stopped=true; code=s.code; }
		catch(std::exception&e){ mem_faults_armed=false; threw=true; { Frozen z; err=e.what(); } }
		catch(...){ mem_faults_armed=false; threw=true; { Frozen z; err="unknown"; } }
	}
	mem_faults_armed=false;
	uint64_t io_err=io_fault_errors+fired(S_THREAD);
	end_threads();
	uint64_t live=mem_live();
	SIM_CHECK(open_fd_count()==0,"open_file","the file is still open after reading ended ("+what+")");
	leak_check(live,"after reading ended ("+what+")"); mem_stop();
	if(!garbage){
		if(callback_throw){ SIM_CHECK(stopped&&code==77,"callback_exception","the exception thrown by a callback did not come out unchanged: "+err); SIM_CHECK((long)p.c.got==p.c.throw_at,"callback_exception","wrong number of elements delivered before the callback's exception"); }
		else if(must||io_err){ SIM_CHECK(threw,"error_swallowed","reading reported success although it could not read the file completely ("+what+"), "+S(p.c.got)+" of "+S(p.c.expect.size())+" elements delivered"); }
		else if(!threw) SIM_CHECK(p.c.got==p.c.expect.size(),"missing_elements","reading reported success after "+S(p.c.got)+" of "+S(p.c.expect.size())+" elements ("+what+")");
		else { checked(); if(v!=2&&v!=9&&v!=4&&v!=3) violation("spurious_error","reading failed without reason ("+what+"): "+err); if(v==9&&fired(S_ALLOC)==0) violation("spurious_error","reading failed without reason: "+err); }
	}
	observe(threw); observe(p.c.got); if(threw) feature(40); else feature(41);
}
