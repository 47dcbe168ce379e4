// P05: extracting routing graphs from OSM PBF files.
#include "mapgen.h"
#include <routingkit/osm_graph_builder.h>
#include <routingkit/osm_profile.h>
#include <routingkit/osm_simple.h>
#include <fcntl.h>
#include <unistd.h>
#include <math.h>
#include <memory>
using namespace RoutingKit;
namespace RoutingKit{ extern unsigned simulated_pbf_block_size; }
namespace{
const unsigned NO=4294967295u;
void write_file(const std::string&p,const std::string&d){ Frozen z; int fd=::open(p.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); size_t o=0; while(o<d.size()){ ssize_t k=::write(fd,d.data()+o,d.size()-o); if(k<=0) internal_error("cannot write scratch file"); o+=(size_t)k; } ::close(fd); }
const char*get_tag(const Tags&t,const char*k){ for(auto&x:t) if(x.first==k) return x.second.c_str(); return nullptr; }
TagMap tag_map(const Tags&t){ TagMap m; m.build((unsigned)t.size(),[&](unsigned i){ return t[i].first.c_str(); },[&](unsigned i){ return t[i].second.c_str(); }); return m; }
const int64_t STEP=1000000; // 0.001 degree in nano degrees: positions are distinct multiples of it
struct Pos{ int64_t lat,lon; bool operator<(const Pos&o)const{ return lat!=o.lat?lat<o.lat:lon<o.lon; } bool operator==(const Pos&o)const{ return lat==o.lat&&lon==o.lon; } };
struct Arc{ unsigned tail,head,way; bool anti; std::vector<Pos>geo; double dist; unsigned segs; }; // segs: parts of length zero, for which the distance is not exact
struct Restr{ bool only; int dir; uint64_t from,via,to; bool has_via; };
struct World{
	MMap m; std::map<uint64_t,size_t>node_at; std::vector<Restr>restr;
	Pos pos(uint64_t id)const{ const MNode&n=m.nodes[node_at.at(id)]; return {n.lat/STEP,n.lon/STEP}; }
};
struct Want{ std::vector<uint64_t>routing,modelling,ways; std::vector<Arc>arcs; std::map<uint64_t,unsigned>rid,wid; };
double angle_dist(Pos a,Pos b){ // great-circle distance of the positions as single-precision degrees
	const double k=3.14159265358979323846/180,R=6371000.785; double la=(double)(float)(a.lat*1e-3)*k,lo=(double)(float)(a.lon*1e-3)*k,lb=(double)(float)(b.lat*1e-3)*k,mo=(double)(float)(b.lon*1e-3)*k;
	double s=sin((la-lb)/2),t=sin((lo-mo)/2),h=s*s+cos(la)*cos(lb)*t*t; return 2*R*asin(std::min(1.0,sqrt(h)));
}
// used(way) says whether a way counts, dir(way) is 0 both 1 forward 2 backward 3 closed
template<class U,class D> Want expect(const World&w,const U&used,const D&dir,const std::set<uint64_t>&flagged,bool all){
	Want x; std::map<uint64_t,unsigned>seen; std::set<uint64_t>ends,rn,mn; std::vector<const MWay*>use;
	for(auto&y:w.m.ways) if(y.refs.size()>=2&&used(y)){ use.push_back(&y); for(uint64_t r:y.refs) ++seen[r]; ends.insert(y.refs.front()); ends.insert(y.refs.back()); }
	for(auto&s:seen){ mn.insert(s.first); if(all||s.second>1||ends.count(s.first)) rn.insert(s.first); }
	for(uint64_t f:flagged){ mn.insert(f); rn.insert(f); }
	x.routing.assign(rn.begin(),rn.end()); x.modelling.assign(mn.begin(),mn.end()); for(unsigned i=0;i<x.routing.size();++i) x.rid[x.routing[i]]=i;
	std::set<uint64_t>ids; for(auto y:use) ids.insert(y->id); x.ways.assign(ids.begin(),ids.end()); for(unsigned i=0;i<x.ways.size();++i) x.wid[x.ways[i]]=i;
	for(auto y:use){ int d=dir(*y); if(d==3) continue; size_t last=0; double len=0; std::vector<Pos>g; unsigned segs=0;
		for(size_t i=1;i<y->refs.size();++i){ len+=angle_dist(w.pos(y->refs[i-1]),w.pos(y->refs[i])); segs+=y->refs[i-1]==y->refs[i]; if(!x.rid.count(y->refs[i])){ g.push_back(w.pos(y->refs[i])); continue; }
			unsigned a=x.rid[y->refs[last]],b=x.rid[y->refs[i]],wi=x.wid[y->id]; if(d!=2) x.arcs.push_back({a,b,wi,false,g,len,segs}); if(d!=1){ std::vector<Pos>h(g.rbegin(),g.rend()); x.arcs.push_back({b,a,wi,true,h,len,segs}); }
			last=i; len=0; segs=0; g.clear(); } }
	std::stable_sort(x.arcs.begin(),x.arcs.end(),[](const Arc&a,const Arc&b){ return a.tail!=b.tail?a.tail<b.tail:a.head<b.head; });
	return x;
}
typedef std::set<std::pair<unsigned,unsigned>>Turns;
// which turns the restrictions forbid on these arcs; maybe: turns that depend on a direction too close to a border
void forbidden(const World&w,const Want&x,const std::vector<Arc>&arcs,Turns&must,Turns&maybe,bool*reach){
	for(auto&r:w.restr){
		if(!x.wid.count(r.from)||!x.wid.count(r.to)) continue; unsigned f=x.wid.at(r.from),t=x.wid.at(r.to),via=NO;
		if(r.has_via){ if(!x.rid.count(r.via)) continue; via=x.rid.at(r.via); }
		else { std::set<unsigned>heads,both; for(auto&a:arcs) if(a.way==f) heads.insert(a.head); for(auto&a:arcs) if(a.way==t&&heads.count(a.tail)) both.insert(a.tail); if(both.size()!=1) continue; via=*both.begin(); reach[1]=true; }
		std::vector<unsigned>fc,tc; for(unsigned i=0;i<arcs.size();++i){ if(arcs[i].way==f&&arcs[i].head==via) fc.push_back(i); if(arcs[i].way==t&&arcs[i].tail==via) tc.push_back(i); }
		if(fc.empty()||tc.empty()) continue;
		std::vector<std::pair<unsigned,unsigned>>sure,unsure;
		if(fc.size()==1&&tc.size()==1) sure.push_back({fc[0],tc[0]});
		else{ reach[2]=true; Pos v=w.pos(x.routing[via]); const double pi=3.14159265358979323846;
			for(unsigned a:fc) for(unsigned b:tc){ Pos p= arcs[a].geo.empty()?w.pos(x.routing[arcs[a].tail]):arcs[a].geo.back(), q= arcs[b].geo.empty()?w.pos(x.routing[arcs[b].head]):arcs[b].geo.front();
				bool degenerate=p==v||q==v; double d=atan2((double)(q.lat-v.lat),(double)(q.lon-v.lon))-atan2((double)(v.lat-p.lat),(double)(v.lon-p.lon)); while(d<0) d+=2*pi; while(d>2*pi) d-=2*pi;
				auto in=[&](double lo,double hi){ return lo<d&&d<hi; }; auto near=[&](double z){ return fabs(d-z)<0.03||degenerate; };
				bool ok=false,close=false; switch(r.dir){ case 0: ok=in(pi/4,3*pi/4); close=near(pi/4)||near(3*pi/4); break; case 1: ok=in(5*pi/4,7*pi/4); close=near(5*pi/4)||near(7*pi/4); break; case 2: ok=d<pi/3||d>5*pi/3; close=near(pi/3)||near(5*pi/3); break; default: ok=in(2*pi/3,4*pi/3); close=near(2*pi/3)||near(4*pi/3); }
				if(close) unsure.push_back({a,b}); else if(ok) sure.push_back({a,b}); }
		}
		auto forbid=[&](Turns&s,std::pair<unsigned,unsigned>p){ if(!r.only) s.insert(p); else for(unsigned i=0;i<arcs.size();++i) if(arcs[i].tail==via&&i!=p.second) s.insert({p.first,i}); };
		if(!unsure.empty()){ for(auto&p:sure) forbid(maybe,p); for(auto&p:unsure) forbid(maybe,p); }
		else if(sure.size()==1){ forbid(must,sure[0]); reach[0]=true; }
	}
}
struct Got{ // what an extraction returned, in one form
	std::vector<unsigned>first_out,head,way,dist,ff,ft,first_geo,time; std::vector<float>lat,lon,glat,glon; std::vector<bool>anti; std::vector<unsigned char>comfort; bool has_way=false,has_geo=false;
	std::vector<uint64_t>way_calls; bool wrong_way_id=false;
};
std::vector<uint64_t> bits(const BitVector&b){ std::vector<uint64_t>v; for(uint64_t i=0;i<b.size();++i){ if(i%64==0&&b.data()[i/64]==0){ i+=63; continue; } if(b.is_set(i)) v.push_back(i); } return v; }
Pos snap(float a,float b){ return {(int64_t)llround((double)a*1000),(int64_t)llround((double)b*1000)}; }
bool near_float(float x,int64_t v){ return fabs((double)x-v*1e-3)<4e-5; }
struct Mode{ int kind; bool all,node_cb,way_cb,turns,flag,log; int geo; }; // kind 0 general, 1 car, 2 pedestrian, 3 bicycle
std::set<uint64_t> flagged_nodes(const World&w,const Mode&o){ std::set<uint64_t>s; if(o.kind==0&&o.node_cb) for(auto&n:w.m.nodes) if(get_tag(n.tags,"rn")) s.insert(n.id); return s; }
bool used_way(const Mode&o,const MWay&y){ TagMap t=tag_map(y.tags); switch(o.kind){ case 0: return get_tag(y.tags,"use"); case 1: return is_osm_way_used_by_cars(y.id,t); case 2: return is_osm_way_used_by_pedestrians(y.id,t); default: return is_osm_way_used_by_bicycles(y.id,t); } }
int cat(OSMWayDirectionCategory c){ return c==OSMWayDirectionCategory::open_in_both?0:c==OSMWayDirectionCategory::only_open_forwards?1:c==OSMWayDirectionCategory::only_open_backwards?2:3; }
int dir_of(const Mode&o,const MWay&y){ TagMap t=tag_map(y.tags); switch(o.kind){ case 0: { if(!o.way_cb) return 0; const char*d=get_tag(y.tags,"dir"); return !d?0:d[0]=='f'?1:d[0]=='b'?2:3; } case 1: return cat(get_osm_car_direction_category(y.id,t)); case 2: return 0; default: return cat(get_osm_bicycle_direction_category(y.id,t)); } }
void extract(const std::string&file,const Mode&o,Got&g,std::vector<uint64_t>*rn,std::vector<uint64_t>*mn,std::vector<uint64_t>*rw){
	std::function<void(const std::string&)>log; if(o.log) log=[](const std::string&){ yield_point(); };
	if(o.kind==0){
		std::function<bool(uint64_t,const TagMap&)>nc; if(o.node_cb) nc=[](uint64_t,const TagMap&t){ return t["rn"]!=nullptr; };
		OSMRoutingIDMapping map=load_osm_id_mapping_from_pbf(file,nc,[](uint64_t,const TagMap&t){ return t["use"]!=nullptr; },log,o.all);
		{ Frozen z; *rn=bits(map.is_routing_node); *mn=bits(map.is_modelling_node); *rw=bits(map.is_routing_way); }
		std::function<OSMWayDirectionCategory(uint64_t,unsigned,const TagMap&)>wc; if(o.way_cb) wc=[&](uint64_t id,unsigned local,const TagMap&t){ { Frozen z; g.way_calls.push_back(id); if(local>=rw->size()||(*rw)[local]!=id) g.wrong_way_id=true; } const char*d=t["dir"]; return !d?OSMWayDirectionCategory::open_in_both:d[0]=='f'?OSMWayDirectionCategory::only_open_forwards:d[0]=='b'?OSMWayDirectionCategory::only_open_backwards:OSMWayDirectionCategory::closed; };
		std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&,std::function<void(OSMTurnRestriction)>)>td; if(o.turns) td=[&](uint64_t id,const std::vector<OSMRelationMember>&m,const TagMap&t,std::function<void(OSMTurnRestriction)>f){ decode_osm_car_turn_restrictions(id,m,t,f,log); };
		OSMRoutingGraph r=load_osm_routing_graph_from_pbf(file,map,wc,td,log,o.flag,o.geo==0?OSMRoadGeometry::none:o.geo==1?OSMRoadGeometry::first_and_last:OSMRoadGeometry::uncompressed);
		Frozen z; g.first_out=r.first_out; g.head=r.head; g.way=r.way; g.dist=r.geo_distance; g.lat=r.latitude; g.lon=r.longitude; g.anti=r.is_arc_antiparallel_to_way; g.ff=r.forbidden_turn_from_arc; g.ft=r.forbidden_turn_to_arc; g.first_geo=r.first_modelling_node; g.glat=r.modelling_node_latitude; g.glon=r.modelling_node_longitude; g.has_way=true; g.has_geo=o.geo!=0||o.turns;
	}else if(o.kind==1){ auto r=simple_load_osm_car_routing_graph_from_pbf(file,log,o.all,o.flag); Frozen z; g.first_out=r.first_out; g.head=r.head; g.dist=r.geo_distance; g.lat=r.latitude; g.lon=r.longitude; g.ff=r.forbidden_turn_from_arc; g.ft=r.forbidden_turn_to_arc; g.time=r.travel_time; }
	else if(o.kind==2){ auto r=simple_load_osm_pedestrian_routing_graph_from_pbf(file,log,o.all,o.flag); Frozen z; g.first_out=r.first_out; g.head=r.head; g.dist=r.geo_distance; g.lat=r.latitude; g.lon=r.longitude; }
	else { auto r=simple_load_osm_bicycle_routing_graph_from_pbf(file,log,o.all,o.flag); Frozen z; g.first_out=r.first_out; g.head=r.head; g.dist=r.geo_distance; g.lat=r.latitude; g.lon=r.longitude; g.comfort=r.arc_comfort_level; }
}
bool dist_ok(double want,unsigned segs,unsigned got){ double tol=0.002+1e-8*want; return floor(want-tol)<=(double)got&&(double)got<=floor(want+tol+0.3*segs); } // whole metres, rounded down
void compare(const World&w,const Mode&o,const Want&x,const Got&g,bool*reach){
	auto fail=[](const char*c,const std::string&s){ violation(c,s); };
	size_t n=x.routing.size(),m=x.arcs.size();
	if(g.first_out.size()!=n+1) fail("nodes","the graph has "+S(g.first_out.size())+"-1 nodes instead of "+S(n)); if(g.lat.size()!=n||g.lon.size()!=n) fail("nodes","there are not as many coordinates as nodes");
	for(size_t i=0;i<n;++i){ Pos p=w.pos(x.routing[i]); if(!near_float(g.lat[i],p.lat)||!near_float(g.lon[i],p.lon)) fail("coordinates","node "+S(i)+" (OSM "+S(x.routing[i])+") is at the wrong place"); }
	if(g.head.size()!=m||g.dist.size()!=m) fail("arcs","the graph has "+S(g.head.size())+" arcs instead of "+S(m));
	if(g.has_way&&(g.way.size()!=m||g.anti.size()!=m)) fail("arcs","array sizes differ"); if(o.kind==1&&g.time.size()!=m) fail("arcs","array sizes differ"); if(o.kind==3&&g.comfort.size()!=m) fail("arcs","array sizes differ");
	if(g.first_out[0]!=0||g.first_out[n]!=m) fail("order","first_out does not cover the arcs"); std::vector<unsigned>tail(m); for(size_t i=0;i<n;++i){ if(g.first_out[i]>g.first_out[i+1]) fail("order","first_out is not sorted"); for(unsigned a=g.first_out[i];a<g.first_out[i+1];++a) tail[a]=(unsigned)i; }
	bool gext=g.has_geo; if(gext&&(g.first_geo.size()!=m+1||g.first_geo[m]!=g.glat.size()||g.glat.size()!=g.glon.size())) fail("geometry","geometry arrays do not fit"); if(!gext&&o.kind==0&&(!g.first_geo.empty()||!g.glat.empty())) fail("geometry","geometry returned although none was asked for");
	checked(n+m);
	std::vector<Arc>arcs(m); std::vector<bool>taken(m); std::map<unsigned,const MWay*>by; for(auto&y:w.m.ways) if(x.wid.count(y.id)) by[x.wid.at(y.id)]=&y;
	for(size_t a=0;a<m;++a){
		if(a&&tail[a]==tail[a-1]&&g.head[a]<g.head[a-1]) fail("order","arcs of one node are not sorted by head");
		std::vector<Pos>geo; if(gext){ if(g.first_geo[a]>g.first_geo[a+1]||g.first_geo[a+1]>g.glat.size()) fail("geometry","geometry offsets are wrong"); for(unsigned i=g.first_geo[a];i<g.first_geo[a+1];++i){ Pos p=snap(g.glat[i],g.glon[i]); if(!near_float(g.glat[i],p.lat)||!near_float(g.glon[i],p.lon)) fail("geometry","a point of the geometry is no node of the map"); geo.push_back(p); } }
		bool found=false; // arcs with the same ends may come in any order
		size_t lo=std::lower_bound(x.arcs.begin(),x.arcs.end(),std::make_pair(tail[a],g.head[a]),[](const Arc&p,const std::pair<unsigned,unsigned>&q){ return p.tail!=q.first?p.tail<q.first:p.head<q.second; })-x.arcs.begin();
		size_t best=m; double diff=0; for(size_t i=lo;i<m&&x.arcs[i].tail==tail[a]&&x.arcs[i].head==g.head[a];++i) if(!taken[i]){ const Arc&e=x.arcs[i];
			bool ok=dist_ok(e.dist,e.segs,g.dist[a]); if(g.has_way) ok=ok&&e.way==g.way[a]&&e.anti==g.anti[a];
			if(gext){ std::vector<Pos>k=e.geo; if(o.geo!=2&&k.size()>2) k={k.front(),k.back()}; ok=ok&&k==geo; }
			if(o.kind==1&&ok){ unsigned sp=get_osm_way_speed(by[e.way]->id,tag_map(by[e.way]->tags)); uint64_t t=(uint64_t)g.dist[a]*18000/sp/5; ok= g.time[a]==std::min<uint64_t>(t,2147483647u); }
			if(o.kind==3&&ok) ok=get_osm_way_bicycle_comfort_level(by[e.way]->id,tag_map(by[e.way]->tags))==g.comfort[a];
			double d=fabs(e.dist-(double)g.dist[a]); if(ok&&(best==m||d<diff)){ best=i; diff=d; } }
		if(best!=m){ taken[best]=true; found=true; arcs[a]=x.arcs[best]; }
		if(!found) fail("arcs","arc "+S(a)+" from "+S(tail[a])+" to "+S(g.head[a])+" of length "+S(g.dist[a])+(o.kind==1?" and travel time "+S(g.time[a]):"")+(g.has_way?" on way "+S(g.way[a])+(g.anti[a]?" backward":" forward"):"")+" does not correspond to the map");
	}
	if(g.ff.size()!=g.ft.size()) fail("turns","sizes of forbidden turn arrays differ"); for(size_t i=0;i<g.ff.size();++i){ if(g.ff[i]>=m||g.ft[i]>=m||g.head[g.ff[i]]!=tail[g.ft[i]]) fail("turns","a forbidden turn consists of arcs that do not meet"); if(i&&!(g.ff[i-1]<g.ff[i]||(g.ff[i-1]==g.ff[i]&&g.ft[i-1]<g.ft[i]))) fail("turns","forbidden turns are not sorted or contain duplicates"); }
	Turns must,maybe; if(o.kind==1||(o.kind==0&&o.turns)) forbidden(w,x,o.kind==0?arcs:x.arcs,must,maybe,reach);
	checked(g.ff.size()+1);
	if(o.kind==0){
		Turns got; for(size_t i=0;i<g.ff.size();++i) got.insert({g.ff[i],g.ft[i]});
		for(auto&p:must) if(!got.count(p)) fail("turns","the turn from arc "+S(p.first)+" to arc "+S(p.second)+" should be forbidden but is not"); for(auto&p:got) if(!must.count(p)&&!maybe.count(p)) fail("turns","the turn from arc "+S(p.first)+" to arc "+S(p.second)+" is forbidden but should not be");
	}else{ // without way IDs: by the nodes of the turn
		typedef std::vector<unsigned>T; std::map<T,int>a,b,c; for(auto&p:must) ++a[T{x.arcs[p.first].tail,x.arcs[p.first].head,x.arcs[p.second].head}]; for(auto&p:maybe) if(!must.count(p)) ++b[T{x.arcs[p.first].tail,x.arcs[p.first].head,x.arcs[p.second].head}]; for(size_t i=0;i<g.ff.size();++i) ++c[T{tail[g.ff[i]],g.head[g.ff[i]],g.head[g.ft[i]]}];
		for(auto&p:a) if(c[p.first]<p.second) fail("turns","a turn at node "+S(p.first[1])+" should be forbidden but is not"); for(auto&p:c) if(p.second>a[p.first]+b[p.first]) fail("turns","a turn at node "+S(p.first[1])+" is forbidden but should not be");
	}
	if(!must.empty()) reach[3]=true;
}
World make_world(const Mode&o,Rng&r,unsigned nn,unsigned nw,unsigned nr,uint64_t base){
	World w; std::set<Pos>ps; std::set<uint64_t>ids; uint64_t span= r.chance(1,4)?400000:nn*3+8; int64_t ext= r.chance(1,2)?6:r.chance(1,2)?400:80000; int64_t clat=(int64_t)r.below(100000)-50000,clon=(int64_t)r.below(240000)-120000; if(ext>1000) clat=clon=0; if(nn>100&&ext<400) ext=400;
	for(unsigned i=0;i<nn;++i){ uint64_t id; do id=r.below(span)+(base&&r.chance(1,2)?base:0); while(!ids.insert(id).second); Pos p; do p={clat+(int64_t)r.below(2*ext+1)-ext,clon+(int64_t)r.below(2*ext+1)-ext}; while(!ps.insert(p).second); Tags t; if(r.chance(1,6)) t.push_back({"rn","1"}); if(r.chance(1,6)) t.push_back({"name",rnd_string(r)}); w.m.nodes.push_back({id,p.lat*STEP,p.lon*STEP,t}); }
	if(r.chance(1,2)) std::sort(w.m.nodes.begin(),w.m.nodes.end(),[](const MNode&a,const MNode&b){ return a.id<b.id; });
	for(size_t i=0;i<w.m.nodes.size();++i) w.node_at[w.m.nodes[i].id]=i;
	std::set<uint64_t>wids; uint64_t wspan= r.chance(1,4)?300000:nw*3+8;
	for(unsigned i=0;i<nw;++i){ MWay y; do y.id=r.below(wspan); while(!wids.insert(y.id).second); unsigned k=(unsigned)(r.chance(1,8)?r.below(2):2+r.below(r.chance(1,5)?14:5)); bool hub=r.chance(1,2); for(unsigned j=0;j<k;++j) y.refs.push_back(w.m.nodes[hub&&r.chance(1,3)?r.below(std::min<unsigned>(nn,3)):r.below(nn)].id); if(r.chance(1,8)&&y.refs.size()>2) y.refs.back()=y.refs.front();
		if(o.kind==0){ if(!r.chance(1,5)) y.tags.push_back({"use","1"}); static const char*d[]={"f","b","c"}; if(r.chance(2,5)) y.tags.push_back({"dir",d[r.below(3)]}); }
		else { static const char*h[]={"residential","primary","motorway","footway","cycleway","track","nothing","tertiary","service"},*ow[]={"yes","-1","no","reversible","1"},*sp[]={"50","100","30 mph","walk","7","signals"}; if(!r.chance(1,10)) y.tags.push_back({"highway",h[r.below(9)]}); if(r.chance(1,3)) y.tags.push_back({"oneway",ow[r.below(5)]}); if(r.chance(1,3)) y.tags.push_back({"maxspeed",sp[r.below(6)]}); if(r.chance(1,12)) y.tags.push_back({"route","ferry"}); if(r.chance(1,10)) y.tags.push_back({"junction","roundabout"}); if(r.chance(1,10)) y.tags.push_back({"access","no"}); }
		if(r.chance(1,4)) y.tags.push_back({"name",rnd_string(r)}); w.m.ways.push_back(y); }
	static const char*dn[]={"left_turn","right_turn","straight_on","u_turn"};
	for(unsigned i=0;i<nr;++i){ MRel q; q.id=i*2+1; if(w.m.ways.empty()||r.chance(1,8)){ q.members.push_back({(int)r.below(3),r.below(90),"outer"}); if(r.chance(1,2)) q.tags.push_back({"type","multipolygon"}); w.m.rels.push_back(q); continue; }
		bool only=r.chance(1,3); int d=(int)r.below(4); const MWay*f=&w.m.ways[r.below(w.m.ways.size())],*t=&w.m.ways[r.below(w.m.ways.size())]; uint64_t via= f->refs.empty()?7:f->refs[r.below(f->refs.size())];
		if(!r.chance(1,4)) for(int k=0;k<12;++k){ const MWay*c=&w.m.ways[r.below(w.m.ways.size())]; if(std::find(c->refs.begin(),c->refs.end(),via)!=c->refs.end()){ t=c; if(c!=f) break; } }
		bool hv=!r.chance(1,5); if(!hv&&f==t&&only) hv=true; // a mandatory turn onto the same way without a via node has no agreed meaning
		std::vector<uint64_t>fs{f->id},ts{t->id}; if(!only&&r.chance(1,8)) ts.push_back(w.m.ways[r.below(w.m.ways.size())].id); if(r.chance(1,12)) fs[0]=777777; 
		q.tags.push_back({"type","restriction"}); q.tags.push_back({"restriction",std::string(only?"only_":"no_")+dn[d]});
		for(uint64_t a:fs) q.members.push_back({1,a,"from"}); if(hv) q.members.push_back({0,via,"via"}); for(uint64_t a:ts) q.members.push_back({1,a,"to"}); if(r.chance(1,8)) q.members.push_back({0,3,"location_hint"});
		bool swap_=r.chance(1,3); if(swap_) std::reverse(q.members.begin(),q.members.end());
		w.m.rels.push_back(q); for(uint64_t a:fs) for(uint64_t b:ts) w.restr.push_back({only,d,a,via,b,hv}); }
	return w;
}
}
SCENARIO(osm_graph){
	Mode o; unsigned k=(unsigned)draw(7); o.kind= k<4?0:(int)k-3; o.all=chance(1,4); o.node_cb=chance(1,3); o.way_cb=!chance(1,6); o.turns=!chance(1,3); o.log=chance(1,4); o.geo=(int)draw(3);
	unsigned nn=1+(unsigned)skewed(1,tier?60:30),nw=(unsigned)skewed(0,tier?20:10),nr=(unsigned)skewed(0,12); Rng r(draw(1ull<<32)+1); uint64_t base=0;
	unsigned large=(unsigned)draw(6000); // sizes and identifiers of real maps, now and then
	if(large>=5900){ nn=300+(unsigned)draw(900); nw=60+(unsigned)draw(600); nr=(unsigned)draw(60); feature(29); } else if(large>=5897&&mem_available()){ base=1ull<<32; nn+=20; nw+=20; feature(30); }
	GenMap g; World w=make_world(o,r,nn,nw,nr,base); g.map=w.m; bool ordered=chance(1,2); o.flag=ordered&&chance(1,2); random_layout(g,ordered,nn>100?300:1+(unsigned)draw(6),r,chance(1,4));
	// coordinates are multiples of 0.001 degree, every offset and granularity of random_layout divides them
	std::vector<Span>spans; unsigned need; std::string bytes=encode_file(g.map,g.lay,~0ull,Corrupt(),&spans,&need),file=scratch+"map.osm.pbf";
	Want x=expect(w,[&](const MWay&y){ return used_way(o,y); },[&](const MWay&y){ return dir_of(o,y); },flagged_nodes(w,o),o.all);
	unsigned v=(unsigned)draw(12); if(base) v=0; bool must=false; std::string what="no fault"; unsigned clients= v<6&&!base&&chance(1,6)?2:1;
	if(v==6){ plan_fault(S_READ,skewed(0,30),K_EIO); what="read error"; } else if(v==7){ plan_fault(S_OPEN,draw(2),chance(1,2)?K_EMFILE:K_EIO); what="open fails"; must=true; } else if(v==8){ plan_fault(S_THREAD,draw(7),K_EAGAIN); what="thread creation fails"; } else if(v==9){ plan_fault(S_ALLOC,skewed(0,300),K_NOMEM); what="allocation fails"; }
	else if(v==10&&!spans.empty()){ const Span&s=spans[draw(spans.size())]; bytes.resize(s.begin+1+draw(s.end-s.begin-1)); what="file cut off"; must=true; } else if(v==11){ plan_fault(S_SEEK,draw(4),K_EIO); what="seek fails"; }
	if(chance(1,2)) fault_prob(S_READ,K_SHORT,1,2,1u<<30); if(chance(1,4)) fault_prob(S_READ,K_EINTR,1,6); if(chance(1,4)){ allow_spurious=true; fault_prob(S_COND,K_SPURIOUS,1,8); }
	note((o.kind==0?"general":o.kind==1?"car":o.kind==2?"pedestrian":"bicycle")+std::string(" graph of ")+S(nn)+" nodes, "+S(nw)+" ways, "+S(nr)+" relations in "+S(g.lay.blocks.size())+" blocks"+(base?", identifiers above 2^32":"")+(o.all?", all nodes are routing nodes":"")+", geometry "+S((uint64_t)o.geo)+(o.turns?", turn restrictions":"")+"; "+what);
	feature((int)v); if(clients>1) feature(12); feature(16+o.kind);
	write_file(file,bytes); simulated_pbf_block_size=need+(chance(1,3)?(unsigned)draw(200):0);
	std::vector<Got>got(clients); std::vector<std::vector<uint64_t>>rn(clients),mn(clients),rw(clients); bool threw=false; std::string err;
	begin_threads(); mem_reset(); mem_faults_armed= v==9;
	if(clients==1){
		try{ extract(file,o,got[0],&rn[0],&mn[0],&rw[0]); }catch(std::exception&e){ mem_faults_armed=false; threw=true; Frozen z; err=e.what(); }
	}else{ for(unsigned c=0;c<clients;++c) spawn([&,c]{ try{ extract(file,o,got[c],&rn[c],&mn[c],&rw[c]); }catch(std::exception&e){ Frozen z; threw=true; err=e.what(); } }); join_all(); }
	mem_faults_armed=false; uint64_t io_err=io_fault_errors+fired(S_THREAD); end_threads(); uint64_t live=mem_live();
	SIM_CHECK(open_fd_count()==0,"open_file","a file is still open after the extraction ("+what+")");
	if(clients==1) leak_check(live,"after the extraction ("+what+")"); mem_stop();
	if(must||io_err) SIM_CHECK(threw,"error_swallowed","a graph was returned although the file could not be read completely ("+what+")");
	if(threw){ checked(); feature(13); if(!must&&!io_err&&!(v==9&&fired(S_ALLOC))) violation("spurious_error","the extraction failed without reason ("+what+"): "+err); return; }
	bool reach[4]={false,false,false,false};
	for(unsigned c=0;c<clients;++c){
		if(o.kind==0){ SIM_CHECK(rn[c]==x.routing,"mapping","the set of routing nodes is wrong"); SIM_CHECK(mn[c]==x.modelling,"mapping","the set of modelling nodes is wrong"); SIM_CHECK(rw[c]==x.ways,"mapping","the set of routing ways is wrong"); SIM_CHECK(!got[c].wrong_way_id,"mapping","the way callback got a wrong local way ID"); if(o.way_cb){ std::vector<uint64_t>s=got[c].way_calls; std::sort(s.begin(),s.end()); SIM_CHECK(s==x.ways,"mapping","the way callback was not called once for every routing way"); } }
		compare(w,o,x,got[c],reach);
	}
	if(reach[0]) feature(24); if(reach[1]) feature(25); if(reach[2]) feature(26); if(x.arcs.size()>20) feature(27); if(o.geo==2&&o.kind==0) feature(28); feature(14); observe(x.arcs.size()); observe(got[0].ff.size());
}
