// P15: concurrent lookups in the spatial node index.
#include "common.h"
#include <routingkit/geo_position_to_node.h>
#include <math.h>
using namespace RoutingKit;
namespace{
struct Pt{ float lat,lon; };
double true_dist(Pt a,Pt b){ // great-circle distance, computed so that it is accurate for near and for opposite points
	const double k=3.14159265358979323846/180,R=6371000.785; double la=a.lat*k,lo=a.lon*k,lb=b.lat*k,mo=b.lon*k;
	double x=cos(la)*cos(lo)-cos(lb)*cos(mo),y=cos(la)*sin(lo)-cos(lb)*sin(mo),z=sin(la)-sin(lb),c=sqrt(x*x+y*y+z*z)/2; return 2*R*asin(std::min(1.0,c));
}
bool finite_bits(float f){ uint32_t u; memcpy(&u,&f,4); return (u&0x7f800000u)!=0x7f800000u; }
struct Ask{ Pt q; float radius; bool all; };
struct Answer{ unsigned id=0; float dist=0; std::vector<GeoPositionToNode::NearestNeighborhoodQueryResult>all; bool threw=false; };
float bound(double x,double m){ return (float)std::max(-m,std::min(m,x)); }
}
SCENARIO(geo_lookup){
	unsigned n=(unsigned)skewed(0,tier?400:200); bool large=chance(1,150); if(large) sync_budget=2000000; if(large){ n= chance(1,3)?65000+(unsigned)draw(3000):1000+(unsigned)draw(9000); feature(13); } unsigned shape=(unsigned)draw(8); Rng r(draw(1ull<<32)+1);
	static const char*names[]={"city","country","world","around the date line","around a pole","few places with many duplicates","town at the origin","one place"};
	double clat=0,clon=0,ext=0.02; if(shape==6) ext=0.0001*pow(10,(double)r.below(4)); else if(shape==7){ clat=(double)r.below(180)-90; clon=(double)r.below(360)-180; ext=0; } else if(shape==0){ clat=(double)r.below(160)-80; clon=(double)r.below(340)-170; ext=0.0001*pow(10,(double)r.below(4)); } else if(shape==1){ clat=(double)r.below(120)-60; clon=(double)r.below(300)-150; ext=5; } else if(shape==3){ clat=(double)r.below(100)-50; clon=180; ext=r.chance(1,2)?0.01:3; } else if(shape==4){ clat=r.chance(1,2)?90:-90; ext=r.chance(1,2)?0.01:5; }
	auto place=[&]()->Pt{ double u=(double)r.below(2000001)/1000000-1,v=(double)r.below(2000001)/1000000-1;
		if(shape==2) return {bound(u*90,90),bound(v*180,180)}; if(shape==4) return {bound(clat-(clat>0?1:-1)*fabs(u)*ext,90),bound(v*180,180)}; if(shape==5) return {bound(40+(double)r.below(3),90),bound(7+(double)r.below(2)*0.001,180)};
		double lo=clon+v*ext; if(lo>180) lo-=360; return {bound(clat+u*ext,90),bound(lo,180)}; };
	std::vector<float>lat,lon; std::vector<Pt>pts; for(unsigned i=0;i<n;++i){ Pt p= !pts.empty()&&r.chance(1,12)?pts[r.below(pts.size())]:place(); if(shape==2&&!pts.empty()&&r.chance(1,30)){ Pt q=pts[r.below(pts.size())]; p={-q.lat,q.lon>0?q.lon-180:q.lon+180}; } pts.push_back(p); lat.push_back(p.lat); lon.push_back(p.lon); }
	unsigned clients=1+(unsigned)draw(3),per=1+(unsigned)draw(6); std::vector<std::vector<Ask>>ask(clients); std::vector<std::vector<Answer>>got(clients);
	for(auto&a:ask){ for(unsigned i=0;i<per;++i){ Ask k; k.q= n&&r.chance(1,3)?pts[r.below(n)]:place(); if(r.chance(1,5)){ k.q.lat=bound(k.q.lat+((double)r.below(1001)-500)*0.0001,90); } double d= n?true_dist(k.q,pts[r.below(n)]):100; static const double f[]={0.5,1.0,1.3,3}; unsigned c=(unsigned)r.below(6); k.radius= c<4?(float)(d*f[c]+0.01):c==4?(float)(1+r.below(3000)):3e7f; if(r.chance(1,6)||(shape==7&&r.chance(1,2))){ k.radius=0; if(n) k.q=pts[r.below(n)]; } k.all=r.chance(1,2); a.push_back(k); } }
	bool nomem=chance(1,5); unsigned fault= nomem?(unsigned)skewed(0,30):0; bool moved=chance(1,4);
	note(S(n)+" points ("+names[shape]+"), "+S(clients)+" clients with "+S(per)+" lookups each"+(nomem?", allocation "+S(fault)+" fails":"")); if(shape<6) feature((int)shape); else feature(5+(int)shape); if(clients>1) feature(6); if(nomem) feature(7);
	GeoPositionToNode idx(lat,lon); if(moved){ GeoPositionToNode t(std::move(idx)); idx=t; }
	SIM_CHECK(idx.point_count()==n,"size","the index does not contain as many points as given");
	std::vector<unsigned>ids=idx.point_id; std::vector<GeoPositionToNode::PointPosition>pos=idx.point_position;
	{ std::vector<bool>seen(n); SIM_CHECK(ids.size()==n&&pos.size()==n,"size","the index does not contain as many points as given"); for(unsigned i=0;i<n;++i){ SIM_CHECK(ids[i]<n&&!seen[ids[i]],"points","the index lost or invented a point"); seen[ids[i]]=true; SIM_CHECK(pos[i].latitude==lat[ids[i]]&&pos[i].longitude==lon[ids[i]],"points","a point of the index moved"); } }
	for(unsigned c=0;c<clients;++c) got[c].resize(per);
	auto client=[&](unsigned c){ for(unsigned i=0;i<per;++i){ const Ask&k=ask[c][i]; Answer&a=got[c][i]; try{ if(k.all){ auto v=idx.find_all_nodes_within_radius(k.q.lat,k.q.lon,k.radius); Frozen z; a.all.assign(v.begin(),v.end()); } else { auto x=idx.find_nearest_neighbor_within_radius(k.q.lat,k.q.lon,k.radius); a.id=x.id; a.dist=x.distance; } }catch(std::bad_alloc&){ a.threw=true; } } };
	if(nomem) plan_fault(S_ALLOC,fault,K_NOMEM);
	begin_threads(); mem_reset(); mem_faults_armed=nomem;
	if(clients==1) client(0); else { for(unsigned c=0;c<clients;++c){ Frozen z; spawn([&,c]{ client(c); }); } join_all(); }
	mem_faults_armed=false; end_threads(); mem_stop();
	uint64_t thrown=0;
	for(unsigned i=0;i<n;++i) if(idx.point_id[i]!=ids[i]||idx.point_position[i].latitude!=pos[i].latitude||idx.point_position[i].longitude!=pos[i].longitude) violation("index_changed","a lookup changed the index");
	checked();
	for(unsigned c=0;c<clients;++c) for(unsigned i=0;i<per;++i){ const Ask&k=ask[c][i]; const Answer&a=got[c][i]; std::string w="client "+S(c)+" lookup "+S(i)+" of "+(k.all?"all":"nearest")+" at ("+std::to_string(k.q.lat)+","+std::to_string(k.q.lon)+") radius "+std::to_string(k.radius)+": ";
		if(a.threw){ ++thrown; continue; }
		std::vector<double>d(n); double far=0,best=1e30; for(unsigned j=0;j<n;++j){ d[j]=true_dist(k.q,pts[j]); best=std::min(best,d[j]); far=std::max(far,d[j]); }
		// rounding: the tree is built with single-precision distances, whose error explodes for nearly opposite points
		double tol= shape==2?6000:10+1e-6*far,acc=1+1e-6*far; if(shape==6){ acc=0.3+1e-6*far; tol=0.6+1e-5*far; } bool together=shape==7&&n&&k.q.lat==pts[0].lat&&k.q.lon==pts[0].lon; if(together){ acc=0.3; tol=0.3; } // the cosine formula is off by up to 0.2 m for equal positions
		if(k.all){ if(together) SIM_CHECK(a.all.empty()||a.all.size()==n,"all_nodes",w+"only "+S(a.all.size())+" of "+S(n)+" nodes at the same position were found"); std::vector<bool>in(n); for(auto&x:a.all){ SIM_CHECK(x.id<n&&!in[x.id],"all_nodes",w+"a node is invalid or returned twice"); in[x.id]=true; SIM_CHECK(finite_bits(x.distance)&&fabs((double)x.distance-d[x.id])<=acc,"distance",w+"node "+S(x.id)+" has distance "+std::to_string(d[x.id])+", not "+std::to_string(x.distance)); SIM_CHECK(d[x.id]<=k.radius+acc,"all_nodes",w+"node "+S(x.id)+" is outside of the radius"); }
			for(unsigned j=0;j<n;++j) SIM_CHECK(in[j]||d[j]>k.radius-tol,"all_nodes",w+"node "+S(j)+" at distance "+std::to_string(d[j])+" is missing"); if(!a.all.empty()) feature(8);
		}else{
			if(a.id==4294967295u){ SIM_CHECK(best>k.radius-tol,"nearest",w+"no node found although there is one at distance "+std::to_string(best)); feature(9); }
			else { SIM_CHECK(a.id<n,"nearest",w+"an invalid node was returned"); SIM_CHECK(finite_bits(a.dist)&&fabs((double)a.dist-d[a.id])<=acc,"distance",w+"node "+S(a.id)+" has distance "+std::to_string(d[a.id])+", not "+std::to_string(a.dist)); SIM_CHECK(d[a.id]<=k.radius+acc,"nearest",w+"the node found is outside of the radius"); SIM_CHECK(d[a.id]<=best+tol,"nearest",w+"node "+S(a.id)+" at distance "+std::to_string(d[a.id])+" was returned although there is one at distance "+std::to_string(best)); feature(10); } }
	}
	SIM_CHECK(thrown<=fired(S_ALLOC),"spurious_error","a lookup threw although no allocation failed");
	observe(thrown); for(auto&c:got) for(auto&a:c) observe(a.id*31+a.all.size());
}
