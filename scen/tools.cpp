// P13: the command-line tools, run in-process on files behind the fault-injecting disk.
#include "graph.h"
#include "mapgen.h"
#include <routingkit/vector_io.h>
#include <routingkit/contraction_hierarchy.h>
#include <routingkit/osm_graph_builder.h>
#include <routingkit/osm_profile.h>
#include <routingkit/geo_dist.h>
#include <routingkit/id_mapper.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <array>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <streambuf>
using namespace RoutingKit;
namespace RoutingKit{ extern unsigned simulated_pbf_block_size; }
namespace{
typedef std::vector<unsigned>V32;
struct ErrBuf:std::streambuf{ char b[4096]; ErrBuf(){ setp(b,b+sizeof b); } int overflow(int c)override{ setp(b,b+sizeof b); if(c!=EOF) sputc((char)c); return 0; } std::string text(){ return std::string(pbase(),pptr()); } void clear(){ setp(b,b+sizeof b); } };
ErrBuf errbuf;
// ---- plain files, written and read by the harness without faults
void put(const std::string&p,const void*d,size_t n){ int fd=(int)syscall(SYS_openat,AT_FDCWD,p.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); const char*c=(const char*)d; while(n){ ssize_t k=syscall(SYS_write,fd,c,n); if(k<=0) internal_error("cannot write scratch file"); c+=k; n-=(size_t)k; } syscall(SYS_close,fd); }
void put(const std::string&p,const std::string&s){ put(p,s.data(),s.size()); }
template<class T>void putv(const std::string&p,const std::vector<T>&v){ put(p,v.data(),v.size()*sizeof(T)); }
bool get(const std::string&p,std::string&s){ s.clear(); int fd=(int)syscall(SYS_openat,AT_FDCWD,p.c_str(),O_RDONLY,0); if(fd<0) return false; char b[65536]; for(;;){ ssize_t k=syscall(SYS_read,fd,b,sizeof b); if(k<=0) break; s.append(b,(size_t)k); } syscall(SYS_close,fd); return true; }
template<class T>bool getv(const std::string&p,std::vector<T>&v){ std::string s; if(!get(p,s)||s.size()%sizeof(T)) return false; v.resize(s.size()/sizeof(T)); memcpy(v.data(),s.data(),s.size()); return true; }
struct Outcome{ bool reported=false; std::string out,why; };
struct Call{ std::string tool; std::vector<std::string>args; std::string in; long in_fail=-1,out_limit=-1; bool alloc=false; };
typedef int(*Main)(int,char**);
Main find_main(const std::string&tool){ const char*d=getenv("SIM_TOOLDIR"); std::string p=std::string(d?d:"")+"/tool_"+tool+".so"; void*h=dlopen(p.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h) return nullptr; return (Main)dlsym(h,"main"); }
// Standard input and output are real descriptors: an input error is a read of unmapped memory (EIO), an output error a file size limit.
void run_tool(const Call&c,Outcome&o,bool faults){
	Main m=find_main(c.tool); if(!m) internal_error("cannot load tool "+c.tool+": "+(dlerror()?:""));
	std::string of=scratch+"stdout.txt"; fflush(stdout); __fpurge(stdin); clearerr(stdin); clearerr(stdout); std::cin.clear(); std::cout.clear(); std::cerr.clear(); errbuf.clear(); std::cerr.rdbuf(&errbuf);
	int fd; std::string text=c.in; bool fail=faults&&c.in_fail>=0;
	if(fail){ text.resize(std::min<size_t>(text.size(),(size_t)c.in_fail)); size_t pg=4096,len=(text.size()+pg-1)/pg*pg; char*p=(char*)mmap(nullptr,len+pg,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); memcpy(p+len-text.size(),text.data(),text.size()); munmap(p+len,pg); fd=(int)syscall(SYS_openat,AT_FDCWD,"/proc/self/mem",O_RDONLY,0); if(fd<0) internal_error("cannot open /proc/self/mem"); syscall(SYS_lseek,fd,(off_t)(p+len-text.size()),SEEK_SET); shm->fired[S_READ][K_EIO]++; }
	else { put(scratch+"stdin.txt",text); fd=(int)syscall(SYS_openat,AT_FDCWD,(scratch+"stdin.txt").c_str(),O_RDONLY,0); }
	dup2(fd,0); syscall(SYS_close,fd);
	fd=(int)syscall(SYS_openat,AT_FDCWD,of.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); dup2(fd,1); syscall(SYS_close,fd);
	std::vector<std::string>a; a.push_back(c.tool); for(auto&x:c.args) a.push_back(x); std::vector<char*>argv; for(auto&x:a) argv.push_back(&x[0]); argv.push_back(nullptr);
	struct rlimit old; bool lim=faults&&c.out_limit>=0; if(lim){ signal(SIGXFSZ,SIG_IGN); getrlimit(RLIMIT_FSIZE,&old); struct rlimit l=old; l.rlim_cur=(rlim_t)c.out_limit; setrlimit(RLIMIT_FSIZE,&l); shm->fired[S_WRITE][K_ENOSPC]++; }
	int ret=0; std::string thrown;
	mem_faults_armed=faults&&c.alloc; io_faults_on=faults;
	try{ ret=m((int)a.size(),argv.data()); }catch(std::exception&e){ mem_faults_armed=false; thrown=e.what(); ret=-1; }catch(...){ mem_faults_armed=false; ret=-1; }
	mem_faults_armed=false; io_faults_on=true;
	fflush(stdout); if(lim) setrlimit(RLIMIT_FSIZE,&old);
	__fpurge(stdout); clearerr(stdout);
	get(of,o.out); std::string e=errbuf.text(); if(c.tool=="examine_ch"){ std::string ok="Loading ... "; if(e.compare(0,ok.size(),ok)==0) e.erase(0,ok.size()); if(e.compare(0,5,"done\n")==0) e.erase(0,5); }
	bool told= c.tool=="osm_extract"&&o.out.find("xception")!=std::string::npos;
	o.reported= ret!=0||!e.empty()||told; o.why= told?o.out.substr(o.out.find("xception")-1,200):ret!=0?"status "+std::to_string(ret)+" "+thrown+e:e;
}
std::vector<double> numbers(const std::string&s){ std::vector<double>v; for(size_t i=0;i<s.size();){ if(isdigit((unsigned char)s[i])||(s[i]=='-'&&i+1<s.size()&&isdigit((unsigned char)s[i+1]))){ char*e; v.push_back(strtod(s.c_str()+i,&e)); i=(size_t)(e-s.c_str()); } else ++i; } return v; }
struct Csr{ V32 first,head,w; };
Csr csr(const Graph&g){ Csr c; std::vector<unsigned>p(g.m()); for(unsigned i=0;i<p.size();++i) p[i]=i; std::stable_sort(p.begin(),p.end(),[&](unsigned a,unsigned b){ return g.tail[a]!=g.tail[b]?g.tail[a]<g.tail[b]:g.head[a]<g.head[b]; }); c.first.assign(g.n+1,0); for(unsigned a:p){ ++c.first[g.tail[a]+1]; c.head.push_back(g.head[a]); c.w.push_back(g.w[a]); } for(unsigned i=0;i<g.n;++i) c.first[i+1]+=c.first[i]; return c; }
typedef std::vector<std::array<unsigned,3>>Arcs;
Arcs arcs_of(const Graph&g){ Arcs a; for(unsigned i=0;i<g.m();++i) a.push_back({g.tail[i],g.head[i],g.w[i]}); std::sort(a.begin(),a.end()); return a; }
bool arcs_of(const V32&f,const V32&h,const V32&w,unsigned n,Arcs&a,bool sorted){ if(f.size()!=n+1||f[0]!=0||f[n]!=h.size()||w.size()!=h.size()) return false; for(unsigned x=0;x<n;++x){ if(f[x]>f[x+1]) return false; for(unsigned e=f[x];e<f[x+1];++e){ if(h[e]>=n) return false; if(sorted&&e>f[x]&&h[e-1]>h[e]) return false; a.push_back({x,h[e],w[e]}); } } std::sort(a.begin(),a.end()); return true; }
}
SCENARIO(cli_tools){
	static const char*tools[]={"encode_vector","decode_vector","compare_vector","convert_road_dimacs_graph","convert_road_dimacs_coordinates","export_road_dimacs_graph","generate_constant_vector","generate_random_node_list","generate_random_source_times","generate_test_queries","generate_dijkstra_rank_test_queries","randomly_permute_nodes","graph_to_dot","graph_to_svg","run_dijkstra","run_contraction_hierarchy_query","compute_contraction_hierarchy","compute_geographic_distance_weights","compute_nested_dissection_order","examine_ch","show_path","osm_extract"};
	unsigned t=(unsigned)draw(22); Call c; c.tool=tools[t]; Rng r(draw(1ull<<32)+1);
	unsigned n=1+(unsigned)skewed(0,t==10?150:24); int shape=(int)draw(8); if(n>60) shape=2; sync_budget=1000000; bool large=chance(1,40); if(large){ n= t==16||t==18||t==21?60+(unsigned)draw(100):100+(unsigned)draw(t==10?400:3000); shape=chance(1,2)?3:7; if(n<700&&chance(1,2)) shape=2; sync_budget=5000000; feature(52); } int style=(int)draw(6); if(style==5) style=6; if(style>3&&t!=10&&(t<14||t==17||t==18)) style=0; Graph g=random_graph(r,n,shape,style); if(g.m()==0&&!chance(1,4)) g.add(0,n-1,5); if((t==3||t==5||t==12)&&r.chance(1,4)) for(auto&x:g.w) if(r.chance(1,3)) x=(unsigned)r.next(); Csr k=csr(g);
	std::string D=scratch; std::string fo=D+"first_out",fh=D+"head",fw=D+"weight",fla=D+"lat",flo=D+"lon",fch=D+"ch",fs=D+"source",ft=D+"target",o1=D+"out1",o2=D+"out2",o3=D+"out3",o4=D+"out4";
	struct In{ std::string path; unsigned unit; bool vec; }; std::vector<In>ins; std::vector<std::string>outs; bool has_in=false,has_out=false;
	std::vector<float>lat,lon; for(unsigned i=0;i<n;++i){ lat.push_back((float)i+0.5f); lon.push_back((float)i); } if(t==13||t==17||t==18) for(unsigned i=0;i<n;++i){ lat[i]=(float)r.below(900)/10.f; lon[i]=(float)r.below(1700)/10.f; } // 13: also all at one place
	if(t==13&&r.chance(1,4)) for(unsigned i=0;i<n;++i) lat[i]=7;
	auto graph_in=[&](bool w){ putv(fo,k.first); putv(fh,k.head); ins.push_back({fo,4,true}); ins.push_back({fh,4,true}); if(w){ putv(fw,k.w); ins.push_back({fw,4,true}); } };
	auto geo_in=[&]{ putv(fla,lat); putv(flo,lon); ins.push_back({fla,4,true}); ins.push_back({flo,4,true}); };
	std::vector<std::string>words; std::function<std::string(const Outcome&)>judge; // "" or what is wrong with the output, given the full input
	std::vector<V32>aux(4); Oracle orc(g,g.w); unsigned q= chance(1,8)?0:1+(unsigned)r.below(large&&r.chance(1,2)?200:12); V32 src,tgt; for(unsigned i=0;i<q;++i){ src.push_back((unsigned)r.below(n)); tgt.push_back((unsigned)r.below(n)); }
	auto dist=[&](unsigned a,unsigned b){ return (unsigned)sat(orc.from(Ends{{a,0}})[b]); };
	auto make_ch=[&]{ ContractionHierarchy ch=ContractionHierarchy::build(n,g.tail,g.head,g.w); ch.save_file(fch); ins.push_back({fch,1,false}); return ch; };
	auto check_dist=[&](const Outcome&)->std::string{ V32 d; if(!getv(o1,d)) return "no distances were written"; if(d.size()!=q) return S(d.size())+" distances were written for "+S(q)+" queries"; for(unsigned i=0;i<q;++i) if(d[i]!=dist(src[i],tgt[i])) return "the distance from "+S(src[i])+" to "+S(tgt[i])+" is given as "+S(d[i])+" instead of "+S(dist(src[i],tgt[i])); return ""; };
	std::string cut_text; bool text_cut=false; size_t last_line=0; // for text inputs: cut only before the last data line
	bool same_only=false; // output must equal that of an undisturbed run (which is judged by itself)
	switch(t){
		case 0: case 1: case 2: {
			static const char*types[]={"int8","uint8","int16","uint16","int32","uint32","int64","uint64","float32","float64","string"}; static const unsigned width[]={1,1,2,2,4,4,8,8,4,8,0}; unsigned ty=(unsigned)draw(11); unsigned cnt= large?(unsigned)r.below(70000):r.chance(1,8)?(unsigned)r.below(5000):(unsigned)r.below(12); std::string bin,bin2,text; 
			std::vector<double>fl; std::vector<std::string>strs; unsigned diff=0,less1=0,less2=0; std::string where; size_t last_bin=0;
			for(unsigned i=0;i<cnt;++i){
				bool differ= t==2&&r.chance(1,10); last_bin=bin2.size();
				if(ty<8){ bool sg=ty%2==0; unsigned bits=width[ty]*8; uint64_t raw= r.chance(1,4)?(r.chance(1,2)?0:~0ull):r.chance(1,3)?(r.chance(1,2)?1ull<<(bits-1):(1ull<<(bits-1))-1):r.next()>>r.below(64); if(bits<64) raw&=(1ull<<bits)-1; bin.append((char*)&raw,width[ty]); uint64_t other=differ?raw^(r.chance(1,2)?1ull:1ull<<r.below(bits)):raw; if(differ){ if(sg? (int64_t)(raw<<(64-bits))<(int64_t)(other<<(64-bits)) : raw<other) ++less1; else ++less2; } bin2.append((char*)&other,width[ty]); if(sg){ int64_t v=(int64_t)(raw<<(64-bits))>>(64-bits); text+=std::to_string(v)+"\n"; } else text+=std::to_string(raw)+"\n"; }
				else if(ty<10){ double v=(double)(int64_t)r.below(2000001)-1000000; v/= r.chance(1,2)?1:1024; if(r.chance(1,6)) v*=1e12; if(r.chance(1,3)){ v=(double)(int64_t)(r.next()>>r.below(60)); if(r.chance(1,2)) v=-v; v*=std::pow(10.,(double)r.below(ty==8?30:200)-(ty==8?25:100)); } fl.push_back(ty==8?(double)(float)v:v); double v2= differ?(r.chance(1,2)?v*1.25+1:v/2-1):v; if(ty==8){ float f=(float)v,f2=(float)v2; bin.append((char*)&f,4); bin2.append((char*)&f2,4); differ= f!=f2; if(f<f2) ++less1; if(f2<f) ++less2; } else { bin.append((char*)&v,8); bin2.append((char*)&v2,8); differ= v!=v2; if(v<v2) ++less1; if(v2<v) ++less2; } std::ostringstream s; s.precision(17); s<<v; text+=s.str()+"\n"; }
				else { std::string s; unsigned len=(unsigned)r.below(r.chance(1,400)?9000:r.chance(1,20)?200:8); for(unsigned j=0;j<len;++j) s+="ab\\n\nxyz\t "[r.below(10)]; strs.push_back(s); bin+=s; bin.push_back(0); std::string s2=s; if(differ){ if(s.empty()||r.chance(1,3)) s2+="q"; else if(r.chance(1,4)) s2.pop_back(); else s2[r.below(s2.size())]='q'; } bin2+=s2; bin2.push_back(0); for(char ch:s) if(ch=='\\') text+="\\\\"; else if(ch=='\n') text+="\\n"; else text+=ch; text+="\n"; }
				if(differ){ if(!diff) where=S(i); ++diff; }
			}
			if(t==0){ if(cnt&&ty!=10&&r.chance(1,4)) text.pop_back(); c.args={types[ty],o1}; c.in=text; has_in=true; outs={o1}; bool isf=ty>=8&&ty<10; unsigned wd=width[ty]; judge=[&,bin,isf,wd,fl](const Outcome&)->std::string{ std::string b; if(!get(o1,b)) return "no file was written"; if(!isf) return b==bin?"":"the binary file has the wrong content"; if(b.size()!=bin.size()) return "the binary file has the wrong size"; for(size_t i=0;i<fl.size();++i){ double v; if(wd==4){ float f; memcpy(&f,&b[i*4],4); v=f; } else memcpy(&v,&b[i*8],8); if(!(std::fabs(v-fl[i])<=(wd==4?2e-7:4e-16)*std::fabs(fl[i]))) return "element "+S(i)+" is wrong"; } return ""; }; }
			else if(t==1){ put(o1,bin); ins.push_back({o1,width[ty],false}); c.args={types[ty],o1}; has_out=true; bool isf=ty>=8&&ty<10; double tol=ty==8?1e-6:2e-15; judge=[&,text,isf,fl,tol](const Outcome&o)->std::string{ if(!isf) return o.out==text?"":"the text is wrong"; std::istringstream s(o.out); std::string l; size_t i=0; while(std::getline(s,l)){ if(i>=fl.size()||!(std::fabs(strtod(l.c_str(),nullptr)-fl[i])<=tol*std::fabs(fl[i]))) return "line "+S(i)+" is wrong"; ++i; } if(!o.out.empty()&&o.out.back()!='\n') return "the text is cut off"; return i==fl.size()?"":"lines are missing"; }; }
			else { bool shorter=cnt&&r.chance(1,8),first=r.chance(1,2); if(shorter) bin2.resize(last_bin); put(first?o2:o1,bin); put(first?o1:o2,bin2); if(first) std::swap(less1,less2); ins.push_back({o1,width[ty],false}); ins.push_back({o2,width[ty],false}); c.args={types[ty],o1,o2}; has_out=true; judge=[&,diff,cnt,where,ty,shorter,less1,less2,first](const Outcome&o)->std::string{ if(shorter) return o.out.find("\""+(first?o1:o2)+"\" has only "+S(cnt-1)+" elements")!=std::string::npos&&o.out.find("has "+S(cnt)+".")!=std::string::npos?"":"the different lengths are not told"; if(diff&&ty!=10&&o.out.find(S(less1)+" elements are smaller in \""+o1+"\"")==std::string::npos) return "the number of smaller elements in the first vector is wrong"; if(diff&&ty!=10&&o.out.find(S(less2)+" elements are smaller in \""+o2+"\"")==std::string::npos) return "the number of smaller elements in the second vector is wrong"; if(diff&&o.out.find(S(cnt-diff)+" elements are the same")==std::string::npos) return "the number of equal elements is wrong"; bool says=o.out.find("vectors are the same and have "+S(cnt)+" elements")!=std::string::npos; if(says!=(diff==0)) return "the verdict is wrong"; if(diff&&o.out.find(S(diff)+" elements are different")==std::string::npos) return "the number of differences is wrong"; if(diff&&ty!=10&&o.out.find("at index "+where+".")==std::string::npos) return "the first difference is wrong"; return ""; }; }
			words.push_back(types[ty]); break; }
		case 3: { std::string s; if(r.chance(1,2)) s+="c a comment\n\n"; s+="p sp "+S(n)+" "+S(g.m())+"\n"; for(unsigned i=0;i<g.m();++i){ if(r.chance(1,6)) s+="c\n"; last_line=s.size(); s+="a "+S(g.tail[i]+1)+" "+S(g.head[i]+1)+" "+S(g.w[i])+"\n"; } if(r.chance(1,4)) s+="\nc end\n"; put(fs,s); text_cut=true; cut_text=s; c.args={fs,o1,o2,o3}; outs={o1,o2,o3}; judge=[&](const Outcome&)->std::string{ V32 f,h,w; Arcs a; if(!getv(o1,f)||!getv(o2,h)||!getv(o3,w)||!arcs_of(f,h,w,n,a,true)) return "the graph is no valid sorted graph"; return a==arcs_of(g)?"":"the arcs are wrong"; }; break; }
		case 4: { std::string s; if(r.chance(1,2)) s+="c a comment\n"; s+="p aux sp co "+S(n)+"\n"; std::vector<long long>x,y; std::vector<std::string>ls; for(unsigned i=0;i<n;++i){ x.push_back((long long)r.below(360000000)-180000000); y.push_back((long long)r.below(180000000)-90000000); if(r.chance(1,6)) x[i]=y[i]=0; ls.push_back("v "+S(i+1)+" "+std::to_string(x[i])+" "+std::to_string(y[i])+"\n"); } for(unsigned i:rnd_perm(r,n)){ if(r.chance(1,6)) s+="c\n"; last_line=s.size(); s+=ls[i]; } put(fs,s); text_cut=true; cut_text=s; c.args={fs,o1,o2}; outs={o1,o2}; judge=[&,x,y](const Outcome&)->std::string{ std::vector<float>a,b; if(!getv(o1,a)||!getv(o2,b)||a.size()!=n||b.size()!=n) return "the coordinates are incomplete"; for(unsigned i=0;i<n;++i) if(std::fabs((double)a[i]-y[i]/1e6)>2e-5||std::fabs((double)b[i]-x[i]/1e6)>2e-5) return "the coordinates of node "+S(i)+" are wrong"; return ""; }; break; }
		case 5: graph_in(true); c.args={fo,fh,fw,o1}; outs={o1}; judge=[&](const Outcome&)->std::string{ std::string s; if(!get(o1,s)) return "no file was written"; std::istringstream in(s); std::string l; Arcs a; bool head=false; if(!s.empty()&&s.back()!='\n') return "the last line is not terminated"; while(std::getline(in,l)){ if(l.empty()||l[0]=='c') continue; std::vector<double>v=numbers(l); if(l[0]=='p'){ if(v.size()!=2||v[0]!=n||v[1]!=(double)g.m()) return "the header is wrong"; head=true; } else { if(v.size()!=3||l[0]!='a') return "a line is no arc"; a.push_back({(unsigned)v[0]-1,(unsigned)v[1]-1,(unsigned)v[2]}); } } std::sort(a.begin(),a.end()); return head&&a==arcs_of(g)?"":"the arcs are wrong"; }; break;
		case 6: { unsigned cnt=(unsigned)r.below(large?80000:3000),val=(unsigned)r.below(1u<<31); c.args={S(cnt),S(val),o1}; outs={o1}; judge=[&,cnt,val](const Outcome&)->std::string{ V32 v; return getv(o1,v)&&v==V32(cnt,val)?"":"the vector is wrong"; }; break; }
		case 7: case 8: { unsigned cnt=(unsigned)r.below(large?9000:60); bool file=r.chance(1,2); if(file){ putv(fs,V32(t==7?n:cnt,3)); ins.push_back({fs,4,false}); } if(t==7) c.args={file?fs:S(n),S(cnt),S(r.below(1000)),o1}; else { putv(ft,V32(1,n)); ins.push_back({ft,4,true}); c.args={file?fs:S(cnt),S(r.below(1000)),ft,o1}; } outs={o1}; same_only=true; judge=[&,cnt](const Outcome&)->std::string{ V32 v; if(!getv(o1,v)||v.size()!=cnt) return "the vector has the wrong size"; for(unsigned x:v) if(x>=n) return "an element is out of range"; if(cnt>=40*n) for(unsigned x=0;x<n;++x) if(std::find(v.begin(),v.end(),x)==v.end()) return "an element never appears"; return ""; }; break; }
		case 9: { unsigned cnt=(unsigned)r.below(large?9000:60); c.args={S(n),S(cnt),S(r.below(1000)),o1,o2}; outs={o1,o2}; same_only=true; judge=[&,cnt](const Outcome&)->std::string{ std::vector<V32>all; for(auto&p:{o1,o2}){ V32 v; if(!getv(p,v)||v.size()!=cnt) return "the vector has the wrong size"; for(unsigned x:v) if(x>=n) return "an element is out of range"; if(cnt>=40*n) for(unsigned x=0;x<n;++x) if(std::find(v.begin(),v.end(),x)==v.end()) return "a node never appears"; all.push_back(v); } return n>1&&cnt>=40&&all[0]==all[1]?"sources and targets are the same":""; }; break; }
		case 10: { graph_in(true); unsigned cnt=(unsigned)r.below(5); c.args={fo,fh,fw,S(cnt),S(r.below(1000)),o1,o2,o3,o4}; outs={o1,o2,o3,o4}; same_only=true; judge=[&](const Outcome&)->std::string{ V32 s,d,k2,w; if(!getv(o1,s)||!getv(o2,d)||!getv(o3,k2)||!getv(o4,w)||s.size()!=d.size()||s.size()!=k2.size()||s.size()!=w.size()) return "the queries are incomplete"; for(size_t i=0;i<s.size();++i){ if(s[i]>=n||d[i]>=n||k2[i]<6||k2[i]>20) return "a query is out of range"; auto ds=orc.from(Ends{{s[i],0}}); unsigned lt=0,le=0,all=0; for(auto x:ds){ if(x>=INF) continue; ++all; lt+=x<w[i]; le+=x<=w[i]; } unsigned R=1u<<k2[i]; if(sat(ds[d[i]])!=w[i]||lt>=R||le<R) return "the rank or distance of a query is wrong"; if((k2[i]==6)!=(i==0||s[i]!=s[i-1]||k2[i-1]>=k2[i])) return "ranks are missing"; bool last= i+1==s.size()||k2[i+1]==6; if(last&&2*R<=all) return "the highest rank is missing"; if(!last&&k2[i+1]!=k2[i]+1) return "ranks are missing"; } return ""; }; break; }
		case 11: { V32 uniq(g.m()); for(unsigned i=0;i<uniq.size();++i) uniq[i]=i; aux[0]=uniq; k.w=uniq; graph_in(true); bool two=r.chance(1,2); V32 w2; for(unsigned i=0;i<uniq.size();++i) w2.push_back((unsigned)r.below(100)); std::string f2=D+"weight2"; if(two){ putv(f2,w2); ins.push_back({f2,4,true}); } c.args={S(r.below(1000)),fo,fh,fw}; if(two) c.args.push_back(f2); outs={fo,fh,fw}; if(two) outs.push_back(f2); same_only=true;
			judge=[&,two,w2,f2](const Outcome&)->std::string{ V32 f,h,w,x2; Arcs dummy; if(!getv(fo,f)||!getv(fh,h)||!getv(fw,w)||!arcs_of(f,h,w,n,dummy,true)) return "the graph is no valid sorted graph"; if(h.size()!=g.m()) return "arcs are missing"; if(two&&(!getv(f2,x2)||x2.size()!=g.m())) return "the second weight is incomplete"; std::vector<int>map(n,-1),inv(n,-1); std::vector<bool>seen(g.m()); V32 tail0(g.m()); for(unsigned x=0;x<n;++x) for(unsigned e=k.first[x];e<k.first[x+1];++e) tail0[e]=x; auto bind=[&](unsigned a,unsigned b){ if(map[a]==-1&&inv[b]==-1){ map[a]=(int)b; inv[b]=(int)a; return true; } return map[a]==(int)b&&inv[b]==(int)a; }; for(unsigned x=0;x<n;++x) for(unsigned e=f[x];e<f[x+1];++e){ unsigned id=w[e]; if(id>=g.m()||seen[id]) return "an arc appears twice"; seen[id]=true; if(!bind(tail0[id],x)||!bind(k.head[id],h[e])) return "the graph is not a renumbering of the input"; if(two&&x2[e]!=w2[id]) return "the second weight is attached to another arc"; } unsigned known=0,fixed=0; for(unsigned x=0;x<n;++x) if(map[x]!=-1){ ++known; fixed+= map[x]==(int)x; } return known>=20&&known==fixed?"the nodes are where they were":""; }; break; }
		case 12: graph_in(true); c.args={fo,fh,fw,o1}; outs={o1}; judge=[&](const Outcome&)->std::string{ std::string s; if(!get(o1,s)) return "no file was written"; std::vector<double>v=numbers(s); Arcs a; if(v.size()!=3*g.m()||s.find('}')==std::string::npos) return "the drawing is incomplete"; for(size_t i=0;i<v.size();i+=3) a.push_back({(unsigned)v[i],(unsigned)v[i+1],(unsigned)v[i+2]}); std::sort(a.begin(),a.end()); return a==arcs_of(g)?"":"the drawing shows other arcs"; }; break;
		case 13: graph_in(false); geo_in(); c.args={fo,fh,fla,flo,o1}; outs={o1}; same_only=true; judge=[&](const Outcome&)->std::string{ std::string s; if(!get(o1,s)) return "no file was written"; size_t cnt=0; for(size_t p=0;(p=s.find("<line ",p))!=std::string::npos;++p) ++cnt; if(cnt!=g.m()||s.find("</svg>")==std::string::npos) return "the drawing is incomplete"; auto mm=std::minmax_element(lat.begin(),lat.end()); auto mo=std::minmax_element(lon.begin(),lon.end()); float la=*mm.first,lb=*mm.second,oa=*mo.first,ob=*mo.second; if(la==lb||oa==ob) return ""; std::vector<std::array<double,4>>want,have; for(unsigned x=0;x<n;++x) for(unsigned e=k.first[x];e<k.first[x+1];++e){ unsigned y=k.head[e]; want.push_back({(lon[x]-oa)*300./(ob-oa),300-(lat[x]-la)*300./(lb-la),(lon[y]-oa)*300./(ob-oa),300-(lat[y]-la)*300./(lb-la)}); } for(size_t p=0;(p=s.find("<line ",p))!=std::string::npos;){ size_t e=s.find("style",p); std::vector<double>v=numbers(s.substr(p,e-p)); p=e; if(v.size()!=8) return "a line is malformed"; have.push_back({v[1],v[3],v[5],v[7]}); } for(auto&w:want){ bool hit=false; for(size_t i=0;i<have.size()&&!hit;++i){ bool ok=true; for(int j=0;j<4;++j) ok=ok&&std::fabs(have[i][(size_t)j]-w[(size_t)j])<0.05; if(ok){ have.erase(have.begin()+(long)i); hit=true; } } if(!hit) return "an arc is drawn at the wrong place"; } return ""; }; break;
		case 14: graph_in(true); putv(fs,src); putv(ft,tgt); ins.push_back({fs,4,true}); ins.push_back({ft,4,true}); c.args={fo,fh,fw,fs,ft,o1}; outs={o1}; judge=check_dist; break;
		case 15: make_ch(); putv(fs,src); putv(ft,tgt); ins.push_back({fs,4,true}); ins.push_back({ft,4,true}); c.args={fch,fs,ft,o1}; outs={o1}; judge=check_dist; break;
		case 16: graph_in(true); c.args={fo,fh,fw,fch}; outs={fch}; judge=[&](const Outcome&)->std::string{ ContractionHierarchy ch; try{ ch=ContractionHierarchy::load_file(fch); }catch(std::exception&e){ return "the hierarchy cannot be loaded"; } if(ch.node_count()!=n) return "the hierarchy has the wrong number of nodes"; ContractionHierarchyQuery qq(ch); for(unsigned a=0;a<n;++a){ auto d=orc.from(Ends{{a,0}}); for(unsigned b=0;b<n;++b) if(qq.reset().add_source(a).add_target(b).run().get_distance()!=sat(d[b])) return "the hierarchy gives a wrong distance from "+S(a)+" to "+S(b); } return ""; }; break;
		case 17: graph_in(false); geo_in(); c.args={fo,fh,fla,flo,o1}; outs={o1}; judge=[&](const Outcome&)->std::string{ V32 w; if(!getv(o1,w)||w.size()!=g.m()) return "the weights are incomplete"; for(unsigned x=0;x<n;++x) for(unsigned e=k.first[x];e<k.first[x+1];++e){ unsigned y=k.head[e]; double d=geo_dist(lat[x],lon[x],lat[y],lon[y]); if(std::fabs(d-(double)w[e])>1.5+d*1e-5) return "the weight of an arc is wrong"; } return ""; }; break;
		case 18: graph_in(false); geo_in(); c.args={fo,fh,fla,flo,o1}; outs={o1}; same_only=true; judge=[&](const Outcome&)->std::string{ V32 o; if(!getv(o1,o)||o.size()!=n) return "the order is incomplete"; std::vector<bool>s(n); for(unsigned x:o){ if(x>=n||s[x]) return "the order is no permutation"; s[x]=true; } return ""; }; break;
		case 19: { ContractionHierarchy ch=make_ch(); unsigned f=(unsigned)ch.forward.head.size(),b=(unsigned)ch.backward.head.size(); c.args={fch}; has_out=true; judge=[&,f,b](const Outcome&o)->std::string{ return numbers(o.out)==std::vector<double>{(double)n,(double)f,(double)b}?"":"the numbers are wrong"; }; break; }
		case 20: { make_ch(); geo_in(); c.args={fch,fla,flo}; for(unsigned i=0;i<q;++i) c.in+=S(src[i])+" "+S(tgt[i])+"\n"; if(q==0&&r.chance(1,2)) c.in=""; has_in=has_out=true; judge=[&](const Outcome&o)->std::string{ std::string s=o.out; size_t at=0; for(unsigned i=0;i<q;++i){ size_t e=s.find("</kml>",at); if(e==std::string::npos) return "paths are missing"; std::string one=s.substr(at,e-at); at=e+6; size_t p=one.find("Path of length "); if(p==std::string::npos) return "a path is missing"; unsigned d=(unsigned)strtoul(one.c_str()+p+15,nullptr,10); if(d!=dist(src[i],tgt[i])) return "a path has the wrong length"; size_t l=one.find("<LineString>"); if(l==std::string::npos) return "a path is missing"; std::vector<double>v=numbers(one.substr(l)); if(v.size()%3) return "a path is malformed"; if(d==INF) continue; if(v.empty()||(unsigned)v[0]!=src[i]||(unsigned)v[v.size()-3]!=tgt[i]) return "a path does not connect its ends"; uint64_t len=0; for(size_t j=0;j+3<v.size();j+=3){ uint64_t best=~0ull; for(unsigned a=0;a<g.m();++a) if(g.tail[a]==(unsigned)v[j]&&g.head[a]==(unsigned)v[j+3]) best=std::min<uint64_t>(best,g.w[a]); if(best==~0ull) return "a path uses an arc that does not exist"; len+=best; } if(len!=d) return "a path has the wrong length"; } return s.find("<kml",at)==std::string::npos?"":"there is an extra path"; }; break; }
		default: { // a small street map
			GenMap m; unsigned nn=2+(unsigned)r.below(14),nw=1+(unsigned)r.below(6); if(r.chance(1,8)){ nn+=(unsigned)r.below(60); nw+=(unsigned)r.below(50); } for(unsigned i=0;i<nn;++i) m.map.nodes.push_back({10+3*i,(int64_t)r.below(2000)*1000000,(int64_t)r.below(2000)*1000000,Tags()}); static const char*hw[]={"residential","motorway","footway","primary","track","service"}; for(unsigned i=0;i<nw;++i){ MWay w; w.id=5+7*i; unsigned len=2+(unsigned)r.below(5); for(unsigned j=0;j<len;++j) w.refs.push_back(10+3*r.below(nn)); w.tags.push_back({"highway",hw[r.below(6)]}); if(r.chance(1,3)) w.tags.push_back({"oneway",r.chance(1,2)?"yes":"-1"}); if(r.chance(1,3)) w.tags.push_back({"maxspeed",S(10+10*r.below(9))}); if(r.chance(1,2)) w.tags.push_back({"name",r.chance(1,8)?std::string((size_t)r.below(300),'n'):"street "+S(i)}); if(r.chance(1,6)) w.tags.push_back({"ref","R"+S(i)}); m.map.ways.push_back(w); }
			random_layout(m,chance(1,2),1+(unsigned)draw(6),r,true); unsigned need; std::vector<Span>sp; std::string bytes=encode_file(m.map,m.lay,~0ull,Corrupt(),&sp,&need); put(fs,bytes); simulated_pbf_block_size=need; ins.push_back({fs,0,false}); bool full=r.chance(2,3); if(full){ c.args={fs}; for(int i=0;i<11;++i) c.args.push_back(D+"o"+std::to_string(i)); } else { c.args={fs}; for(int i:{0,1,2,3,7,8}) c.args.push_back(D+"o"+std::to_string(i)); } for(size_t i=1;i<c.args.size();++i) outs.push_back(c.args[i]);
			cut_text=bytes; if(!sp.empty()){ const Span&x=sp[r.below(sp.size())]; last_line=x.begin+1+r.below(x.end-x.begin-1); } text_cut=true; words.push_back("map"); } }
	// fault
	unsigned v=(unsigned)draw(14); std::string what="no fault"; bool cut=false;
	if(v==10&&(!ins.empty()||text_cut)){
		what="input cut off"; cut=true;
	}
	if(v==11&&!has_in) v=0; if(v==12&&!has_out) v=0;
	std::vector<std::pair<std::string,std::string>>keep; for(auto&i:ins){ std::string s; get(i.path,s); keep.push_back({i.path,s}); } if(text_cut&&t<20) keep.push_back({fs,cut_text});
	// inputs that contradict themselves or each other; returns what was done, "" if nothing
	auto damage=[&]()->std::string{
		unsigned kind=(unsigned)r.below(10);
		if(kind==0&&t!=11){ c.args.pop_back(); return "an argument is missing"; }
		if(kind==1&&!ins.empty()){ In&x=ins[r.below(ins.size())]; syscall(SYS_unlinkat,AT_FDCWD,x.path.c_str(),0); return "an input file is missing"; }
		if(kind==2&&(t==15||t==19||t==20)){ std::string s; get(fch,s); s+=std::string(1+(size_t)r.below(40),'\0'); put(fch,s); return "the hierarchy is too long"; }
		if(t==0){ std::vector<std::string>ls; std::istringstream in(c.in); std::string l; while(std::getline(in,l)) ls.push_back(l); const std::string ty=c.args[0]; std::string bad; if(ty=="string") return ""; if(ty=="float32"||ty=="float64"||r.chance(1,4)) bad=r.chance(1,2)?"x7":""; else { static const char*ty8[]={"int8","uint8","int16","uint16","int32","uint32","int64","uint64"}; static const char*hi[]={"128","256","32768","65536","2147483648","4294967296","9223372036854775808","18446744073709551616"},*lo[]={"-129","-1","-32769","-1","-2147483649","-1","-9223372036854775809",""}; for(int i=0;i<8;++i) if(ty==ty8[i]) bad=r.chance(1,2)?hi[i]:lo[i]; } ls.insert(ls.begin()+(long)r.below(ls.size()+1),bad); c.in.clear(); for(auto&x:ls) c.in+=x+"\n"; return "a line is no number of that type"; }
		if(t==3||t==4){ std::vector<std::string>ls; std::istringstream in(cut_text); std::string l; std::vector<size_t>data; size_t head=0; while(std::getline(in,l)){ if(!l.empty()&&l[0]==(t==3?'a':'v')) data.push_back(ls.size()); if(!l.empty()&&l[0]=='p') head=ls.size(); ls.push_back(l); }
			unsigned m=(unsigned)r.below(11); if(data.empty()&&m!=6&&m!=7&&m!=9) m=6; size_t d=data.empty()?0:data[r.below(data.size())]; std::vector<std::string>wd; { std::istringstream q2(ls[m==6||m==7?head:d]); std::string x; while(q2>>x) wd.push_back(x); } auto join=[&]{ std::string x; for(auto&y:wd) x+=(x.empty()?"":" ")+y; return x; }; std::string did;
			switch(m){ case 0: ls.erase(ls.begin()+(long)d); did="a line is missing"; break; case 1: ls.insert(ls.begin()+(long)(d+(size_t)r.below(ls.size()-d+1)),ls[d]); did="a line appears twice"; break;
				case 2: wd[1]="0"; ls[d]=join(); did="node 0"; break; case 3: wd[t==3&&r.chance(1,2)?2:1]=S(n+1+(unsigned)(r.chance(1,2)?0:r.below(5))); ls[d]=join(); did="a node that does not exist"; break; case 4: wd[0]="b"; ls[d]=join(); did="a line of unknown type"; break; case 5: wd.pop_back(); ls[d]=join(); did="a number is missing"; break;
				case 6: { size_t at=t==3?3:4; long c2=atol(wd[at].c_str()); wd[at]=std::to_string(c2==0||r.chance(1,2)?c2+1:c2-1); ls[head]=join(); did="a wrong count"; break; } case 7: wd[1]="x"; ls[head]=join(); did="a broken header"; break; case 9: ls.erase(ls.begin()+(long)head); did="no header"; break; case 10: wd[2]="y"; ls[d]=join(); did="a word instead of a number"; break; default: if(t==3) return ""; ls[d]+=" 5"; did="a number too much"; }
			std::string all; for(auto&x:ls) all+=x+"\n"; put(fs,all); return did; }
		if((t==14||t==15)&&q&&kind<5){ V32 x=kind&1?src:tgt; x[r.below(q)]=r.chance(1,2)?n:n+(unsigned)r.below(1000000); putv(kind&1?fs:ft,x); return "a query for a node that does not exist"; }
		if(t==20&&kind<5){ std::string bad= r.chance(1,2)?S(n):S(n+(unsigned)r.below(1000000)); if(r.chance(1,4)) bad="x"; c.in+= r.chance(1,2)?bad+" 0\n":"0 "+bad+"\n"; return "a query for a node that does not exist"; }
		if(t==7||t==9){ c.args[0]="0"; if(c.args[1]=="0") c.args[1]="3"; return "no nodes"; }
		if(t==8){ putv(ft,V32(1,0)); if(c.args[0]!=fs) c.args[0]="4"; else if(keep[0].second.empty()) return ""; return "no period"; }
		if(t==5||(t>=10&&t<=14)||(t>=16&&t<=18)){
			V32 f=k.first,h=k.head; switch(kind){
				case 3: case 4: if(h.empty()) return ""; h[r.below(h.size())]= r.chance(1,2)?n:n+(unsigned)r.below(1u<<31); putv(fh,h); return "an arc to a node that does not exist";
				case 5: f[0]=1; if(f.size()>1&&f[1]==0) return ""; putv(fo,f); return "the first arc is missing";
				case 6: ++f.back(); putv(fo,f); return "more arcs than there are";
				case 7: { std::vector<size_t>at; for(size_t i=1;i+1<f.size();++i) at.push_back(i); if(at.empty()) return ""; size_t i=at[r.below(at.size())]; f[i]= f[i+1]+1+(unsigned)r.below(r.chance(1,2)?3:1000000); putv(fo,f); return "an unsorted index"; }
				case 8: { std::vector<In*>c2; for(auto&x:ins) if(x.vec&&x.path!=fo&&x.path!=fh) c2.push_back(&x); if(c2.empty()) return ""; In&x=*c2[r.below(c2.size())]; std::string s; get(x.path,s); s+=std::string(4*(1+(size_t)r.below(3)),'\1'); put(x.path,s); return "a vector is too long"; } } }
		return ""; };
	begin_threads();
	// undisturbed run: must succeed and be right
	std::function<std::string(const Outcome&)>lib; std::vector<std::string>expect_files;
	if(t==21){ // expected files computed with the library (which P03 and P05 check)
		auto none=[](const std::string&){}; OSMRoutingIDMapping mp=load_osm_id_mapping_from_pbf(fs,nullptr,[&](uint64_t id,const TagMap&tg){ return is_osm_way_used_by_cars(id,tg,none); },none); unsigned wc=(unsigned)mp.is_routing_way.population_count(); V32 speed(wc); std::vector<std::string>name(wc); OSMRoutingGraph rg=load_osm_routing_graph_from_pbf(fs,mp,[&](uint64_t id,unsigned l,const TagMap&tg){ speed[l]=get_osm_way_speed(id,tg,none); name[l]=get_osm_way_name(id,tg,none); return get_osm_car_direction_category(id,tg,none); },nullptr,none);
		auto raw=[](const void*p,size_t b){ return std::string((const char*)p,b); }; V32 tt; for(unsigned a=0;a<rg.arc_count();++a){ uint64_t x=(uint64_t)rg.geo_distance[a]*18000/speed[rg.way[a]]/5; tt.push_back((unsigned)std::min<uint64_t>(x,INF)); } std::string nm; for(auto&x:name){ nm+=x; nm.push_back(0); } auto bits=[&](const BitVector&b){ uint64_t s=b.size(); return raw(&s,8)+raw(b.data(),b.uint512_count()*64); };
		std::vector<std::string>all={raw(rg.first_out.data(),rg.first_out.size()*4),raw(rg.head.data(),rg.head.size()*4),raw(rg.geo_distance.data(),rg.geo_distance.size()*4),raw(tt.data(),tt.size()*4),raw(rg.way.data(),rg.way.size()*4),raw(speed.data(),speed.size()*4),nm,raw(rg.latitude.data(),rg.latitude.size()*4),raw(rg.longitude.data(),rg.longitude.size()*4),bits(mp.is_routing_node),bits(mp.is_routing_way)}; for(size_t i=0;i<outs.size();++i) expect_files.push_back(outs.size()==11?all[i]:all[(size_t)std::vector<int>{0,1,2,3,7,8}[i]]);
		std::set<std::vector<double>>longest; { unsigned top=0; for(unsigned x:tt) top=std::max(top,x); IDMapper wm(mp.is_routing_way); for(unsigned a2=0;a2<rg.arc_count();++a2) if(tt[a2]==top) longest.insert({(double)a2,(double)tt[a2],(double)rg.geo_distance[a2],(double)speed[rg.way[a2]],(double)wm.to_global(rg.way[a2])}); }
		judge=[&,longest](const Outcome&o)->std::string{ for(size_t i=0;i<outs.size();++i){ std::string s; if(!get(outs[i],s)) return "output "+S(i)+" was not written"; if(s!=expect_files[i]) return "output "+S(i)+" is wrong"; }
			size_t at=o.out.find("Arc with maximum travel time : "); if(at!=std::string::npos){ std::vector<double>v; static const char*label[]={"maximum travel time : ","Corresponding travel time : ","Corresponding geographic length : ","Speed : ","Corresponding OSM way : "}; for(const char*l:label){ size_t p2=o.out.find(l,at); if(p2==std::string::npos) return ""; v.push_back(strtod(o.out.c_str()+p2+strlen(l),nullptr)); } if(!longest.count(v)) return "the arc with the longest travel time is wrong"; } return ""; }; }
	bool no_arcs= g.m()==0&&(t==5||t==10||t==11||t==14||t==16); // documented to be refused
	Outcome a; run_tool(c,a,false); { Frozen z; if(a.reported&&!no_arcs) violation("refused",c.tool+" reported an error for correct input: "+a.why); if(!a.reported){ std::string bad=judge(a); SIM_CHECK(bad.empty(),"wrong_output",c.tool+(words.empty()?"":" ("+words[0]+")")+": "+bad); } }
	std::vector<std::string>undisturbed; if(same_only&&!a.reported) for(auto&p:outs){ std::string s; get(p,s); undisturbed.push_back(s); }
	// disturbed run, starting from old or no output files
	{ Frozen z; for(auto&p:outs){ syscall(SYS_unlinkat,AT_FDCWD,p.c_str(),0); if(r.chance(1,3)) put(p,std::string((size_t)r.below(200),'Z')); } for(auto&x:keep) put(x.first,x.second);
	if(cut){ if(text_cut){ if(last_line==0) cut=false; else { std::string s=cut_text; s.resize(t==21?last_line:(size_t)r.below(last_line+1)); put(fs,s); } }
		else { In&x=ins[r.below(ins.size())]; std::string s; for(auto&y:keep) if(y.first==x.path) s=y.second; size_t len; if(x.unit==1&&x.path!=fch) cut=false; else if(s.empty()) cut=false; else { len=(size_t)r.below(s.size());
			if(x.unit==0){ if(len&&s[len-1]==0) ++len; if(len>=s.size()||len==0||s[len-1]==0) cut=false; } // strings: inside a string
			else if(x.vec&&x.path!=fo){ } // a companion vector has another length
			else if(x.path==fo&&x.vec){ size_t e=len/4; if(len%4==0&&e>=1&&k.first[e-1]==k.head.size()) ++len; }
			else if(x.unit>1&&len%x.unit==0) ++len;
			if(cut){ s.resize(len); put(x.path,s); } } } if(!cut) what="no fault"; }
	if(v==3||v==4){ plan_fault(S_WRITE,skewed(0,8),v==3?K_EIO:K_ENOSPC,draw(5000)); what= v==3?"write error":"disk full"; } else if(v==5){ plan_fault(S_CLOSE,draw(6),K_EIO,draw(5000)); what="close fails"; } else if(v==6){ plan_fault(S_OPEN,draw(8),chance(1,2)?K_EMFILE:K_ENOSPC); what="open fails"; } else if(v==7){ plan_fault(S_READ,skewed(0,10),K_EIO); what="read error"; } else if(v==8){ plan_fault(S_SEEK,draw(10),K_EIO); what="seek error"; } else if(v==9){ plan_fault(S_ALLOC,skewed(0,200),K_NOMEM); c.alloc=true; what="allocation fails"; }
	else if(v==11){ c.in_fail=(long)draw(c.in.size()+1); what="input stream fails"; } else if(v==12){ c.out_limit=(long)draw(std::max<size_t>(a.out.size(),1)); what="output stream fails"; }
	else if(v==13){ what=damage(); if(!what.empty()) cut=true; else what="no fault"; }
	if(chance(1,3)){ fault_prob(S_READ,K_SHORT,1,2,1u<<30); fault_prob(S_WRITE,K_SHORT,1,2,1u<<30); } if(chance(1,4)){ fault_prob(S_READ,K_EINTR,1,6); fault_prob(S_WRITE,K_EINTR,1,6); }
	note(c.tool+(words.empty()?"":" "+words[0])+" with "+S(n)+" nodes, "+S(g.m())+" arcs; "+what); }
	feature((int)t); feature(32+(int)v);
	Outcome b; run_tool(c,b,true); clear_faults(); io_heal();
	{ Frozen z; bool hurt= fired(S_ALLOC)||fired(S_READ)||fired(S_WRITE)||fired(S_OPEN)||fired(S_CLOSE)||fired(S_SEEK)||fired(S_THREAD)||cut; bool soft= !cut&&io_fault_errors==0&&!fired(S_ALLOC)&&!fired(S_THREAD)&&v!=11&&v!=12; (void)hurt;
		if(!b.reported){ feature(50); std::string bad= cut&&t!=21&&!no_arcs?(v==13?"it accepted contradictory input":"it accepted an input that is cut off"):judge(b); SIM_CHECK(bad.empty(),"silent",c.tool+(words.empty()?"":" ("+words[0]+")")+" reported no error ("+what+"), but "+bad); if(same_only) for(size_t i=0;i<undisturbed.size();++i){ std::string s; get(outs[i],s); SIM_CHECK(s==undisturbed[i],"silent",c.tool+" reported no error ("+what+"), but its output "+S(i)+" differs from that of an undisturbed run"); } }
		else { feature(51); if(soft&&!no_arcs) violation("refused",c.tool+" reported an error without reason ("+what+"): "+b.why); checked(); } observe(b.reported); }
	SIM_CHECK(open_fd_count()==0,"open_file",c.tool+" left a file open");
	end_threads();
}
