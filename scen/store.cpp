// P11: vectors on disk. P12: contraction hierarchies on disk and through callbacks.
#include "queries.h"
#include <routingkit/vector_io.h>
#include <routingkit/contraction_hierarchy.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
namespace{
std::string slurp_file(const std::string&p){ Frozen z; std::string s; int fd=::open(p.c_str(),O_RDONLY); if(fd<0) return s; char b[65536]; ssize_t n; while((n=::read(fd,b,sizeof b))>0) s.append(b,(size_t)n); ::close(fd); return s; }
bool exists(const std::string&p){ Frozen z; return access(p.c_str(),F_OK)==0; }
void put_file(const std::string&p,const std::string&s){ Frozen z; int fd=::open(p.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); if(fd<0) internal_error("cannot write scratch file"); size_t o=0; while(o<s.size()){ ssize_t n=::write(fd,s.data()+o,s.size()-o); if(n<=0) internal_error("cannot write scratch file"); o+=(size_t)n; } ::close(fd); }

// one value that can be stored: bytes() is what a complete file contains, parse() is what a file with the given bytes
// must load as (false: it must be rejected)
struct Item{
	virtual ~Item(){}
	virtual std::string name()const=0;
	virtual std::string bytes()const=0;
	virtual void save(const std::string&p)const=0;
	virtual std::string load(const std::string&p)const=0; // the loaded data in the form parse() gives
	virtual bool parse(const std::string&b,std::string&out)const=0;
	virtual unsigned unit()const{ return 1; }
};
struct P12b{ float a; unsigned b; unsigned short c,d; };
template<class T> struct Pod:Item{
	std::vector<T>v; std::string nm;
	std::string name()const{ return "vector of "+S(v.size())+" "+nm; }
	std::string bytes()const{ return std::string((const char*)v.data(),v.size()*sizeof(T)); }
	void save(const std::string&p)const{ save_vector(p,v); }
	std::string load(const std::string&p)const{ std::vector<T>x=load_vector<T>(p); Frozen z; return std::string((const char*)x.data(),x.size()*sizeof(T)); }
	bool parse(const std::string&b,std::string&out)const{ out=b; return b.size()%sizeof(T)==0; }
	unsigned unit()const{ return sizeof(T); }
};
template<class T> struct Val:Item{
	T v; std::string nm;
	std::string name()const{ return "one "+nm; }
	std::string bytes()const{ return std::string((const char*)&v,sizeof(T)); }
	void save(const std::string&p)const{ save_value(p,v); }
	std::string load(const std::string&p)const{ T x=load_value<T>(p); return std::string((const char*)&x,sizeof(T)); }
	bool parse(const std::string&b,std::string&out)const{ out=b; return b.size()==sizeof(T); }
	unsigned unit()const{ return sizeof(T); }
};
struct Str:Item{
	std::vector<std::string>v;
	std::string name()const{ return "vector of "+S(v.size())+" strings"; }
	static std::string flat(const std::vector<std::string>&v){ std::string s=S(v.size())+":"; for(auto&x:v) s+=S(x.size())+":"+x; return s; }
	std::string bytes()const{ std::string s; for(auto&x:v){ s+=x; s+='\0'; } return s; }
	void save(const std::string&p)const{ save_vector(p,v); }
	std::string load(const std::string&p)const{ std::vector<std::string>x=load_vector<std::string>(p); Frozen z; return flat(x); }
	bool parse(const std::string&b,std::string&out)const{ if(!b.empty()&&b.back()!='\0') return false; std::vector<std::string>x; size_t i=0; while(i<b.size()){ size_t e=b.find('\0',i); x.push_back(b.substr(i,e-i)); i=e+1; } out=flat(x); return true; }
};
struct Bit:Item{
	BitVector v; std::vector<bool>m;
	std::string name()const{ return "bit vector of "+S(m.size())+" bits"; }
	static std::string flat(const std::vector<bool>&m){ std::string s=S(m.size())+":"; for(bool b:m) s+= b?'1':'0'; return s; }
	std::string bytes()const{ std::string s(8+((m.size()+511)/512)*64,'\0'); uint64_t n=m.size(); memcpy(&s[0],&n,8); for(uint64_t i=0;i<n;++i) if(m[i]) s[8+i/8]|=(char)(1<<(i%8)); return s; }
	void save(const std::string&p)const{ save_bit_vector(p,v); }
	std::string load(const std::string&p)const{ BitVector x=load_bit_vector(p); Frozen z; if(x.size()>(1u<<26)) return "a bit vector of "+S(x.size())+" bits"; std::vector<bool>y(x.size()); for(uint64_t i=0;i<x.size();++i) y[i]=x.is_set(i); return flat(y); }
	bool parse(const std::string&b,std::string&out)const{ if(b.size()<8) return false; uint64_t n; memcpy(&n,b.data(),8); if(n>(1u<<26)||b.size()!=8+((n+511)/512)*64) return false; std::vector<bool>y(n); for(uint64_t i=0;i<n;++i) y[i]=(b[8+i/8]>>(i%8))&1; out=flat(y); return true; }
};
// a small file format made with the stream functions: count, elements
struct Stream:Item{
	std::vector<unsigned>v;
	std::string name()const{ return "counted stream of "+S(v.size())+" unsigned"; }
	std::string bytes()const{ uint64_t n=v.size(); return std::string((const char*)&n,8)+std::string((const char*)v.data(),v.size()*4); }
	void save(const std::string&p)const{ open_file_for_saving(p,[&](std::ostream&o){ write_value(o,(uint64_t)v.size()); write_vector(o,v); }); }
	std::string load(const std::string&p)const{ std::vector<unsigned>x; open_file_for_loading(p,[&](std::istream&i,unsigned long long size){ uint64_t n=read_value<uint64_t>(i); if(n>4000000||size!=8+4*n) throw std::runtime_error("size"); x=read_vector<unsigned>(i,n); }); Frozen z; uint64_t n=x.size(); return std::string((const char*)&n,8)+std::string((const char*)x.data(),n*4); }
	bool parse(const std::string&b,std::string&out)const{ if(b.size()<8) return false; uint64_t n; memcpy(&n,b.data(),8); out=b; return n<=4000000&&b.size()==8+4*n; }
};
uint64_t draw_bytes(){ if(chance(1,120)){ feature(11); return 60000+draw(chance(1,3)?4000000:90000); } switch(draw(6)){ case 0: return draw(4); case 1: return draw(64); case 2: return 8180+draw(30); case 3: return 16370+draw(30); case 4: return draw(2000); default: return draw(40000); } }
template<class T> std::unique_ptr<Item> pod(Rng&r,uint64_t bytes,const char*nm){ auto x=new Pod<T>; x->nm=nm; x->v.resize(bytes/sizeof(T)); char*p=(char*)x->v.data(); for(size_t i=0;i<x->v.size()*sizeof(T);++i) p[i]=(char)r.next(); return std::unique_ptr<Item>(x); }
template<class T> std::unique_ptr<Item> val(Rng&r,const char*nm){ auto x=new Val<T>; x->nm=nm; char*p=(char*)&x->v; for(size_t i=0;i<sizeof(T);++i) p[i]=(char)r.next(); return std::unique_ptr<Item>(x); }
std::unique_ptr<Item> draw_item(){
	unsigned k=(unsigned)draw(12); uint64_t b=draw_bytes(); Rng r(draw(1ull<<32));
	switch(k){
		case 0: return pod<unsigned>(r,b,"unsigned"); case 1: return pod<char>(r,b,"char"); case 2: return pod<float>(r,b,"float"); case 3: return pod<uint64_t>(r,b,"uint64"); case 4: return pod<P12b>(r,b,"records"); case 5: return pod<double>(r,b,"double");
		case 6: return val<unsigned>(r,"unsigned"); case 7: return val<P12b>(r,"record");
		case 8: { auto x=new Stream; x->v.resize(b/4); for(auto&y:x->v) y=(unsigned)r.next(); return std::unique_ptr<Item>(x); }
		case 9: { auto x=new Str; uint64_t left=b; unsigned style=(unsigned)r.below(3); while(left){ uint64_t l=style==0?r.below(4):style==1?r.below(30):r.below(9000); l=std::min(l,left-1); std::string s(l,'x'); for(auto&c:s) c=(char)(1+r.below(255)); left-=l+1; x->v.push_back(s); } return std::unique_ptr<Item>(x); }
		default: { auto x=new Bit; uint64_t n= r.chance(1,3)? (b/64)*512+r.below(3)-(b>64?1:0) : b*8>100000?b:b*8; x->v=BitVector(n); x->m.resize(n); for(uint64_t i=0;i<n;++i) if(r.chance(1,2)){ x->v.set(i); x->m[i]=true; } return std::unique_ptr<Item>(x); }
	}
}
struct Job{ std::unique_ptr<Item>it; std::string path; bool old,reload; bool saved=false,tried=false,crashed=false; std::string result,problem; };
const char*fault_names[]={"none","short writes and interruptions","write error","full disk","open error","error on close","crash","lack of memory"};
// faults while saving; returns the drawn kind
unsigned plan_save_faults(bool crash){
	unsigned k=(unsigned)draw(crash?8:7); if(!crash&&k==6) k=7; uint64_t i=draw(6),a=draw(1u<<30);
	if(chance(1,3)){ fault_prob(S_WRITE,K_SHORT,1,3,1u<<30); fault_prob(S_WRITE,K_EINTR,1,5); }
	switch(k){ case 1: fault_prob(S_WRITE,K_SHORT,1,2,1u<<30); fault_prob(S_WRITE,K_EINTR,1,3); break; case 2: plan_fault(S_WRITE,i,K_EIO); break; case 3: plan_fault(S_WRITE,i,K_ENOSPC,a); break; case 4: plan_fault(S_OPEN,i%3,i%2?K_EMFILE:K_ENOSPC); break; case 5: plan_fault(S_CLOSE,i%3,K_EIO,a); break; case 6: plan_fault(S_WRITE,i,K_CRASH,a); break; case 7: plan_fault(S_ALLOC,i*2+a%2,K_NOMEM); mem_faults_armed=true; break; }
	return k;
}
unsigned plan_load_faults(){
	unsigned k=(unsigned)draw(6); uint64_t i=draw(6),a=draw(1u<<30);
	switch(k){ case 1: fault_prob(S_READ,K_SHORT,1,2,1u<<30); fault_prob(S_READ,K_EINTR,1,3); break; case 2: plan_fault(S_READ,i,K_EIO); break; case 3: plan_fault(S_SEEK,i%4,K_EIO); break; case 4: plan_fault(S_OPEN,0,i%2?K_EMFILE:K_EIO); break; case 5: plan_fault(S_ALLOC,i*2+a%2,K_NOMEM); mem_faults_armed=true; break; default:; }
	return k;
}
bool memory_failed(){ return fired_kind(K_NOMEM)>0; }
}
SCENARIO(vector_store){
	unsigned threads=1+(unsigned)draw(3); if(chance(1,2)) threads=1;
	std::vector<Job>jobs(threads); std::string n;
	for(unsigned t=0;t<threads;++t){ Job&j=jobs[t]; j.it=draw_item(); j.path=scratch+"f"+S(t); j.old=chance(1,4); j.reload=chance(1,2); if(j.old) put_file(j.path,std::string(draw_bytes(),'o')); n+=(t?", ":"")+j.it->name(); }
	unsigned k=plan_save_faults(true);
	{ Frozen z; note("saving "+n+"; fault: "+fault_names[k]); }
	feature((int)k); if(threads>1) feature(8);
	mem_reset();
	begin_threads();
	for(unsigned t=0;t<threads;++t) spawn([&,t]{
		Job&j=jobs[t]; uint64_t e0=io_fault_errors;
		try{ j.it->save(j.path); Frozen z; j.saved=true; }catch(std::bad_alloc&){ Frozen z; if(!memory_failed()) j.problem="ran out of memory without cause"; }catch(std::exception&e){ Frozen z; checked(); if(io_fault_errors==e0&&!fired_kind(K_EINTR)&&!io_crashed()&&!memory_failed()) j.problem=std::string("failed without cause: ")+e.what(); }
		j.crashed=io_crashed();
		if(j.saved&&!j.crashed&&j.reload) try{ std::string g=j.it->load(j.path); Frozen z; j.tried=true; j.result=g; }catch(std::bad_alloc&){ Frozen z; if(!memory_failed()) j.problem="loading ran out of memory without cause"; }catch(std::exception&e){ Frozen z; if(io_fault_errors==e0&&!memory_failed()) j.problem=std::string("loading failed without cause: ")+e.what(); }
		if(j.crashed) j.tried=false;
	});
	join_all(); end_threads(); mem_faults_armed=false; clear_faults(); bool crash=io_crashed(); io_heal();
	for(Job&j:jobs){
		SIM_CHECK(j.problem.empty(),"spurious_error","saving a "+j.it->name()+" "+j.problem);
		std::string want; if(!j.it->parse(j.it->bytes(),want)) internal_error("oracle");
		std::string disk=slurp_file(j.path); if(j.saved&&crash&&!j.crashed) feature(9);
		if(j.saved&&!j.crashed){
			if(k>=2) feature(10);
			if(disk!=j.it->bytes()) violation("incomplete_save","saving a "+j.it->name()+" returned normally, but the file has "+S(disk.size())+" bytes instead of "+S(j.it->bytes().size())+" or other contents");
			checked();
			if(j.tried&&j.result!=want) violation("wrong_load","loading a "+j.it->name()+" returned other data than was saved");
			std::string got; try{ got=j.it->load(j.path); }catch(std::exception&e){ violation("spurious_error","loading a "+j.it->name()+" failed without cause: "+e.what()); }
			SIM_CHECK(got==want,"wrong_load","loading a "+j.it->name()+" returned other data than was saved");
		}
		SIM_CHECK(open_fd_count()==0,"open_file","a file stayed open");
		// whatever is on the disk now, perhaps damaged further: a load gives exactly that or throws
		std::string b= exists(j.path)?slurp_file(j.path):j.it->bytes(); bool full=chance(1,3); if(full) b=j.it->bytes();
		unsigned d=(unsigned)draw(6); uint64_t x=draw(1u<<30);
		if(d==1&&!b.empty()) b.resize(x%b.size()); if(d==2) b+=std::string(1+x%70,(char)(x>>8)); if(d==3&&!b.empty()){ size_t q=x%2?x/2%b.size():x/2%std::min<size_t>(8,b.size()); b[q]^=(char)(1+(x>>20)%255); }
		if(d==4&&b.size()>=8){ uint64_t h=~0ull-x%600; memcpy(&b[0],&h,8); if(x&1024) b.resize(8); } // a header near the largest number
		if(d==5&&b.size()>=j.it->unit()) b.resize(b.size()-b.size()%j.it->unit()+(j.it->unit()>1?1+x%(j.it->unit()-1):0));
		put_file(j.path,b); std::string expect; bool ok=j.it->parse(b,expect); bool huge=mem_available()&&!dynamic_cast<Str*>(j.it.get())&&chance(1,150);
		if(huge){ // the same file four gigabytes longer: there is no memory for that, and it is not what the first bytes say either
			Frozen z; if(truncate(j.path.c_str(),(off_t)(b.size()+(1ull<<32)))!=0) internal_error("cannot extend the scratch file"); ok=false; d=9; feature(15); }
		if(!ok) feature(12);
		unsigned lk=plan_load_faults(); feature(16+(int)lk);
		uint64_t e0=io_fault_errors,m0=fired_kind(K_NOMEM); mem_reset();
		bool threw=false,oom=false; std::string got,what; uint64_t live=0;
		try{ got=j.it->load(j.path); }catch(std::bad_alloc&){ threw=oom=true; }catch(std::exception&e){ Frozen z; threw=true; what=e.what(); }
		mem_faults_armed=false; clear_faults();
		if(threw){ live=mem_live(); { std::string().swap(got); } }
		std::string ctx="a file of "+S(b.size())+" bytes loaded as "+j.it->name()+" (damage "+S(d)+")";
		if(threw){ leak_check(live?mem_live():0,ctx+" failed"); bool cause=!ok||io_fault_errors!=e0||fired_kind(K_NOMEM)!=m0; SIM_CHECK(cause,"spurious_error",ctx+" was refused: "+(oom?"out of memory":what)); feature(13); }
		else{ SIM_CHECK(ok,"accepted_damage",ctx+" was accepted although it cannot be one"); SIM_CHECK(got==expect,"wrong_load",ctx+" returned something else than the file contains"); feature(14); }
		SIM_CHECK(open_fd_count()==0,"open_file","a file stayed open after loading");
	}
}
namespace{
struct CallbackError{ int n; };
bool same_ch(const ContractionHierarchy&a,const ContractionHierarchy&b){ return same(a,b); }
std::string in_memory(const ContractionHierarchy&ch){ Frozen z; std::string s; ch.write([&](const char*p,unsigned long long l){ s.append(p,l); }); return s; }
}
namespace{
// one inconsistency in a hierarchy; false if this hierarchy has no place for it
bool make_inconsistent(ContractionHierarchy&h,Rng&r){
	bool fw=r.chance(1,2); auto&a=fw?h.forward:h.backward; unsigned n=(unsigned)h.rank.size(),m=(unsigned)a.head.size(); unsigned xy=m?(unsigned)r.below(m):0,x=0; if(m) while(a.first_out[x+1]<=xy) ++x;
	bool shortcut=m&&!a.is_shortcut_an_original_arc.is_set(xy);
	switch(r.below(9)){
		case 0: if(!m) return false; a.head[xy]=(unsigned)r.below(x+1); return true;
		case 1: if(!m) return false; a.head[xy]=n+(unsigned)r.below(3); return true;
		case 2: if(!shortcut) return false; a.weight[xy]^=1u<<r.below(31); return true;
		case 3: if(!m) return false; a.first_out[0]=1; return true;
		case 4: if(n<2||a.first_out[x]==a.first_out[x+1]||x==0) return false; std::swap(a.first_out[x],a.first_out[x+1]); return true;
		case 5: if(!shortcut) return false; if(r.chance(1,2)) a.shortcut_first_arc[xy]=(unsigned)h.backward.head.size()+(unsigned)r.below(2); else a.shortcut_second_arc[xy]=(unsigned)h.forward.head.size()+(unsigned)r.below(2); return true;
		case 6: if(n<2) return false; { unsigned i=(unsigned)r.below(n),j=(i+1)%n; if(r.chance(1,2)) h.rank[i]=h.rank[j]; else std::swap(h.rank[i],h.rank[j]); } return true;
		case 7: switch(r.below(4)){ case 0: a.head.push_back(n-1); break; case 1: a.weight.push_back(1); break; case 2: a.shortcut_first_arc.push_back(0); break; default: a.shortcut_second_arc.push_back(0); } return true;
		default: if(!m) return false; if(shortcut){ if(fw) a.shortcut_second_arc[xy]=xy; else a.shortcut_first_arc[xy]=xy; } else if(r.chance(1,2)) a.shortcut_first_arc[xy]=NONE; else a.shortcut_second_arc[xy]=n; return true;
	}
}
}
SCENARIO(ch_store){
	Rng r(draw(1ull<<32));
	unsigned n= chance(1,10)? 200+(unsigned)draw(400) : (unsigned)skewed(1,40); int shape=(int)draw(8); bool large=chance(1,150); if(large){ n= chance(1,2)?65530+(unsigned)draw(2000):4000+(unsigned)draw(30000); shape=chance(1,2)?3:7; feature(27); } if(n>60&&shape==6) shape=1;
	if(n>60&&shape==4) shape=2; Graph g=random_graph(r,n,shape,(int)draw(6)); if(chance(1,20)) g=random_graph(r,1,3,0);
	ContractionHierarchy ch=build_ch(g,r,(unsigned)draw(3),n>60?20:500),before=ch;
	std::string image=in_memory(ch),path=scratch+"ch"; n=g.n;
	// ---- saving
	unsigned way=(unsigned)draw(3); // save_file, standard stream on a file, callback
	if(chance(1,4)) put_file(path,std::string(draw_bytes(),'o'));
	unsigned k=0; uint64_t cbfail=~0ull; bool saved=false,threw=false,foreign=false; std::string text;
	if(way<2) k=plan_save_faults(true); else if(chance(1,2)) cbfail=draw(16);
	{ Frozen z; note("hierarchy of "+S(n)+" nodes, "+S(ch.forward.head.size())+" + "+S(ch.backward.head.size())+" arcs; saved by "+(way==0?"save_file":way==1?"a stream":"a callback")+"; fault: "+(way<2?fault_names[k]:cbfail==~0ull?"none":"callback throws at call "+S(cbfail))); }
	feature((int)way); feature(3+(int)k);
	uint64_t e0=io_fault_errors,c=0; mem_reset();
	try{
		if(way==0) ch.save_file(path);
		else if(way==1){ std::ofstream out(path,std::ios::binary); if(!out) throw std::runtime_error("open"); ch.write(out); out.close(); if(!out) throw std::runtime_error("close"); }
		else { Frozen*z=nullptr; (void)z; ch.write([&](const char*p,unsigned long long l){ if(c++==cbfail) throw CallbackError{5}; Frozen f; text.append(p,l); }); }
		saved=true;
	}catch(CallbackError&e){ threw=true; foreign=e.n!=5; }catch(std::exception&){ threw=true; }
	mem_faults_armed=false; clear_faults(); uint64_t live=mem_live(); bool crash=io_crashed();
	if(way<2) leak_check(live,"saving");
	io_heal();
	SIM_CHECK(open_fd_count()==0,"open_file","the file stayed open after saving");
	SIM_CHECK(same_ch(ch,before),"changed","saving changed the hierarchy");
	if(way==2){
		if(cbfail!=~0ull&&c>cbfail) SIM_CHECK(threw&&!foreign,"swallowed","the exception of the callback did not come out of the save"); else SIM_CHECK(saved,"spurious_error","saving failed without cause");
		if(saved) SIM_CHECK(text.size()==image.size(),"incomplete_save","the callback received another amount of data");
		put_file(path,text);
	}else if(threw) SIM_CHECK(io_fault_errors!=e0||fired_kind(K_EINTR)||fired_kind(K_NOMEM)||crash,"spurious_error","saving failed without cause");
	std::string disk=exists(path)?slurp_file(path):std::string(); bool complete=saved&&!crash;
	if(crash) feature(12);
	if(complete) SIM_CHECK(disk.size()==image.size(),"incomplete_save","saving returned normally but the file has "+S(disk.size())+" of "+S(image.size())+" bytes");
	// ---- loading what is there, perhaps after further damage
	unsigned rounds=1+(unsigned)draw(3);
	for(unsigned q=0;q<rounds;++q){
		std::string b=disk; bool survived=disk.size()==image.size()&&disk.compare(0,20,image,0,20)==0&&disk.compare(24,std::string::npos,image,24,std::string::npos)==0,whole=survived; // bytes 20 to 23 are padding
		SIM_CHECK(survived||!complete,"incomplete_save","saving returned normally but the file has other contents"); unsigned d=(unsigned)draw(5); uint64_t x=draw(1u<<30);
		unsigned how=(unsigned)draw(5); // load_file, stream, stream with size, callback, callback with size
		bool prefix=disk.size()<=image.size()&&disk.compare(0,std::min<size_t>(20,disk.size()),image,0,std::min<size_t>(20,disk.size()))==0&&(disk.size()<=24||image.compare(24,disk.size()-24,disk,24,std::string::npos)==0);
		if(!prefix&&(how==1||how==3)) ++how; // a failed write can leave a gap, which only the size gives away
		bool sized= how==0||how==2||how==4; if(d==2&&!survived) d=0; // lost and then appended data cannot be told from the real thing
		if(d==1&&!b.empty()){ size_t cut= x%3==0?x/3%std::min<size_t>(b.size(),40):x%3==1?b.size()-1-x/3%std::min<size_t>(b.size(),70):x/3%b.size(); b.resize(cut); whole=false; }
		if(d==2){ b+=std::string(1+(x%2?x/2%3:x/2%9000),(char)(x>>13)); whole=false; }
		if(d==2&&!sized) whole=true; // what follows belongs to whoever reads the stream next
		put_file(path,b); feature(16+(int)how); uint64_t claimed=b.size(); if(sized&&d!=1&&chance(1,12)){ // four gigabytes more than there should be
			claimed+=1ull<<32; whole=false; d=6; feature(26); Frozen z; if(how==0&&truncate(path.c_str(),(off_t)claimed)!=0) internal_error("cannot extend the scratch file"); }
		unsigned lk=0; uint64_t rfail=~0ull,rc=0; if(how<3) lk=plan_load_faults(); else if(chance(1,3)) rfail=draw(16);
		e0=io_fault_errors; uint64_t m0=fired_kind(K_NOMEM); bool ok=false,err=false,cb=false; std::string what; 
		mem_reset(); ContractionHierarchy*got=nullptr;
		try{
			size_t pos=0; auto src=[&](char*p,unsigned long long l){ if(rc++==rfail) throw CallbackError{6}; if(l>b.size()-pos) throw std::runtime_error("short"); memcpy(p,b.data()+pos,l); pos+=l; };
			if(how==0) got=new ContractionHierarchy(ContractionHierarchy::load_file(path));
			else if(how<3){ std::ifstream in(path,std::ios::binary); if(!in) throw std::runtime_error("open"); if(how==1) got=new ContractionHierarchy(ContractionHierarchy::read(in)); else got=new ContractionHierarchy(ContractionHierarchy::read(in,claimed)); }
			else if(how==3) got=new ContractionHierarchy(ContractionHierarchy::read(src)); else got=new ContractionHierarchy(ContractionHierarchy::read(src,claimed));
			ok=true;
		}catch(CallbackError&e){ cb=e.n==6; err=true; }catch(std::exception&e){ Frozen z; err=true; what=e.what(); }
		mem_faults_armed=false; clear_faults();
		std::string ctx="a file of "+S(b.size())+" of "+S(image.size())+" bytes (damage "+S(d)+", read by "+S(how)+")";
		if(err){ bool cause=!whole||io_fault_errors!=e0||fired_kind(K_NOMEM)!=m0||cb; { Frozen z; what.shrink_to_fit(); } SIM_CHECK(cause,"spurious_error",ctx+" was refused: "+what); feature(24); }
		if(rfail!=~0ull&&rc>rfail) SIM_CHECK(err&&cb,"swallowed","the exception of the reading callback did not come out");
		if(ok){
			SIM_CHECK(whole,"accepted_damage",ctx+" was accepted");
			SIM_CHECK(same_ch(*got,ch),"wrong_load",ctx+" was loaded with other contents"); feature(25);
			{ std::string why; try{ check_contraction_hierarchy_for_errors(*got); }catch(std::exception&e){ why=e.what(); } SIM_CHECK(why.empty(),"valid_refused","a correct hierarchy does not pass the check for errors: "+why); }
			if(x%4==0){ Rng r2(x); ContractionHierarchy bad=*got; if(make_inconsistent(bad,r2)){ bool found=false; try{ check_contraction_hierarchy_for_errors(bad); }catch(std::exception&){ found=true; } SIM_CHECK(found,"accepted_damage","an inconsistent hierarchy passes the check for errors"); feature(28); } }
			if(!d&&n){ Oracle o(g,g.w); ContractionHierarchyQuery qq(*got); for(unsigned i=0;i<3;++i){ unsigned s=(unsigned)r.below(n),t=(unsigned)r.below(n); unsigned dd=qq.reset().add_source(s).add_target(t).run().get_distance(); SIM_CHECK(dd==sat(o.dist(s,t)),"wrong_answer","a loaded hierarchy gives a wrong distance"); } }
		}
		SIM_CHECK(open_fd_count()==0,"open_file","the file stayed open after loading");
		delete got;
	}
}
