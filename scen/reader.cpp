// P01, P02: the background reader under every interleaving, with failing sources, memory and threads.
#include "common.h"
#include "buffered_asynchronous_reader.h"
#include "file_data_source.h"
#include <ios>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#include <memory>
using namespace RoutingKit;

namespace{
unsigned pick_block(){ static const unsigned b[]={1,2,3,4,5,7,8,16,31,64,200}; if(chance(1,40)){ static const unsigned big[]={300,1000,4096,5000,70000}; return big[draw(5)]; } return b[draw(11)]; }
struct Src{ // deterministic byte source with partial reads, slow phases and an optional failure
	std::vector<char>data; size_t pos=0; uint64_t calls=0; Rng r{1}; int mode=0; unsigned slow=0; bool scribble=false;
	long throw_at=-1; int throw_kind=0; bool threw=false, ended=false; unsigned block=0; bool big_request=false;
	unsigned long long operator()(char*buf,unsigned long long n){
		uint64_t c=calls++;
		if(n>block) big_request=true;
		for(unsigned i=0;i<slow&&r.chance(1,3);++i){ if(r.chance(1,2)) yield_point(); else { struct timespec ts={0,(long)(1000*(1+r.below(1000)))}; nanosleep(&ts,nullptr); } }
		if(throw_at>=0&&(long)c==throw_at){ threw=true;
			shm->fired[S_SOURCE][K_THROW]++;
			switch(throw_kind){ case 0: throw HarnessError("source failed",42); case 1: throw 17; case 2: throw std::bad_alloc(); default: throw std::ios_base::failure("io"); } }
		size_t left=data.size()-pos; size_t k=std::min<size_t>(left,(size_t)n);
		if(k>0){ if(mode==2&&block>200) k=1+r.below(k); else if(mode==1) k=1+r.below(k); else if(mode==2) k=1; else if(mode==3) k= r.chance(1,4)?k:1+r.below(k); }
		if(scribble){ for(size_t i=0;i<n;++i){ buf[i]=(char)0xAA; if(r.chance(1,std::max<uint64_t>(8,block/8))) yield_point(); } }
		for(size_t i=0;i<k;++i){ buf[i]=data[pos+i]; if(r.chance(1,std::max<uint64_t>(16,block/4))) yield_point(); }
		pos+=k; if(k==0) ended=true; return k;
	}
};
std::vector<char> make_stream(size_t n,uint64_t seed){ std::vector<char>v(n); Rng r(seed); for(size_t i=0;i<n;++i) v[i]=(char)r.next(); return v; }
std::string stream_note(unsigned block,size_t n,const Src&s){ return "block size "+S(block)+", stream of "+S(n)+" bytes, partial-read mode "+S(s.mode)+(s.scribble?", scribbling source":"")+(s.throw_at>=0?", source fails at call "+S((uint64_t)s.throw_at):""); }
// other users of the library: readers of their own, consumed by threads of their own
void neighbours(unsigned count,uint64_t seed){
	for(unsigned i=0;i<count;++i) spawn([=]{
		Rng r(seed+i*977); unsigned block=1+(unsigned)r.below(20); size_t n=(size_t)r.below(block*14+1); std::shared_ptr<Src>src; std::vector<char>expect;
		{ Frozen z; src=std::make_shared<Src>(); src->data=make_stream(n,seed+i); src->mode=(int)r.below(4); src->slow=(unsigned)r.below(3); src->scribble=r.chance(1,3); src->r=Rng(r.next()); src->block=block; if(r.chance(1,4)) src->throw_at=(long)r.below(6); src->throw_kind=1; expect=src->data; }
		bool ends=r.chance(1,4); size_t pos=0;
		try{
			BufferedAsynchronousReader reader([src](char*b,unsigned long long k){ return (*src)(b,k); },block);
			for(;;){
				if(ends&&r.chance(1,6)) break;
				unsigned want=1+(unsigned)r.below(block); char*p=reader.read(want);
				if(p==nullptr){ if(src->threw) violation("error_swallowed","a second reader's source failed but its request reported a normal end"); SIM_CHECK(pos+want>n,"refused","a second reader refused "+S(want)+" bytes with "+S(n-pos)+" left"); if(pos==n) break; p=reader.read((unsigned)(n-pos)); SIM_CHECK(p!=nullptr,"refused_consumed","a second reader lost the bytes of a refused request"); want=(unsigned)(n-pos); }
				for(int k=0;k<2;++k){ { Frozen z; checked(); if(pos+want>n||memcmp(p,expect.data()+pos,want)) violation("wrong_bytes","a second reader delivered wrong bytes at "+S(pos)); } if(k==0) for(unsigned j=0;j<3&&r.chance(1,2);++j) yield_point(); }
				pos+=want;
			}
		}catch(int e){ checked(); if(e!=17||!src->threw) violation("wrong_error","a second reader reported an error that its source did not raise"); }
		catch(HarnessError&){ violation("wrong_error","a second reader reported the error of another reader's source"); }
		catch(std::exception&){ violation("wrong_error","a second reader failed with an error its source did not raise"); }
	});
}
}

SCENARIO(reader_stream){ sync_budget=200000;
	unsigned block=pick_block();
	size_t n=(size_t)skewed(0,(uint64_t)block*(block>200?14:tier?60:30));
	std::shared_ptr<Src>src=std::make_shared<Src>(); src->data=make_stream(n,draw(1000000)+1); src->mode=(int)draw(4); src->slow=(unsigned)draw(4); src->scribble=chance(1,3); src->r=Rng(draw(1000000)+7); src->block=block;
	bool use_file=chance(1,6); unsigned style=(unsigned)draw(4); bool moves=chance(1,4); unsigned stop_early= chance(1,8)? (unsigned)draw(6)+1 : 0;
	bool spurious=chance(1,3); unsigned others= chance(1,4)? 1+(unsigned)draw(2) : 0; uint64_t oseed=others?draw(1000000):0;
	note(stream_note(block,n,*src)+(others?", next to "+S(others)+" other readers":"")+(use_file?", through a file":"")+(moves?", reader moved between requests":""));
	std::string file=scratch+"stream";
	if(use_file){ int fd=::open(file.c_str(),O_CREAT|O_WRONLY,0600); size_t off=0; io_faults_on=false; while(off<n) off+=(size_t)::write(fd,src->data.data()+off,n-off); ::close(fd); io_faults_on=true; fault_prob(S_READ,K_SHORT,1,2,1000000); if(n%2) fault_prob(S_READ,K_EINTR,1,6); }
	if(spurious){ allow_spurious=true; fault_prob(S_COND,K_SPURIOUS,1,6); }
	std::vector<char>expect=src->data; size_t pos=0; std::string err;
	begin_threads(); if(others){ neighbours(others,oseed); feature(3); }
	{
		std::unique_ptr<FileDataSource>fds; std::function<unsigned long long(char*,unsigned long long)>f;
		if(use_file){ fds.reset(new FileDataSource(file)); f=fds->get_read_function_object(); if(n%3==0) fds.reset(new FileDataSource(std::move(*fds))); } else f=[src](char*b,unsigned long long k){ return (*src)(b,k); };
		BufferedAsynchronousReader reader(f,block);
		BufferedAsynchronousReader other; BufferedAsynchronousReader*cur=&reader,*alt=&other;
		unsigned reqs=0; bool exhausted=false; unsigned zero=0;
		while(!exhausted){
			if(stop_early&&reqs>=stop_early) break;
			size_t left=n-pos; unsigned want;
			switch(style){ case 0: want=(unsigned)draw(block+1); break; case 1: want=block; break; case 2: want=(unsigned)std::min<uint64_t>(block,(block>200?block/3:1)+draw(3)); break; default: want=chance(1,4)?block:(unsigned)draw(block+1); }
			if(want==0&&++zero>3) want=1;
			++reqs;
			if(moves&&chance(1,3)){ if(chance(1,2)) *alt=std::move(*cur); else { BufferedAsynchronousReader tmp(std::move(*cur)); *alt=std::move(tmp); } std::swap(cur,alt); feature(0); }
			if(chance(1,20)){ bool threw=false; try{ cur->read(block+1+(unsigned)draw(5)); }catch(std::exception&){ threw=true; } SIM_CHECK(threw,"oversized_request","a request larger than the block size did not throw"); }
			bool orthrow=chance(1,3); char*p=nullptr; bool threw=false;
			if(orthrow){ try{ p=cur->read_or_throw(want); }catch(std::exception&){ threw=true; } } else p=cur->read(want);
			if(p==nullptr){
				SIM_CHECK(!orthrow||threw,"read_or_throw_null","read_or_throw returned no data without throwing");
				SIM_CHECK(want>left,"refused","request for "+S(want)+" bytes refused although "+S(left)+" bytes remain");
				feature(1);
				if(left==0){ exhausted=true; continue; }
				// a refused request consumes nothing: the remaining bytes are still there
				p=cur->read((unsigned)left);
				SIM_CHECK(p!=nullptr,"refused_consumed","after a refused request the remaining "+S(left)+" bytes were not delivered");
				want=(unsigned)left; exhausted=true;
			}
			SIM_CHECK(want<=left,"invented","request for "+S(want)+" bytes granted although only "+S(left)+" bytes remain");
			unsigned hold=(unsigned)draw(4);
			if(chance(1,6)) hold+=20;
			for(unsigned i=0;i<=hold;++i){
				{ Frozen z; checked(); if(want&&memcmp(p,expect.data()+pos,want)!=0){ size_t k=0; while(p[k]==expect[pos+k]) ++k; violation(i==0?"wrong_bytes":"chunk_overwritten","chunk at stream offset "+S(pos)+" of size "+S(want)+" differs at byte "+S(k)+(i?" while the consumer holds it":"")); } }
				if(i<hold){ if(chance(1,2)) yield_point(); else { struct timespec ts={0,1000}; nanosleep(&ts,nullptr); } }
			}
			pos+=want;
			if(pos>5ull*block) feature(2);
		}
		if(exhausted) for(unsigned k=0,c=1+(unsigned)draw(3);k<c;++k) SIM_CHECK(cur->read(1+(unsigned)draw(block))==nullptr,"refused","a request after the end was granted");
		if(exhausted) SIM_CHECK(pos==n,"lost","stream ended after "+S(pos)+" of "+S(n)+" bytes");
		observe(pos);
	}
	if(others) join_all();
	end_threads();
}

// liveness, error hand-over, shutdown
SCENARIO(reader_faults){
	unsigned block=pick_block(); size_t n=(size_t)skewed(0,(uint64_t)block*(block>200?14:tier?40:20));
	std::shared_ptr<Src>src=std::make_shared<Src>(); src->data=make_stream(n,draw(1000000)+1); src->mode=(int)draw(4); src->slow=(unsigned)draw(4); src->scribble=chance(1,4); src->r=Rng(draw(1000000)+7); src->block=block;
	unsigned what=(unsigned)draw(4); // 0: throwing source, 1: destruction at any time, 2: thread creation fails, 3: allocation fails
	if(what==0||(what==1&&chance(1,2))){ src->throw_at= chance(1,4)? (long)draw(80) : (long)skewed(0,12); src->throw_kind=(int)draw(4); }
	bool spurious=chance(1,3); unsigned max_req= what==1? (unsigned)draw(6) : 100000; bool replace=chance(1,5); unsigned readers=(unsigned)draw(3)+1; unsigned idle=(unsigned)draw(20);
	uint64_t fail_idx=draw(5); unsigned others= what<2&&chance(1,4)? 1+(unsigned)draw(2) : 0; uint64_t oseed=others?draw(1000000):0;
	note(stream_note(block,n,*src)+", variant "+S(what)+", at most "+S(max_req)+" requests"+(replace?", reader replaced":""));
	if(spurious){ allow_spurious=true; fault_prob(S_COND,K_SPURIOUS,1,6); }
	if(what==2) plan_fault(S_THREAD,fail_idx%readers,K_EAGAIN);
	std::vector<char>expect=src->data;
	bool seen=false; int code=0; size_t pos=0;
	auto classify=[&]()->int{ try{ throw; }catch(HarnessError&e){ return e.code==42?0:-1; }catch(int i){ return i==17?1:-1; }catch(std::bad_alloc&){ return 2; }catch(std::ios_base::failure&){ return 3; }catch(std::exception&){ return -1; }catch(...){ return -1; } };
	begin_threads(); if(others){ neighbours(others,oseed); feature(4); }
	if(what>=2){
		if(what==3) plan_fault(S_ALLOC,fail_idx,K_NOMEM);
		for(unsigned i=0;i<readers;++i){
			std::shared_ptr<Src>s2; std::function<unsigned long long(char*,unsigned long long)>f;
			{ Frozen z; s2=std::make_shared<Src>(*src); f=[s2](char*b,unsigned long long k){ return (*s2)(b,k); }; }
			mem_reset();
			bool threw=false; std::string msg; bool right=true;
			mem_faults_armed= what==3;
			try{
				BufferedAsynchronousReader reader(f,block);
				mem_faults_armed=false;
				size_t p0=0; for(unsigned q=0;q<3&&p0<n;++q){ unsigned want=(unsigned)std::min<size_t>(block,n-p0); char*p=reader.read(want); Frozen z; checked(); if(!p||memcmp(p,expect.data()+p0,want)) violation("wrong_bytes","reader delivers wrong data after an earlier failed start"); p0+=want; }
			}catch(std::bad_alloc&){ mem_faults_armed=false; threw=true; right=what==3; }
			catch(std::system_error&){ mem_faults_armed=false; threw=true; right=what==2; }
			mem_faults_armed=false;
			{ Frozen z; f=nullptr; }
			checked(); if(threw&&!right) violation("wrong_error","starting a reader failed with an unexpected error");
			if(threw) feature(0);
			leak_check(mem_live(),"after a reader that could not start or was destroyed");
			mem_stop();
			{ Frozen z; s2.reset(); }
		}
	}else{
		BufferedAsynchronousReader reader;
		{ std::function<unsigned long long(char*,unsigned long long)>f=[src](char*b,unsigned long long k){ return (*src)(b,k); }; reader=BufferedAsynchronousReader(f,block); }
		if(replace){ // replace a reader that may be in any state by another one over the same source description
			for(unsigned i=0;i<draw(4);++i) yield_point();
			std::shared_ptr<Src>s2; { Frozen z; s2=std::make_shared<Src>(*src); s2->pos=0; s2->calls=0; s2->threw=false; }
			reader=BufferedAsynchronousReader([s2](char*b,unsigned long long k){ return (*s2)(b,k); },block);
			src=s2; feature(1);
		}
		unsigned after=0; bool end=false;
		for(unsigned q=0;q<max_req&&!end;++q){
			unsigned want=1+(unsigned)draw(block);
			for(unsigned i=0;i<idle&&chance(1,3);++i) yield_point();
			try{
				char*p= chance(1,2)? reader.read(want) : reader.read_or_throw(want);
				if(seen) violation("error_forgotten","a request succeeded after an earlier request reported the source's error");
				if(p==nullptr){ if(want>n-pos&&src->throw_at<0) end=true; else if(src->threw) violation("error_swallowed","the source failed but the request reported a normal end of data"); else if(want<=n-pos) violation("refused","request refused although data remain"); else end=true; continue; }
				if(pos+want>n) violation("invented","more data than the source has");
				Frozen z; checked(); if(memcmp(p,expect.data()+pos,want)) violation("wrong_bytes","wrong data before a source failure"); pos+=want;
			}catch(...){
				int c=classify();
				bool legit_eof= !src->threw && want>n-pos; // read_or_throw at the end
				if(legit_eof&&c==-1){ end=true; continue; }
				checked(); if(!src->threw) violation("spurious_error","a request failed although the source did not");
				if(c!=src->throw_kind) violation("wrong_error","the source's error arrived as a different error");
				seen=true; code=c; feature(2);
				if(++after>3) end=true;
			}
		}
		if(what==0&&max_req==100000){ bool must=src->threw; SIM_CHECK(!must||seen,"error_swallowed","the source failed but no request reported it"); }
		observe(seen); observe((uint64_t)code); observe(pos);
		for(unsigned i=0;i<idle&&chance(1,2);++i) yield_point();
		if(chance(1,2)) { reader=BufferedAsynchronousReader(); feature(3); }
	}
	if(others) join_all();
	end_threads();
	checked();
}

// P01: histories on file sources: reading, rewinding, reopening, moving, with failing system calls
SCENARIO(file_source){
	struct M{ int file=-1; size_t pos=0; };
	unsigned nf=1+(unsigned)draw(3); std::vector<std::vector<char>>data; std::vector<std::string>name; io_faults_on=false;
	for(unsigned i=0;i<nf;++i){ data.push_back(make_stream((size_t)skewed(0,300),draw(1000)+i)); name.push_back(scratch+"f"+S(i)); int fd=::open(name[i].c_str(),O_CREAT|O_WRONLY,0600); size_t off=0; while(off<data[i].size()) off+=(size_t)::write(fd,data[i].data()+off,data[i].size()-off); ::close(fd); }
	io_faults_on=true;
	unsigned no=1+(unsigned)draw(3),ops=1+(unsigned)draw(40); struct Op{ unsigned k,o,x,n; }; std::vector<Op>todo; for(unsigned i=0;i<ops;++i) todo.push_back({(unsigned)draw(10),(unsigned)draw(no),(unsigned)draw(3),1+(unsigned)skewed(0,200)});
	bool fail=chance(1,3); if(chance(1,2)) fault_prob(S_READ,K_SHORT,1,2,1u<<30); if(chance(1,4)) fault_prob(S_READ,K_EINTR,1,4);
	if(fail){ plan_fault(S_READ,draw(8),K_EIO); plan_fault(S_OPEN,draw(5),K_EMFILE); plan_fault(S_SEEK,draw(4),K_EIO); }
	note(S(no)+" sources, "+S(nf)+" files, "+S(ops)+" operations"+(fail?", failing system calls":""));
	begin_threads();
	{
		std::vector<std::unique_ptr<FileDataSource>>src; std::vector<M>m(no); for(unsigned i=0;i<no;++i) src.emplace_back(new FileDataSource);
		char buf[512]; std::vector<std::function<unsigned long long(char*,unsigned long long)>>held(no); // read functions taken earlier, used as long as their file is open
		for(auto&op:todo){
			auto&s=*src[op.o]; auto&q=m[op.o]; unsigned x=op.x%nf; uint64_t e0=io_fault_errors; bool threw=false; unsigned long long got=0; std::string why;
			auto attempt=[&](std::function<void()>f){ try{ f(); }catch(std::exception&e){ threw=true; why=e.what(); } };
			switch(op.k){
				case 0: attempt([&]{ s.open(name[x]); }); if(!threw){ q={(int)x,0}; held[op.o]=nullptr; } break;
				case 1: attempt([&]{ std::unique_ptr<FileDataSource>t(new FileDataSource(name[x])); src[op.o]=std::move(t); }); if(!threw){ q={(int)x,0}; held[op.o]=nullptr; } feature(0); break;
				case 2: s.close(); q=M(); held[op.o]=nullptr; break;
				case 3: if(q.file<0) break; attempt([&]{ s.rewind(); }); if(!threw) q.pos=0; feature(1); break;
				case 4: attempt([&]{ got=s.size(); }); if(!threw) SIM_CHECK(got==(q.file<0?0:data[(size_t)q.file].size()),"wrong_size","the size of a file of "+S(q.file<0?0:data[(size_t)q.file].size())+" bytes is given as "+S(got)); feature(2); break;
				case 5: { unsigned o2=(op.o+1)%no; if(o2==op.o){ s=std::move(*src[o2]); break; } s=std::move(*src[o2]); q=m[o2]; m[o2]=M(); held[op.o]=held[o2]; held[o2]=nullptr; feature(3); break; }
				case 6: { std::unique_ptr<FileDataSource>t(new FileDataSource(std::move(s))); src[op.o]=std::move(t); feature(4); break; }
				default: { if(q.file<0) break; auto&d=data[(size_t)q.file]; memset(buf,0x55,sizeof buf); bool fn=op.x==2; attempt([&]{ if(fn){ if(!held[op.o]) held[op.o]=s.get_read_function_object(); auto f=held[op.o]; got=f(buf,op.n); } else got=s.read(buf,op.n); }); if(threw) break; size_t left=d.size()-q.pos; SIM_CHECK(got<=std::min<size_t>(left,op.n)&&(got>0||left==0),"wrong_count","a read of "+S(op.n)+" bytes with "+S(left)+" left returned "+S(got)); SIM_CHECK(memcmp(buf,d.data()+q.pos,got)==0,"wrong_bytes","a file source returned other bytes than the file contains at "+S(q.pos)); for(size_t i=got;i<op.n;++i) SIM_CHECK(buf[i]==0x55,"wrong_bytes","a read wrote behind the bytes it returned"); q.pos+=got; observe(got); }
			}
			if(threw){ SIM_CHECK(io_fault_errors!=e0,"spurious_error","a file source failed without cause: "+why); feature(5); }
		}
	}
	SIM_CHECK(open_fd_count()==0,"open_file","a file source left a file open");
	end_threads();
}
