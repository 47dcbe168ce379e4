// Storage seam: every file below sim::scratch goes through these entry points. Short transfers,
// interruptions, I/O errors, a full disk, failing open/close/seek and a crash in the middle of a
// write are injected here.
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <sys/syscall.h>
namespace sim{
static const int MAXFD=4096; static unsigned char tr[MAXFD]; static bool disk_full=false,crashed=false; bool io_closed_twice=false;
uint64_t io_written_limit=~0ull; uint64_t io_fault_errors=0;
bool io_faults_on=true;
static bool below(const char*p){ return p&&!scratch.empty()&&strncmp(p,scratch.c_str(),scratch.size())==0; }
void io_track_fd(int fd){ if(fd>=0&&fd<MAXFD) tr[fd]=1; }
int open_fd_count(){ int n=0; for(int i=0;i<MAXFD;++i) n+=tr[i]; return n; }
static bool tracked(int fd){ return fd>=0&&fd<MAXFD&&tr[fd]&&self&&g_frozen==0&&io_faults_on; }
void io_reset(){ memset(tr,0,sizeof tr); disk_full=false; crashed=false; io_written_limit=~0ull; io_fault_errors=0; }
bool io_crashed(){ return crashed; }
void io_heal(){ disk_full=false; crashed=false; io_written_limit=~0ull; }
static int open_fault(const char*p){ if(!(self&&g_frozen==0&&io_faults_on&&below(p))) return 0; sync_point(); Fault f=fault_point(S_OPEN); if(f.kind==K_EMFILE||f.kind==K_EIO||f.kind==K_ENOSPC){ ++io_fault_errors; errno= f.kind==K_EMFILE?EMFILE:f.kind==K_EIO?EIO:ENOSPC; return -1; } return 0; }
static void opened(const char*p,int fd){ if(below(p)) io_track_fd(fd); }
// A crash freezes the disk: the bytes written so far are what survives, everything the run does afterwards is discarded
// (later changes of scratch files pretend to succeed and go nowhere) until io_heal(), which is the restart.
static const char*after_crash(const char*p,bool changes){ return crashed&&changes&&below(p)?"/dev/null":p; }
static bool changes(int fl){ return (fl&O_ACCMODE)!=O_RDONLY||(fl&(O_CREAT|O_TRUNC)); }
static bool changes(const char*m){ return m[0]!='r'||strchr(m,'+'); }
// a failing close means that data the system had accepted did not reach the disk
static void lose_tail(int fd,uint64_t arg){ struct stat st; if((fcntl(fd,F_GETFL)&O_ACCMODE)!=O_RDONLY&&fstat(fd,&st)==0&&st.st_size>0) (void)!syscall(SYS_ftruncate,fd,(off_t)(arg%(uint64_t)st.st_size)); }
// returns number of bytes that may be written now (<=n); -1 with errno for an error
static ssize_t write_gate(int fd,size_t n){
	sync_point();
	if(n==0) return 0;
	Fault f=fault_point(S_WRITE);
	size_t m=n;
	if(f.kind==K_EINTR){ errno=EINTR; return -1; }
	if(f.kind==K_EIO){ ++io_fault_errors; errno=EIO; return -1; }
	if(f.kind==K_SHORT) m=1+f.arg%n;
	if(f.kind==K_ENOSPC){ disk_full=true; io_written_limit=f.arg%(n+1); }
	if(f.kind==K_CRASH){ m=f.arg%(n+1); return -2-(ssize_t)m; }
	if(m>io_written_limit){ m=(size_t)io_written_limit; }
	if(m==0&&n>0){ ++io_fault_errors; errno=ENOSPC; return -1; }
	if(io_written_limit!=~0ull) io_written_limit-=m;
	return (ssize_t)m;
}
}
using namespace sim;
extern "C"{
static int real_open(const char*p,int fl,mode_t m){ return (int)syscall(SYS_openat,AT_FDCWD,p,fl,m); }
int open(const char*p,int fl,...){ va_list ap; va_start(ap,fl); mode_t m=(fl&(O_CREAT|O_TMPFILE))?va_arg(ap,mode_t):0; va_end(ap); if(open_fault(p)) return -1; int fd=real_open(after_crash(p,changes(fl)),fl,m); if(fd>=0) opened(p,fd); return fd; }
int open64(const char*p,int fl,...){ va_list ap; va_start(ap,fl); mode_t m=(fl&(O_CREAT|O_TMPFILE))?va_arg(ap,mode_t):0; va_end(ap); if(open_fault(p)) return -1; int fd=real_open(after_crash(p,changes(fl)),fl|O_LARGEFILE,m); if(fd>=0) opened(p,fd); return fd; }
int creat(const char*p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
FILE*fopen(const char*p,const char*m){ if(open_fault(p)) return nullptr; FILE*f; { NoAcct z; f=REAL(fopen)(after_crash(p,changes(m)),m); } if(f) opened(p,fileno(f)); return f; }
FILE*fopen64(const char*p,const char*m){ if(open_fault(p)) return nullptr; FILE*f; { NoAcct z; f=REAL(fopen64)(after_crash(p,changes(m)),m); } if(f) opened(p,fileno(f)); return f; }
int fclose(FILE*f){ int fd=fileno(f); bool t=tracked(fd); Fault x={0,K_NONE,0,0}; if(t){ sync_point(); x=fault_point(S_CLOSE); } if((x.kind==K_EIO||x.kind==K_ENOSPC)&&!crashed) lose_tail(fd,x.arg); if(fd>=0&&fd<MAXFD) tr[fd]=0; int r; { NoAcct z; r=REAL(fclose)(f); } if(x.kind==K_EIO||x.kind==K_ENOSPC){ ++io_fault_errors; errno=x.kind==K_EIO?EIO:ENOSPC; return EOF; } return r; }
int close(int fd){ bool t=tracked(fd); Fault x={0,K_NONE,0,0}; if(t){ sync_point(); x=fault_point(S_CLOSE); } if((x.kind==K_EIO||x.kind==K_ENOSPC)&&!crashed) lose_tail(fd,x.arg); if(fd>=0&&fd<MAXFD) tr[fd]=0; int r=(int)syscall(SYS_close,fd); if(x.kind==K_EIO||x.kind==K_ENOSPC){ ++io_fault_errors; errno=EIO; return -1; } return r; }
ssize_t read(int fd,void*b,size_t n){
	if(!tracked(fd)) return syscall(SYS_read,fd,b,n);
	sync_point();
	Fault f=fault_point(S_READ);
	if(f.kind==K_EINTR){ errno=EINTR; return -1; }
	if(f.kind==K_EIO){ ++io_fault_errors; errno=EIO; return -1; }
	if(f.kind==K_SHORT&&n>1) n=1+f.arg%n;
	return syscall(SYS_read,fd,b,n);
}
ssize_t pread(int fd,void*b,size_t n,off_t o){ if(tracked(fd)){ sync_point(); Fault f=fault_point(S_READ); if(f.kind==K_EINTR){ errno=EINTR; return -1; } if(f.kind==K_EIO){ ++io_fault_errors; errno=EIO; return -1; } if(f.kind==K_SHORT&&n>1) n=1+f.arg%n; } return syscall(SYS_pread64,fd,b,n,o); }
ssize_t write(int fd,const void*b,size_t n){
	if(!tracked(fd)) return syscall(SYS_write,fd,b,n);
	if(crashed) return (ssize_t)n;
	ssize_t m=write_gate(fd,n); if(m==-1) return -1;
	if(m<=-2){ size_t k=(size_t)(-2-m); if(k) syscall(SYS_write,fd,b,k); crashed=true; return (ssize_t)n; }
	return syscall(SYS_write,fd,b,(size_t)m);
}
ssize_t writev(int fd,const struct iovec*v,int c){
	if(!tracked(fd)) return syscall(SYS_writev,fd,v,c);
	size_t n=0; for(int i=0;i<c;++i) n+=v[i].iov_len;
	if(crashed) return (ssize_t)n;
	ssize_t m=write_gate(fd,n); if(m==-1) return -1;
	bool cr=m<=-2; size_t left= cr?(size_t)(-2-m):(size_t)m, wrote=0;
	for(int i=0;i<c&&left;++i){ size_t k=v[i].iov_len<left?v[i].iov_len:left; ssize_t r=syscall(SYS_write,fd,v[i].iov_base,k); if(r<0) return wrote?(ssize_t)wrote:-1; wrote+=(size_t)r; left-=(size_t)r; }
	if(cr){ crashed=true; return (ssize_t)n; }
	return (ssize_t)wrote;
}
off_t lseek(int fd,off_t o,int w){ if(tracked(fd)){ sync_point(); Fault f=fault_point(S_SEEK); if(f.kind==K_EIO){ ++io_fault_errors; errno=EIO; return -1; } } return syscall(SYS_lseek,fd,o,w); }
off64_t lseek64(int fd,off64_t o,int w){ if(tracked(fd)){ sync_point(); Fault f=fault_point(S_SEEK); if(f.kind==K_EIO){ ++io_fault_errors; errno=EIO; return -1; } } return syscall(SYS_lseek,fd,o,w); }
int rename(const char*a,const char*b){ if(crashed&&(below(a)||below(b))) return 0; return (int)syscall(SYS_renameat,AT_FDCWD,a,AT_FDCWD,b); }
int unlink(const char*a){ if(crashed&&below(a)) return 0; return (int)syscall(SYS_unlinkat,AT_FDCWD,a,0); }
int remove(const char*a){ if(crashed&&below(a)) return 0; int r=(int)syscall(SYS_unlinkat,AT_FDCWD,a,0); if(r<0&&errno==EISDIR) r=(int)syscall(SYS_unlinkat,AT_FDCWD,a,AT_REMOVEDIR); return r; }
int ftruncate(int fd,off_t n){ if(crashed&&fd>=0&&fd<MAXFD&&tr[fd]) return 0; return (int)syscall(SYS_ftruncate,fd,n); }
int truncate(const char*a,off_t n){ if(crashed&&below(a)) return 0; return (int)syscall(SYS_truncate,a,n); }
}
