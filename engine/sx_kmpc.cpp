// Minimal OpenMP runtime on pthreads for native replays (no libomp in the sandbox; visible to ThreadSanitizer).
#include <pthread.h>
#include <cstdarg>
#include <cstdint>
#include <vector>
#include <time.h>
static int nt=1; static thread_local int tid=0; static thread_local int team=1; static pthread_mutex_t crit=PTHREAD_MUTEX_INITIALIZER; static pthread_barrier_t bar; static bool inside=false;
extern "C" {
void omp_set_num_threads(int n){ nt=n>0?n:1; } int omp_get_num_threads(){return team;} int omp_get_thread_num(){return tid;} int omp_get_max_threads(){return nt;} double omp_get_wtime(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
void sx_omp_threads(int n){ nt=n; }
typedef void(*kmpf)(int32_t*,int32_t*,...);
struct Job{ void*fn; int n; void**a; int id,T; };
static void call(Job*j){ int32_t g=j->id,b=0; void**a=j->a; ((void(*)(int32_t*,int32_t*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*))j->fn)(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19],a[20],a[21],a[22],a[23],a[24],a[25],a[26],a[27],a[28],a[29],a[30],a[31],a[32],a[33],a[34],a[35],a[36],a[37],a[38],a[39]); }
static void* thr(void*p){ Job*j=(Job*)p; tid=j->id; team=j->T; call(j); return 0; }
void __kmpc_fork_call(void*,int32_t n,void*fn,...){ va_list ap; va_start(ap,fn); void*a[40]; for(int i=0;i<40;i++)a[i]=i<n?va_arg(ap,void*):nullptr; va_end(ap);
  int T=inside?1:nt; if(T<=1){ Job j{fn,n,a,0,1}; int st=tid,sm=team; tid=0; team=1; call(&j); tid=st; team=sm; return; }
  inside=true; pthread_barrier_init(&bar,0,T); std::vector<pthread_t> th(T); std::vector<Job> js(T); for(int t=0;t<T;t++){ js[t]=Job{fn,n,a,t,T}; pthread_create(&th[t],0,thr,&js[t]); } for(int t=0;t<T;t++)pthread_join(th[t],0); inside=false; }
#define STATIC_INIT(SUF,T) void __kmpc_for_static_init_##SUF(void*,int32_t,int32_t,int32_t*last,T*lo,T*hi,T*st,T inc,T){ T tot=(*hi-*lo)/inc+1; if(*hi<*lo)tot=0; T per=(tot+team-1)/team; T l=*lo+(T)tid*per*inc; T h=l+(per-1)*inc; if(h>*hi)h=*hi; *last=(h==*hi); *st=tot*inc; *lo=l; *hi=h; if(per==0){*lo=1;*hi=0;} }
STATIC_INIT(4,int32_t) STATIC_INIT(4u,uint32_t) STATIC_INIT(8,int64_t) STATIC_INIT(8u,uint64_t)
void __kmpc_for_static_fini(void*,int32_t){} void __kmpc_barrier(void*,int32_t){ if(team>1)pthread_barrier_wait(&bar);} int32_t __kmpc_global_thread_num(void*){return tid;} void __kmpc_push_num_threads(void*,int32_t,int32_t n){ nt=n; }
void __kmpc_critical(void*,int32_t,void*){pthread_mutex_lock(&crit);} void __kmpc_end_critical(void*,int32_t,void*){pthread_mutex_unlock(&crit);}
int32_t __kmpc_single(void*,int32_t){return tid==0;} void __kmpc_end_single(void*,int32_t){} int32_t __kmpc_master(void*,int32_t){return tid==0;} void __kmpc_end_master(void*,int32_t){}
}
