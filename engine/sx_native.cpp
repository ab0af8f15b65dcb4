// Native replay: the same harness, compiled with the ordinary compiler against the real sources, reads its
// inputs from the file named by SX_REPLAY.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <vector>
#include <unistd.h>
static std::map<std::string,std::vector<std::string>> in; static std::map<std::string,size_t> pos; static FILE*obsf=nullptr;
static std::string next(const char*n){ auto it=in.find(n); if(it==in.end()||pos[n]>=it->second.size()){ fprintf(stderr,"REPLAY-MISSING %s\n",n); _exit(5);} return it->second[pos[n]++]; }
static void fail(const char*m,double a,double b){ fprintf(stderr,"REPLAY-VIOLATION %s (%.17g vs %.17g)\n",m,a,b); fflush(stderr); if(obsf)fflush(obsf); _exit(42); }
extern "C" {
double sx_real(const char*n,double,double){ return strtod(next(n).c_str(),0); }
double sx_grid(const char*n,long lo,long hi,double sc){ std::string v=next(n); if(lo==hi)return lo*sc; return strtod(v.c_str(),0); }
long sx_int(const char*n,long,long){ return atol(next(n).c_str()); }
long sx_choice(const char*n,long){ return atol(next(n).c_str()); }
long sx_pin_int(long v){ return v; }
void sx_assume(int c){ if(!c){ fprintf(stderr,"REPLAY-ASSUME\n"); _exit(3);} }
void sx_check(int c,const char*m){ if(!c)fail(m,0,0); }
void sx_check_le(double a,double b,const char*m){ if(!(a<=b)&&!(a-b<=1e-9*(1+fabs(a)+fabs(b))))fail(m,a,b); }
void sx_check_near(double a,double b,double tol,const char*m){ if(!(a==b||fabs(a-b)<=tol+1e-9*(1+fabs(a)+fabs(b))))fail(m,a,b); }
void sx_check_eq(double a,double b,const char*m){ sx_check_near(a,b,0,m); }
void sx_check_sign(double a,const char*m){ sx_check_le(0,a,m); }
static int anyok; static double anymin; void sx_any_begin(void){ anyok=0; anymin=1e300; } void sx_any(double a){ if(a<=1e-9)anyok=1; if(a<anymin)anymin=a; } void sx_any_check(const char*m){ if(!anyok)fail(m,anymin,0); }
void sx_observe(double v){ if(obsf)fprintf(obsf,"%.17g\n",v); }
__attribute__((weak)) void sx_omp_threads(int){} void sx_cover(const char*){} int sx_symbolic(void){return 0;} double sx_parse(const char*t){ return strtod(t,0); } void sx_option(const char*,long){}
}
int main(){ const char*f=getenv("SX_REPLAY"); FILE*fp=f?fopen(f,"r"):0; if(!fp){fprintf(stderr,"no replay file\n");return 5;} static char line[8192]; fgets(line,sizeof line,fp); while(fgets(line,sizeof line,fp)){ char*t=strchr(line,'\t'); if(!t||line[0]=='#')continue; *t=0; char*u=strchr(t+1,'\t'); if(u)*u=0; char*nl=strchr(t+1,'\n'); if(nl)*nl=0; in[line].push_back(t+1);} fclose(fp);
 const char*o=getenv("SX_OBS"); if(o)obsf=fopen(o,"w"); sx_main(); if(obsf)fclose(obsf); fprintf(stderr,"REPLAY-OK\n"); fflush(stderr); fflush(stdout); _exit(0); }
