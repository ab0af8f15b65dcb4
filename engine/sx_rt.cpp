// Symbolic runtime: exact polynomial/rational-function expressions, forking path exploration, SMT queries (z3 C API).
#include <gmpxx.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <semaphore.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <cstdarg>
#include <climits>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include <string>
#include <atomic>
#include <new>
#include <algorithm>

typedef mpq_class Q;
extern "C" { uint32_t __sx_h=0, __sx_ret=0, __sx_args[64]; extern const char* const __sx_fnames[]; extern const uint32_t __sx_fnames_n; extern const char* const __sx_locs[]; extern const uint32_t __sx_locs_n; void sx_main(void); void __sx_enter(uint32_t);
const char* __sx_curfn(){return "";} }

// ---------------------------------------------------------------- shared state
struct Shared {
  std::atomic<long> live, paths, infeasible, queries, sat, unsat, unknown, forks, ncand, stop, lost, crash, steplimit, exits, assumed, checks, solver_us, maxdepth, abstracted, checkunk, conc, fallback, nwit;
  sem_t tokens;
  unsigned char fcov[65536];
  struct { char name[96]; std::atomic<long> n; } cover[64];
  std::atomic<int> ncover; char lostmsg[256];
  struct { char msg[200]; std::atomic<long> n; std::atomic<long> unk; } chk[256]; std::atomic<int> nchk; std::atomic<int> lock;
};
static Shared* S; static std::string outdir="."; static long opt_rlimit=3000000, opt_steps=200000000, opt_maxcand=12; static int opt_uninit=0, opt_nofork=0; static double deadline=1e18;
static int opt_intpure=1; static unsigned opt_qms=20000;
static double nowt(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static uint32_t curloc=0; static uint32_t curf=0; static long steps=0; static long depth=0; static bool owns_token=false; static std::vector<pid_t> kids; static bool pc_unsure=false; static bool finished=false;
static void lockS(){ int e=0; while(!S->lock.compare_exchange_weak(e,1)){e=0;} } static void unlockS(){S->lock=0;}
[[noreturn]] static void finish(int code);
static void candidate(const char*kind,const std::string&msg,const struct Model*m);
static const char* locname(uint32_t l){ return l<__sx_locs_n?__sx_locs[l]:"?"; }

// ---------------------------------------------------------------- polynomials
typedef std::vector<std::pair<int,int>> Mono;
typedef std::map<Mono,Q> Poly;
struct Atom { int kind; /*0 real 1 int 2 sqrt*/ std::string name; Poly rad; Q lo,hi; bool haslo=false,hashi=false; bool user=false; Q scale=1; };
static std::vector<Atom> atoms;
struct Val { Poly n,d; bool hasd=false, nonneg=false, isint=false; };
static std::vector<Val> vals(1);
static bool isconst(const Poly&p){ return p.empty()||(p.size()==1&&p.begin()->first.empty()); }
static Q constof(const Poly&p){ return p.empty()?Q(0):p.begin()->second; }
static Poly pconst(const Q&q){ Poly p; if(q!=0)p[Mono()]=q; return p; }
static Poly patom(int a){ Poly p; p[Mono{{a,1}}]=1; return p; }
static void addto(Poly&a,const Mono&m,const Q&c){ if(c==0)return; auto it=a.find(m); if(it==a.end())a.emplace(m,c); else { it->second+=c; if(it->second==0)a.erase(it);} }
static Poly padd(const Poly&a,const Poly&b){ const Poly&L=a.size()>=b.size()?a:b; const Poly&s=a.size()>=b.size()?b:a; Poly r=L; for(auto&t:s)addto(r,t.first,t.second); return r; }
static Poly pneg(const Poly&a){ Poly r=a; for(auto&t:r)t.second=-t.second; return r; }
static Poly psub(const Poly&a,const Poly&b){ Poly r=a; for(auto&t:b)addto(r,t.first,-t.second); return r; }
static Poly pscale(const Poly&a,const Q&c){ if(c==0)return Poly(); Poly r=a; for(auto&t:r)t.second*=c; return r; }
static Poly pmul(const Poly&a,const Poly&b);
static void mulmono(Poly&r,const Mono&x,const Mono&y,const Q&c){
  Mono m; m.reserve(x.size()+y.size()); size_t i=0,j=0; bool sq=false;
  while(i<x.size()||j<y.size()){ if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first))m.push_back(x[i++]); else if(i>=x.size()||y[j].first<x[i].first)m.push_back(y[j++]); else { m.push_back({x[i].first,x[i].second+y[j].second}); if(atoms[x[i].first].kind==2)sq=true; i++;j++; } }
  if(!sq){ addto(r,m,c); return; }
  Poly extra=pconst(c); Mono rest; for(auto&f:m){ if(atoms[f.first].kind==2&&f.second>=2){ int e=f.second/2; for(int k=0;k<e;k++)extra=pmul(extra,atoms[f.first].rad); if(f.second&1)rest.push_back({f.first,1}); } else rest.push_back(f); }
  if(rest.empty()){ for(auto&t:extra)addto(r,t.first,t.second); } else { Poly rr; rr[rest]=1; Poly q=pmul(extra,rr); for(auto&t:q)addto(r,t.first,t.second); }
}
[[noreturn]] static void toolarge();
static Poly pmul(const Poly&a,const Poly&b){ if(a.size()*b.size()>400000)toolarge(); if(isconst(a))return pscale(b,constof(a)); if(isconst(b))return pscale(a,constof(b)); Poly r; for(auto&x:a)for(auto&y:b){ Q c=x.second*y.second; mulmono(r,x.first,y.first,c);} return r; }
static int maxsqrt(const Poly&p){ int r=-1; for(auto&t:p)for(auto&f:t.first)if(atoms[f.first].kind==2&&f.first>r)r=f.first; return r; }
static void atomset(const Poly&p,std::set<int>&s){ for(auto&t:p)for(auto&f:t.first)s.insert(f.first); }
static int degree(const Poly&p){ int d=0; for(auto&t:p){int e=0;for(auto&f:t.first)e+=f.second; if(e>d)d=e;} return d; }
// intervals
struct Iv { bool lo=false,hi=false; Q l,h; };
static Iv ivatom(int a);
static Iv ivmul(const Iv&a,const Iv&b){ // general, with infinities as absent
  Iv r; auto zero=[&](const Iv&x){return x.lo&&x.hi&&x.l==0&&x.h==0;}; if(zero(a)||zero(b)){r.lo=r.hi=true;r.l=r.h=0;return r;}
  if(a.lo&&a.hi&&b.lo&&b.hi){ Q c[4]={a.l*b.l,a.l*b.h,a.h*b.l,a.h*b.h}; r.lo=r.hi=true; r.l=r.h=c[0]; for(int i=1;i<4;i++){ if(c[i]<r.l)r.l=c[i]; if(c[i]>r.h)r.h=c[i]; } return r; }
  if(a.lo&&a.l>=0&&b.lo&&b.l>=0){ r.lo=true; r.l=a.l*b.l; if(a.hi&&b.hi){r.hi=true;r.h=a.h*b.h;} return r; }
  return r; }
static Iv ivpoly(const Poly&p){ Iv r; r.lo=r.hi=true; r.l=r.h=0; for(auto&t:p){ Iv m; m.lo=m.hi=true; m.l=m.h=1; for(auto&f:t.first){ Iv a=ivatom(f.first); int e=f.second; Iv pw; pw.lo=pw.hi=true;pw.l=pw.h=1; for(int k=0;k<e/2;k++){ Iv sq=ivmul(a,a); if(a.lo&&a.hi&&a.l<=0&&a.h>=0){sq.l=0;} else if(!(sq.lo)){sq.lo=true;sq.l=0;} if(sq.lo&&sq.l<0)sq.l=0; pw=ivmul(pw,sq);} if(e&1)pw=ivmul(pw,a); m=ivmul(m,pw);} 
    if(t.second>0){ if(r.lo&&m.lo)r.l+=t.second*m.l; else r.lo=false; if(r.hi&&m.hi)r.h+=t.second*m.h; else r.hi=false; }
    else { if(r.lo&&m.hi)r.l+=t.second*m.h; else r.lo=false; if(r.hi&&m.lo)r.h+=t.second*m.l; else r.hi=false; } }
  return r; }
static Iv ivatom(int a){ Iv r; Atom&A=atoms[a]; r.lo=A.haslo; r.hi=A.hashi; if(r.lo)r.l=A.lo; if(r.hi)r.h=A.hi; return r; }

// ---------------------------------------------------------------- formulas
enum {LT,LE,EQ,NE};
struct F { int k; /*0 false 1 true 2 cmp 3 and 4 or*/ int op; Poly p; std::vector<F> c; };
static F fb(bool b){ F f; f.k=b?1:0; f.op=0; return f; }
static F fand(F a,F b){ if(a.k==0||b.k==1)return a; if(b.k==0||a.k==1)return b; F f; f.k=3;f.op=0; f.c={a,b}; return f; }
static F for_(F a,F b){ if(a.k==1||b.k==0)return a; if(b.k==1||a.k==0)return b; F f; f.k=4;f.op=0; f.c={a,b}; return f; }
static F mkcmp(const Poly&p,int op);
static bool polysqrt(const Poly&R,Poly&q);
static F factorcmp(const Poly&p,int op);
static F fcmpP(const Poly&p,int op){ F f; f.k=2; f.op=op; f.p=p; return f; }
// Tolerances over bounded integer atoms: p = p0 + p1 with p0 in Z/D and |p1| < 1/D, so the sign of p is the sign of p0 unless p0 = 0.
static bool splitcmp(const Poly&p,int op,F&out){
  bool need=false; for(auto&t:p){ if(mpz_cmp_ui(t.second.get_den_mpz_t(),1000000)>0)need=true; for(auto&f:t.first)if(atoms[f.first].kind!=1)return false; }
  if(!need)return false;
  Q mx=0; for(auto&t:p){ Q a=abs(t.second); if(a>mx)mx=a; }
  for(long k:{1L,0L}){ Q nrm=k?Q(1):1/mx; // also try after scaling the largest coefficient to one
    for(long D:{1L,4L,16L,144L,100L,400L,3600L,10000L,160000L,14400L}){ Poly p0,p1; for(auto&t:p){ Q c=t.second*nrm*D+Q(1,2); mpz_class z; mpz_fdiv_q(z.get_mpz_t(),c.get_num_mpz_t(),c.get_den_mpz_t()); addto(p0,t.first,Q(z)/D); addto(p1,t.first,t.second*nrm-Q(z)/D); }
      if(p1.empty()||p0.empty())continue; Iv iv=ivpoly(p1); if(!iv.lo||!iv.hi)return false; Q g(1,D); if(!(iv.l>-g&&iv.h<g))continue;
      F z0=mkcmp(p0,EQ);
      if(op==EQ){ out=fand(z0,z0.k==0?fb(false):mkcmp(p1,EQ)); return true; } if(op==NE){ out=for_(mkcmp(p0,NE),z0.k==0?fb(false):mkcmp(p1,NE)); return true; }
      out=for_(mkcmp(p0,LT),fand(z0,z0.k==0?fb(false):mkcmp(p1,op))); return true; } }
  return false; }
static F mkcmp(const Poly&p,int op){
  if(isconst(p)){ int s=sgn(constof(p)); return fb(op==LT?s<0:op==LE?s<=0:op==EQ?s==0:s!=0); }
  Iv iv=ivpoly(p);
  if(op==LT){ if(iv.hi&&iv.h<0)return fb(true); if(iv.lo&&iv.l>=0)return fb(false);} else if(op==LE){ if(iv.hi&&iv.h<=0)return fb(true); if(iv.lo&&iv.l>0)return fb(false);} else if((iv.lo&&iv.l>0)||(iv.hi&&iv.h<0))return fb(op==NE);
  int s=maxsqrt(p); if(s<0){ F sp; if(splitcmp(p,op,sp))return sp; if(degree(p)<2)return fcmpP(p,op); return factorcmp(p,op); }
  Poly A,B; for(auto&t:p){ bool has=false; Mono m; for(auto&f:t.first){ if(f.first==s)has=true; else m.push_back(f);} if(has)addto(B,m,t.second); else addto(A,m,t.second); }
  Poly R=atoms[s].rad; Poly B2R=pmul(pmul(B,B),R), A2=pmul(A,A);
  // special case: difference of two plain square roots
  if(isconst(B)&&A.size()==1&&A.begin()->first.size()==1&&atoms[A.begin()->first[0].first].kind==2&&A.begin()->first[0].second==1&&sgn(A.begin()->second)!=sgn(constof(B))){
    // b*s + a*t, opposite signs: sign equals sign of (b*|b| ... ) => b>0: sign(b^2 R - a^2 T)
    Poly d=psub(B2R,A2); if(sgn(constof(B))<0)d=pneg(d); return mkcmp(d,op); }
  auto pos=[&]{ return op==LT? fand(mkcmp(A,LT),mkcmp(psub(B2R,A2),LT)) : fand(mkcmp(A,LE),mkcmp(psub(B2R,A2),LE)); };
  auto neg=[&]{ return op==LT? for_(mkcmp(A,LT),mkcmp(psub(A2,B2R),LT)) : for_(mkcmp(A,LE),mkcmp(psub(A2,B2R),LE)); };
  if(op==LT||op==LE){
    if(isconst(B)) return sgn(constof(B))>0?pos():neg();
    F bp=mkcmp(pneg(B),LT), bn=mkcmp(B,LT), bz=mkcmp(B,EQ);
    return for_(for_(fand(bp,pos()),fand(bn,neg())),fand(bz,mkcmp(A,op)));
  }
  F eq=fand(mkcmp(psub(A2,B2R),EQ),mkcmp(pmul(A,B),LE));
  if(op==EQ)return eq;
  return for_(mkcmp(psub(A2,B2R),NE),mkcmp(pneg(pmul(A,B)),LT));
}
static F fnot(const F&f){ switch(f.k){case 0:return fb(true);case 1:return fb(false);case 2: if(f.op==EQ)return fcmpP(f.p,NE); if(f.op==NE)return fcmpP(f.p,EQ); return fcmpP(pneg(f.p),f.op==LT?LE:LT);} F g; g.k=f.k==3?4:3; g.op=0; for(auto&c:f.c)g.c.push_back(fnot(c)); return g; }
static void fatoms(const F&f,std::set<int>&s){ if(f.k==2)atomset(f.p,s); for(auto&c:f.c)fatoms(c,s); }

// ---------------------------------------------------------------- model
struct Model { std::vector<Q> v; std::vector<char> ok; };
static Model cur; static bool curvalid=true;
static Q defval(int a){ Atom&A=atoms[a]; if(A.haslo&&A.hashi){ Q m=(A.lo+A.hi)/2; if(A.kind==1){ mpz_class z; mpz_fdiv_q(z.get_mpz_t(),m.get_num_mpz_t(),m.get_den_mpz_t()); m=Q(z);} return m;} if(A.haslo)return A.lo; if(A.hashi)return A.hi; return 0; }
static void growmodel(Model&m){ while(m.v.size()<atoms.size()){ m.v.push_back(defval(m.v.size())); m.ok.push_back(1);} }
static bool evalpoly(const Poly&p,const Model&m,Q&r){ r=0; for(auto&t:p){ Q x=t.second; for(auto&f:t.first){ if(atoms[f.first].kind==2||(size_t)f.first>=m.v.size()||!m.ok[f.first])return false; for(int k=0;k<f.second;k++)x*=m.v[f.first]; } r+=x; } return true; }
static int evalF(const F&f,const Model&m){ // 1 true 0 false -1 unknown
  switch(f.k){case 0:return 0;case 1:return 1;case 2:{Q r; if(!evalpoly(f.p,m,r))return -1; int s=sgn(r); return f.op==LT?s<0:f.op==LE?s<=0:f.op==EQ?s==0:s!=0;}}
  bool unk=false; for(auto&c:f.c){ int e=evalF(c,m); if(f.k==3&&e==0)return 0; if(f.k==4&&e==1)return 1; if(e<0)unk=true; } return unk?-1:(f.k==3?1:0); }
static double approxpoly(const Poly&p,const Model&m){ double r=0; for(auto&t:p){ double x=t.second.get_d(); for(auto&f:t.first){ double b; if(atoms[f.first].kind==2){ double q=approxpoly(atoms[f.first].rad,m); b=q>0?sqrt(q):0; } else b=(size_t)f.first<m.v.size()?m.v[f.first].get_d():0; for(int k=0;k<f.second;k++)x*=b; } r+=x; } return r; }
static double approxval(uint32_t h){ growmodel(cur); Val&v=vals[h]; double n=approxpoly(v.n,cur); if(v.hasd){ double d=approxpoly(v.d,cur); if(d==0)return 0; n/=d; } return n; }

// ---------------------------------------------------------------- z3
static Z3_context Z=nullptr; static std::vector<Z3_ast> zvars; static bool intmode=false;
static void zerr(Z3_context c,Z3_error_code e){ (void)c;(void)e; }
static void zinit(){ if(Z)return; Z3_config cfg=Z3_mk_config(); Z=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z,zerr); }
static bool relaxed=false; static std::vector<Z3_ast> rvars;   // relaxed: integer atoms as reals (restricted to their finite domain in a second attempt)
static Z3_ast zvar(int a){ if(relaxed&&atoms[a].kind==1){ if(rvars.size()<atoms.size())rvars.resize(atoms.size(),nullptr); if(!rvars[a]){ char b[32]; snprintf(b,32,"q%d",a); rvars[a]=Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),Z3_mk_real_sort(Z)); } return rvars[a]; } if(zvars.size()<atoms.size())zvars.resize(atoms.size(),nullptr); if(!zvars[a]){ char b[32]; snprintf(b,32,"a%d",a); zvars[a]=Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),atoms[a].kind==1?Z3_mk_int_sort(Z):Z3_mk_real_sort(Z)); } return zvars[a]; }
static Z3_ast znum(const Q&q,bool real){ if(!real)return Z3_mk_numeral(Z,q.get_num().get_str().c_str(),Z3_mk_int_sort(Z)); return Z3_mk_numeral(Z,q.get_str().c_str(),Z3_mk_real_sort(Z)); }
static Z3_ast zpoly(const Poly&p0,bool real){ Poly p=p0; if(!real){ mpz_class l=1; for(auto&t:p)l=lcm(l,t.second.get_den()); p=pscale(p,Q(l)); }
  std::vector<Z3_ast> sum; for(auto&t:p){ std::vector<Z3_ast> pr; if(t.second!=1||t.first.empty())pr.push_back(znum(t.second,real)); for(auto&f:t.first)for(int k=0;k<f.second;k++){ Z3_ast v=zvar(f.first); if(real&&!relaxed&&atoms[f.first].kind==1)v=Z3_mk_int2real(Z,v); pr.push_back(v);} sum.push_back(pr.size()==1?pr[0]:Z3_mk_mul(Z,pr.size(),pr.data())); }
  if(sum.empty())return znum(Q(0),real); return sum.size()==1?sum[0]:Z3_mk_add(Z,sum.size(),sum.data()); }
static Z3_ast zF(const F&f){ switch(f.k){case 0:return Z3_mk_false(Z);case 1:return Z3_mk_true(Z);case 2:{ std::set<int> s; atomset(f.p,s); bool real=relaxed; for(int a:s)if(atoms[a].kind!=1)real=true; Z3_ast p=zpoly(f.p,real), z=znum(Q(0),real); if(f.op==LT)return Z3_mk_lt(Z,p,z); if(f.op==LE)return Z3_mk_le(Z,p,z); Z3_ast e=Z3_mk_eq(Z,p,z); return f.op==EQ?e:Z3_mk_not(Z,e);} }
  std::vector<Z3_ast> c; for(auto&x:f.c)c.push_back(zF(x)); return f.k==3?Z3_mk_and(Z,c.size(),c.data()):Z3_mk_or(Z,c.size(),c.data()); }
// bit-vector translation of integer problems (exact: widths cover all intermediate magnitudes)
static unsigned bvw(const Poly&p){ Q m=0; for(auto&t:p){ Q x=abs(t.second); for(auto&f:t.first){ Atom&A=atoms[f.first]; Q b=abs(A.lo)>abs(A.hi)?abs(A.lo):abs(A.hi); if(b<1)b=1; for(int k=0;k<f.second;k++)x*=b; } m+=x; } mpz_class z=m.get_num()/m.get_den()+1; return mpz_sizeinbase(z.get_mpz_t(),2)+2; }
static std::map<int,Z3_ast> bvv; static unsigned bvbits=0;
static unsigned atombits(int a){ Atom&A=atoms[a]; Q b=abs(A.lo)>abs(A.hi)?abs(A.lo):abs(A.hi); mpz_class z=b.get_num()/b.get_den()+1; return mpz_sizeinbase(z.get_mpz_t(),2)+1; }
static Z3_ast bvvar(int a,unsigned w){ char b[32]; snprintf(b,32,"b%d",a); unsigned n=atombits(a); Z3_ast v=Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),Z3_mk_bv_sort(Z,n)); return w>n?Z3_mk_sign_ext(Z,w-n,v):v; }
static Z3_ast bvF(const F&f){ switch(f.k){case 0:return Z3_mk_false(Z);case 1:return Z3_mk_true(Z);case 2:{ Poly p=f.p; mpz_class l=1; for(auto&t:p)l=lcm(l,t.second.get_den()); p=pscale(p,Q(l)); unsigned w=bvw(p); std::set<int> s; atomset(p,s); for(int a:s)w=std::max(w,atombits(a)); Z3_sort so=Z3_mk_bv_sort(Z,w);
   Z3_ast pos=nullptr,neg=nullptr; for(auto&t:p){ Z3_ast x=nullptr; for(auto&ff:t.first)for(int k=0;k<ff.second;k++){ Z3_ast v=bvvar(ff.first,w); x=x?Z3_mk_bvmul(Z,x,v):v; } mpz_class c=abs(t.second.get_num()); Z3_ast cc=Z3_mk_numeral(Z,c.get_str().c_str(),so); if(!x)x=cc; else if(c!=1)x=Z3_mk_bvmul(Z,cc,x); Z3_ast&d=sgn(t.second)>0?pos:neg; d=d?Z3_mk_bvadd(Z,d,x):x; }
   Z3_ast z=Z3_mk_numeral(Z,"0",so); if(!pos)pos=z; if(!neg)neg=z; if(f.op==LT)return Z3_mk_bvslt(Z,pos,neg); if(f.op==LE)return Z3_mk_bvsle(Z,pos,neg); Z3_ast e=Z3_mk_eq(Z,pos,neg); return f.op==EQ?e:Z3_mk_not(Z,e);} }
  std::vector<Z3_ast> c; for(auto&x:f.c)c.push_back(bvF(x)); return f.k==3?Z3_mk_and(Z,c.size(),c.data()):Z3_mk_or(Z,c.size(),c.data()); }

static std::vector<F> pc; static std::vector<std::set<int>> pca;
static F boundF(int a,bool lo){ Atom&A=atoms[a]; Poly p=patom(a); return lo?fcmpP(psub(pconst(A.lo),p),LE):fcmpP(psub(p,pconst(A.hi)),LE); }
static bool astrat(Z3_ast a,Q&q,bool&exact){ exact=true; if(Z3_is_numeral_ast(Z,a)){ std::string s=Z3_get_numeral_string(Z,a); // "p" or "p/q"
    q=Q(s); q.canonicalize(); return true; }
  if(Z3_is_algebraic_number(Z,a)){ Z3_ast lo=Z3_get_algebraic_number_lower(Z,a,40); q=Q(std::string(Z3_get_numeral_string(Z,lo))); q.canonicalize(); exact=false; return true; }
  return false; }
// returns 1 sat 0 unsat -1 unknown
static int query(const std::vector<F>&fs,Model&out){
  zinit(); S->queries++; double t0=nowt();
  std::set<int> vs; for(auto&f:fs)fatoms(f,vs);
  std::vector<char> used(pc.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<pc.size();i++)if(!used[i]){ bool hit=false; for(int a:pca[i])if(vs.count(a)){hit=true;break;} if(hit){ used[i]=1; ch=true; vs.insert(pca[i].begin(),pca[i].end()); } } }
  std::vector<F> all; for(size_t i=0;i<pc.size();i++)if(used[i])all.push_back(pc[i]); for(auto&f:fs)all.push_back(f);
  bool anyint=false,anyreal=false,nl=false,bounded=true; int maxdeg=0; for(int a:vs){ if(atoms[a].kind==1)anyint=true; else anyreal=true; if(!atoms[a].haslo||!atoms[a].hashi)bounded=false; }
  std::vector<const F*> st; for(auto&f:all)st.push_back(&f); while(!st.empty()){ const F*f=st.back(); st.pop_back(); if(f->k==2){ int dg=degree(f->p); if(dg>1)nl=true; if(dg>maxdeg)maxdeg=dg; } for(auto&c:f->c)st.push_back(&c); }
  int res=-1; bool usebv=anyint&&!anyreal&&nl&&bounded;
  bool relax=anyint&&nl&&maxdeg>2&&bounded; if(relax)for(int a:vs)if(atoms[a].kind==1&&atoms[a].hi-atoms[a].lo>100)relax=false;
  for(int attempt=relax?-2:0;attempt<2&&res<0;attempt++){
    Z3_solver s; bool bv=false; relaxed=attempt<0;
    if(attempt<0) s= attempt==-2?Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_NRA")):Z3_mk_solver(Z);
    else if(usebv){ bv=(attempt==0); s=bv?Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")):Z3_mk_solver(Z); }
    else if(!nl) { s= attempt==0?Z3_mk_simple_solver(Z): anyint?Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,anyreal?"QF_LIRA":"QF_LIA")):Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_LRA")); }
    else if(!anyint) s= attempt==0?Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_NRA")):Z3_mk_solver(Z);
    else s= attempt==0?Z3_mk_solver(Z):Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_NIRA"));
    if(attempt>0)S->fallback++;
    Z3_solver_inc_ref(Z,s);
    Z3_params ps=Z3_mk_params(Z); Z3_params_inc_ref(Z,ps); Z3_params_set_uint(Z,ps,Z3_mk_string_symbol(Z,"rlimit"),(unsigned)opt_rlimit); Z3_params_set_uint(Z,ps,Z3_mk_string_symbol(Z,"timeout"),opt_qms); Z3_solver_set_params(Z,s,ps); Z3_params_dec_ref(Z,ps);
    for(auto&f:all)Z3_solver_assert(Z,s,bv?bvF(f):zF(f));
    for(int a:vs){ if(atoms[a].haslo){F f=boundF(a,true);Z3_solver_assert(Z,s,bv?bvF(f):zF(f));} if(atoms[a].hashi){F f=boundF(a,false);Z3_solver_assert(Z,s,bv?bvF(f):zF(f));} }
    if(attempt==-1)for(int a:vs)if(atoms[a].kind==1){ std::vector<Z3_ast> dj; mpz_class lo,hi; mpz_cdiv_q(lo.get_mpz_t(),atoms[a].lo.get_num_mpz_t(),atoms[a].lo.get_den_mpz_t()); mpz_fdiv_q(hi.get_mpz_t(),atoms[a].hi.get_num_mpz_t(),atoms[a].hi.get_den_mpz_t()); for(mpz_class k=lo;k<=hi;k++)dj.push_back(Z3_mk_eq(Z,zvar(a),znum(Q(k),true))); Z3_solver_assert(Z,s,dj.size()==1?dj[0]:Z3_mk_or(Z,dj.size(),dj.data())); }
    if(getenv("SX_DUMP")&&atoi(getenv("SX_DUMP"))<=S->queries.load()){ fprintf(stderr,"%s\n(check-sat)\n",Z3_solver_to_string(Z,s)); }
    Z3_lbool r=Z3_solver_check(Z,s);
    if(r==Z3_L_FALSE)res=0; else if(r==Z3_L_TRUE){ res=1; out=cur; growmodel(out); Z3_model m=Z3_solver_get_model(Z,s); Z3_model_inc_ref(Z,m);
      for(int a:vs){ Z3_ast v=nullptr; 
        if(bv){ char b[32]; snprintf(b,32,"b%d",a); Z3_ast c=Z3_mk_const(Z,Z3_mk_string_symbol(Z,b),Z3_mk_bv_sort(Z,atombits(a))); if(Z3_model_eval(Z,m,c,true,&v)){ mpz_class z(std::string(Z3_get_numeral_string(Z,v))); unsigned n=atombits(a); if(mpz_tstbit(z.get_mpz_t(),n-1)){ mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(),2,n); z-=t; } out.v[a]=Q(z); out.ok[a]=1; } }
        else { if(Z3_model_eval(Z,m,zvar(a),true,&v)){ bool ex; Q q; if(astrat(v,q,ex)){ out.v[a]=q; out.ok[a]=ex; } else out.ok[a]=0; } } }
      Z3_model_dec_ref(Z,m);
      if(attempt==-2)for(int a:vs)if(atoms[a].kind==1&&(!out.ok[a]||out.v[a].get_den()!=1)){ res=-1; break; } }
    Z3_solver_dec_ref(Z,s); relaxed=false;
  }
  double dt=nowt()-t0; if(dt>5&&getenv("SX_VERBOSE"))fprintf(stderr,"[sx] slow query %.1fs res %d at %s natoms %zu ncons %zu nl %d\n",dt,res,locname(curloc),vs.size(),all.size(),nl);
  S->solver_us+=(long)(dt*1e6); if(res==1)S->sat++; else if(res==0)S->unsat++; else S->unknown++;
  return res; }

// ---------------------------------------------------------------- known signs
static std::map<Poly,int> known; // canonical poly -> allowed sign mask (1 neg,2 zero,4 pos)
static bool canon(const Poly&p,Poly&c){ Q lead=p.rbegin()->second; c=pscale(p,1/lead); return sgn(lead)<0; } // returns true when flipped
static int flipmask(int m){ return ((m&1)<<2)|(m&2)|((m&4)>>2); }
static int opmask(int op){ return op==LT?1:op==LE?3:op==EQ?2:5; }
static int lookup(const F&f){ if(f.k==0)return 0; if(f.k==1)return 1; if(f.k==2){ Poly c; bool fl=canon(f.p,c); auto it=known.find(c); if(it==known.end())return -1; int m=it->second; if(fl)m=flipmask(m); int o=opmask(f.op); if((m&~o)==0)return 1; if((m&o)==0)return 0; return -1; }
  bool unk=false; for(auto&c:f.c){ int e=lookup(c); if(f.k==3&&e==0)return 0; if(f.k==4&&e==1)return 1; if(e<0)unk=true; } return unk?-1:(f.k==3); }
static void learn(const F&f){ if(f.k==2){ Poly c; bool fl=canon(f.p,c); int o=opmask(f.op); if(fl)o=flipmask(o); auto it=known.find(c); if(it==known.end())known[c]=o; else it->second&=o; } else if(f.k==3)for(auto&c:f.c)learn(c); }
static void addpc(const F&f){ if(f.k==1)return; if(f.k==3){ for(auto&c:f.c)addpc(c); return; } pc.push_back(f); std::set<int> s; fatoms(f,s); pca.push_back(s); learn(f); 
  // tighten atom bounds from linear single-atom facts
  if(f.k==2&&f.op!=NE&&degree(f.p)==1){ int a=-1; bool one=true; Q k=0,c=0; for(auto&t:f.p){ if(t.first.empty())c=t.second; else if(a<0){a=t.first[0].first;k=t.second;} else one=false; } if(one&&a>=0){ Q b=-c/k; Atom&A=atoms[a]; // k*a + c <= 0
      auto hi=[&](Q b){ if(A.kind==1){mpz_class z;mpz_fdiv_q(z.get_mpz_t(),b.get_num_mpz_t(),b.get_den_mpz_t()); if(f.op==LT&&Q(z)==b)z-=1; b=Q(z);} if(!A.hashi||b<A.hi){A.hashi=true;A.hi=b;} };
      auto lo=[&](Q b){ if(A.kind==1){mpz_class z;mpz_cdiv_q(z.get_mpz_t(),b.get_num_mpz_t(),b.get_den_mpz_t()); if(f.op==LT&&Q(z)==b)z+=1; b=Q(z);} if(!A.haslo||b>A.lo){A.haslo=true;A.lo=b;} };
      if(f.op==EQ){ hi(b);lo(b);} else if(k>0)hi(b); else lo(b); } } }

static bool forkchild(){ // true in child
  S->forks++; fflush(stdout); fflush(stderr);
  bool tok=sem_trywait(&S->tokens)==0;
  pid_t p; int tries=0; while((p=fork())<0&&tries++<200)usleep(20000);
  if(p<0){ S->lost++; if(tok)sem_post(&S->tokens); return false; }
  if(p==0){ kids.clear(); owns_token=tok; return true; }
  if(tok)kids.push_back(p); else { int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(WIFSIGNALED(st)){ S->crash++; S->lost++; } }
  return false; }
static void checkdeadline(){ if(S->stop.load())finish(0); if(nowt()>deadline){ S->lost++; snprintf(S->lostmsg,256,"deadline reached at %s",locname(curloc)); S->stop=1; finish(0);} }

static bool decide(const F&f){
  int k=lookup(f); if(k>=0)return k;
  checkdeadline();
  growmodel(cur); F nf=fnot(f);
  int e=curvalid?evalF(f,cur):-1;
  Model m; 
  auto take=[&](bool side){ addpc(side?f:nf); };
  if(e>=0){
    int r=query({e?nf:f},m);
    if(r==0){ learn(e?f:nf); pc.push_back(e?f:nf); pca.emplace_back(); pc.pop_back(); pca.pop_back(); return e; }
    depth++; if(depth>S->maxdepth)S->maxdepth=depth;
    if(forkchild()){ if(r==1){cur=m;} else { curvalid=false; pc_unsure=true; } take(!e); return !e; }
    take(e); return e;
  }
  int r1=query({f},m); Model m2;
  if(r1==0){ // must be false (pc feasible)
    int r2=curvalid?1:query({nf},m2); if(!curvalid&&r2==0){ S->infeasible++; finish(0);} if(!curvalid&&r2==1){cur=m2;curvalid=true;pc_unsure=false;} learn(nf); take(false); return false; }
  int r2=query({nf},m2);
  if(r2==0){ if(r1==1){cur=m;curvalid=true;} take(true); return true; }
  depth++; if(depth>S->maxdepth)S->maxdepth=depth;
  if(forkchild()){ if(r2==1){cur=m2;curvalid=true;} else {curvalid=false;pc_unsure=true;} take(false); return false; }
  if(r1==1){cur=m;curvalid=true;} else {curvalid=false;pc_unsure=true;} take(true); return true;
}

// ---------------------------------------------------------------- values
static uint32_t mk(Val v){ vals.push_back(std::move(v)); return vals.size()-1; }
static Val& V(uint32_t h){ return vals[h]; }
static Val cval(double x){ Val v; v.n=pconst(Q(x)); v.nonneg=x>=0; return v; }
static Val get(double x,uint32_t h){ return h?vals[h]:cval(x); }
static Poly one(){ return pconst(1); }
static Poly den(const Val&v){ return v.hasd?v.d:one(); }
// produce result: constants become concrete
// exact multivariate division n = q*d (lexicographic order on exponent vectors)
static bool polydiv(const Poly&n,const Poly&d,Poly&q){
  if(d.empty()||isconst(d)||degree(d)>degree(n))return false; std::set<int> an,ad; atomset(n,an); atomset(d,ad); for(int a:ad)if(!an.count(a))return false;
  if(maxsqrt(n)>=0||maxsqrt(d)>=0||n.size()>40)return false; std::vector<int> av(an.begin(),an.end());
  auto expo=[&](const Mono&m,int a){ for(auto&f:m)if(f.first==a)return f.second; return 0; };
  auto less=[&](const Mono&x,const Mono&y){ for(int a:av){int ex=expo(x,a),ey=expo(y,a); if(ex!=ey)return ex<ey;} return false; };
  auto leadof=[&](const Poly&p){ auto b=p.begin(); for(auto it=p.begin();it!=p.end();++it)if(less(b->first,it->first))b=it; return b; };
  auto L=leadof(d); Poly rem=n; q.clear(); int it=0;
  while(!rem.empty()){ if(++it>60)return false; auto l=leadof(rem); Mono m; for(int a:av){ int e=expo(l->first,a)-expo(L->first,a); if(e<0)return false; if(e)m.push_back({a,e}); } Poly t; t[m]=l->second/L->second; q=padd(q,t); rem=psub(rem,pmul(t,d)); }
  return true; }
// fractions in lower terms: monomial content, square roots out of the denominator, univariate gcd
static bool decide(const F&f);
static int exponent(const Mono&m,int a){ for(auto&f:m)if(f.first==a)return f.second; return 0; }
static Poly divmono(const Poly&p,int a,int e){ Poly q; for(auto&t:p){ Mono m; for(auto&f:t.first){ int k=f.first==a?f.second-e:f.second; if(k)m.push_back({f.first,k}); } q[m]=t.second; } return q; }
static int contentexp(const Poly&p,int a){ int e=1000; for(auto&t:p){ e=std::min(e,exponent(t.first,a)); if(!e)break; } return e; }
typedef std::vector<Q> Uni;
static void utrim(Uni&u){ while(!u.empty()&&u.back()==0)u.pop_back(); }
static bool touni(const Poly&p,int x,Uni&u){ u.clear(); for(auto&t:p){ int e=0; for(auto&f:t.first){ if(f.first!=x)return false; e=f.second; } if((int)u.size()<=e)u.resize(e+1); u[e]=t.second; } utrim(u); return true; }
static Poly fromuni(const Uni&u,int x){ Poly p; for(size_t e=0;e<u.size();e++)if(u[e]!=0){ Mono m; if(e)m.push_back({x,(int)e}); p[m]=u[e]; } return p; }
static void udivmod(const Uni&a,const Uni&b,Uni&q,Uni&r){ r=a; q.assign(a.size()>=b.size()?a.size()-b.size()+1:0,Q(0)); while(r.size()>=b.size()&&!r.empty()){ Q c=r.back()/b.back(); size_t k=r.size()-b.size(); q[k]=c; for(size_t i=0;i<b.size();i++)r[k+i]-=c*b[i]; r.pop_back(); utrim(r);} }
static Uni ugcd(Uni a,Uni b){ while(!b.empty()){ Uni q,r; udivmod(a,b,q,r); if(!r.empty()){ Q l=r.back(); for(auto&c:r)c/=l; } a=b; b=r; } if(!a.empty()){ Q l=a.back(); for(auto&c:a)c/=l; } return a; }
static void baseatoms(const Poly&p,std::set<int>&b,std::set<int>&seen){ std::set<int> s; atomset(p,s); for(int a:s){ if(!seen.insert(a).second)continue; if(atoms[a].kind==2)baseatoms(atoms[a].rad,b,seen); else b.insert(a); } }
static bool unibase(const Val&v){ std::set<int> b,seen; baseatoms(v.n,b,seen); baseatoms(v.d,b,seen); return b.size()<=1; }
static void lowest(Val&v){
  if(!v.hasd||isconst(v.d)||v.n.empty())return;
  { std::set<int> ad; atomset(v.d,ad); for(int a:ad){ int e=contentexp(v.d,a); if(!e)continue; int k=contentexp(v.n,a); bool sq=atoms[a].kind==2;
      if(k){ int m=std::min(e,k); if((m&1)&&!sq&&!(atoms[a].haslo&&atoms[a].lo>=0))m--; if(m){ v.n=divmono(v.n,a,m); v.d=divmono(v.d,a,m); e-=m; } }
      if(sq&&e==1&&unibase(v)){ v.d=pmul(divmono(v.d,a,1),atoms[a].rad); v.n=pmul(v.n,patom(a)); } } }
  if(isconst(v.d)||maxsqrt(v.d)>=0)return; std::set<int> ad; atomset(v.d,ad); if(ad.size()!=1)return; int x=*ad.begin();
  // content of n with respect to x: coefficients grouped by the other atoms
  std::map<Mono,Poly> grp; for(auto&t:v.n){ Mono o; int e=0; for(auto&f:t.first){ if(f.first==x)e=f.second; else o.push_back(f);} Mono m; if(e)m.push_back({x,e}); grp[o][m]=t.second; }
  Uni d,g; if(!touni(v.d,x,d))return; g=d; for(auto&G:grp){ Uni u; touni(G.second,x,u); g=ugcd(g,u); if(g.size()<=1)return; }
  Uni q,r; udivmod(d,g,q,r); Poly nd=fromuni(q,x); bool neg=false;
  if(!isconst(nd)){ Iv iv=ivpoly(nd); bool pos=iv.lo&&iv.l>0, ng=iv.hi&&iv.h<0; if(!pos&&!ng){ if(isconst(v.d))return; pos=decide(mkcmp(pneg(nd),LT)); ng=!pos; } neg=ng; } else neg=sgn(constof(nd))<0;
  Poly nn; for(auto&G:grp){ Uni u,qq,rr; touni(G.second,x,u); udivmod(u,g,qq,rr); Poly c=fromuni(qq,x); for(auto&t:c){ Mono m=t.first; for(auto&f:G.first)m.push_back(f); std::sort(m.begin(),m.end()); addto(nn,m,t.second); } }
  v.n=neg?pneg(nn):nn; v.d=neg?pneg(nd):nd;
}
// case split: a univariate value over a small integer atom that has grown unwieldy is split into the atom's values (all of them explored); from then on the atom is a constant of the path
static std::map<int,Q> split; static int64_t concretise(uint32_t h); static long opt_split=1500;
static mpf_class hpeval(const Poly&p){ mpf_class r(0,512); for(auto&t:p){ mpf_class x(t.second,512); for(auto&f:t.first){ mpf_class b(0,512); if(atoms[f.first].kind==2){ mpf_class q=hpeval(atoms[f.first].rad); if(q>0)b=sqrt(q); } else b=mpf_class(split[f.first],512); for(int k=0;k<f.second;k++)x*=b; } r+=x; } return r; }
static bool pinned(const Val&v){ std::set<int> b,seen; baseatoms(v.n,b,seen); if(v.hasd)baseatoms(v.d,b,seen); if(b.empty())return false; for(int a:b)if(!split.count(a))return false; return true; }
static bool pineval(const Val&v,double&r){ if(!pinned(v))return false; mpf_class n=hpeval(v.n); if(v.hasd){ mpf_class d=hpeval(v.d); if(d==0)return false; n/=d; } r=n.get_d(); return true; }
static inline void pinv(double&a,uint32_t&h){ if(h&&!split.empty()&&!vals[h].isint){ double r; if(pineval(vals[h],r)){ a=r; h=0; } } }
static size_t bulk(const Poly&p){ size_t n=0; for(auto&t:p)n+=1+mpz_sizeinbase(t.second.get_num_mpz_t(),2)+mpz_sizeinbase(t.second.get_den_mpz_t(),2); return n; }
static uint32_t mk(Val v);
static bool trysplit(Val&v,double&r){ if(v.isint)return false; size_t n=bulk(v.n)+(v.hasd?bulk(v.d):0); if((long)n<opt_split*10)return false; std::set<int> b,seen; baseatoms(v.n,b,seen); if(v.hasd)baseatoms(v.d,b,seen); if(b.size()!=1)return false; int a=*b.begin(); Atom&A=atoms[a]; 
  if(A.kind!=1||!A.haslo||!A.hashi||A.hi-A.lo>128)return false; if(!split.count(a)){ Val w; w.n=patom(a); w.isint=true; uint32_t h=mk(w); int64_t k=concretise(h); split[a]=Q((long)k); } return pineval(v,r); }
static double ret(Val v){ { double r; if(!split.empty()&&pineval(v,r)){ __sx_h=0; return r; } if(trysplit(v,r)){ __sx_h=0; return r; } } lowest(v); if(v.hasd&&!isconst(v.d)&&!v.n.empty()){ Poly q; if(polydiv(v.n,v.d,q)){ v.n=q; v.hasd=false; v.d.clear(); } }
  if(v.hasd&&isconst(v.d)){ v.n=pscale(v.n,1/constof(v.d)); v.hasd=false; v.d.clear(); }
  if(!v.hasd&&isconst(v.n)){ __sx_h=0; return constof(v.n).get_d(); }
  if(v.hasd&&v.n.empty()){ __sx_h=0; return 0; }
  if(v.hasd&&v.n==v.d){ __sx_h=0; return 1; }
  if(v.hasd){ Q l=abs(v.d.rbegin()->second); if(l!=1){ v.d=pscale(v.d,1/l); v.n=pscale(v.n,1/l); } }
  __sx_h=mk(std::move(v)); return approxval(__sx_h); }
static int decsign(const Poly&p){ if(isconst(p))return sgn(constof(p)); if(decide(mkcmp(p,LT)))return -1; if(decide(mkcmp(p,EQ)))return 0; return 1; }
static Poly cmpdiff(const Val&a,const Val&b){ if(!a.hasd&&!b.hasd)return psub(a.n,b.n); if(a.hasd&&b.hasd&&a.d==b.d)return psub(a.n,b.n); return psub(pmul(a.n,den(b)),pmul(b.n,den(a))); }

extern "C" {
static inline void step(){ if(++steps>opt_steps){ S->steplimit++; candidate("steps","step budget exceeded (possible non-termination)",nullptr); finish(0);} }
double __sx_fneg(double a,uint32_t ha){ pinv(a,ha); if(!ha){__sx_h=0;return -a;} Val v=V(ha); v.n=pneg(v.n); v.nonneg=false; return ret(v); }
double __sx_fbin(uint32_t op,double a,double b,uint32_t ha,uint32_t hb){ pinv(a,ha); pinv(b,hb);
  if(!ha&&!hb){ __sx_h=0; switch(op){case 14:return a+b;case 16:return a-b;case 18:return a*b;case 21:return a/b;default:return fmod(a,b);} }
  step();
  if((!ha&&!std::isfinite(a))||(!hb&&!std::isfinite(b))){ __sx_h=0; double c=!ha?a:b; if(std::isnan(c))return c; 
    switch(op){case 14:return c;case 16:return !ha?c:-c; case 18:{ int s=decsign(V(ha?ha:hb).n); return s==0?NAN:s>0?c:-c; } case 21: if(!hb)return 0.0; else { int s=decsign(V(hb).n); return s>=0?c:-c; } default:return NAN;} }
  Val x=get(a,ha),y=get(b,hb),r;
  switch(op){
    case 14: case 16: { bool sub=op==16; r.nonneg=!sub&&x.nonneg&&y.nonneg; r.isint=false;
      if(x.hasd==y.hasd&&(!x.hasd||x.d==y.d)){ r.hasd=x.hasd; r.d=x.d; r.n=sub?psub(x.n,y.n):padd(x.n,y.n); }
      else { r.hasd=true; if(!x.hasd){ r.d=y.d; Poly t=pmul(x.n,y.d); r.n=sub?psub(t,y.n):padd(t,y.n);} else if(!y.hasd){ r.d=x.d; Poly t=pmul(y.n,x.d); r.n=sub?psub(x.n,t):padd(x.n,t);} else { r.d=pmul(x.d,y.d); Poly u=pmul(x.n,y.d),w=pmul(y.n,x.d); r.n=sub?psub(u,w):padd(u,w);} } break; }
    case 18: r.nonneg=(x.nonneg&&y.nonneg)||(ha&&ha==hb)||(x.n==y.n&&x.hasd==y.hasd&&x.d==y.d); 
      if(x.hasd&&!y.hasd&&x.d==y.n){ r.n=x.n; break; } if(y.hasd&&!x.hasd&&y.d==x.n){ r.n=y.n; break; }
      r.n=pmul(x.n,y.n); if(x.hasd||y.hasd){ r.hasd=true; r.d=!x.hasd?y.d:!y.hasd?x.d:pmul(x.d,y.d);} break;
    case 21: { // x / y
      if(isconst(y.n)&&y.n.empty()){ int s=decsign(x.n); __sx_h=0; return s==0?NAN:s>0?INFINITY:-INFINITY; }
      int s=1; if(!isconst(y.n)){ s=y.nonneg? (decide(mkcmp(y.n,EQ))?0:1) : decsign(y.n); if(y.nonneg&&s==1&&!decide(mkcmp(pneg(y.n),LT))) s=decsign(y.n); if(s==0){ int t=decsign(x.n); __sx_h=0; return t==0?NAN:t>0?INFINITY:-INFINITY; } }
      else s=sgn(constof(y.n));
      Poly yn=s<0?pneg(y.n):y.n; Poly xn=s<0?pneg(x.n):x.n; r.nonneg=x.nonneg&&s>0;
      // (xn/xd)/(yn/yd) = xn*yd/(xd*yn)
      if(x.n==y.n&&x.hasd==y.hasd&&x.d==y.d){ __sx_h=0; return 1.0; }
      r.n=pmul(xn,den(y)); r.d=x.hasd?pmul(x.d,yn):yn; r.hasd=true; if(x.hasd&&y.hasd&&x.d==y.d){ r.n=xn; r.d=yn; } break; }
    default: S->lost++; snprintf(S->lostmsg,256,"frem at %s",locname(curloc)); __sx_h=0; return fmod(a,b);
  }
  return ret(r); }
uint32_t __sx_fcmp(uint32_t pred,double a,double b,uint32_t ha,uint32_t hb,uint32_t loc){
  curloc=loc; pinv(a,ha); pinv(b,hb);
  if(!ha&&!hb){ bool un=std::isnan(a)||std::isnan(b); switch(pred){case 0:return 0;case 1:return a==b;case 2:return a>b;case 3:return a>=b;case 4:return a<b;case 5:return a<=b;case 6:return !un&&a!=b;case 7:return !un;case 8:return un;case 9:return un||a==b;case 10:return un||a>b;case 11:return un||a>=b;case 12:return un||a<b;case 13:return un||a<=b;case 14:return un||a!=b;default:return 1;} }
  step();
  if((!ha&&std::isnan(a))||(!hb&&std::isnan(b)))return pred>=8;
  if(pred==7)return 1; if(pred==8||pred==0)return 0; if(pred==15)return 1;
  int p=pred&7;
  if(!ha&&std::isinf(a)){ bool g=a>0; switch(p){case 1:return 0;case 2:case 3:return g;case 4:case 5:return !g;default:return 1;} }
  if(!hb&&std::isinf(b)){ bool g=b>0; switch(p){case 1:return 0;case 2:case 3:return !g;case 4:case 5:return g;default:return 1;} }
  Val x=get(a,ha),y=get(b,hb); Poly d=cmpdiff(x,y);
  switch(p){case 1:return decide(mkcmp(d,EQ));case 2:return decide(mkcmp(pneg(d),LT));case 3:return decide(mkcmp(pneg(d),LE));case 4:return decide(mkcmp(d,LT));case 5:return decide(mkcmp(d,LE));default:return decide(mkcmp(d,NE));}
}
}
// ---------------------------------------------------------------- integers (canonical signed representation)
static int64_t sxt(uint64_t v,unsigned w){ if(w>=64)return (int64_t)v; uint64_t m=1ull<<(w-1); v&=(1ull<<w)-1; return (int64_t)((v^m)-m); }
static mpz_class zofi(int64_t v){ mpz_class z; mpz_set_si(z.get_mpz_t(),v); return z; }
static Val ival(uint64_t v,unsigned w){ Val r; r.n=pconst(Q(zofi(sxt(v,w)))); r.isint=true; return r; }
static Val geti(uint64_t v,uint32_t h,unsigned w){ return h?vals[h]:ival(v,w); }
static Q p2(unsigned w){ mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(),2,w); return Q(t); }
static uint64_t iret(Val v,unsigned w){ // wrap into signed range of width w
  v.isint=true; if(isconst(v.n)){ __sx_h=0; mpz_class z=constof(v.n).get_num(), m; mpz_ui_pow_ui(m.get_mpz_t(),2,64); mpz_fdiv_r(z.get_mpz_t(),z.get_mpz_t(),m.get_mpz_t()); uint64_t r=mpz_get_ui(z.get_mpz_t()); return w>=64?r:(r&((1ull<<w)-1)); }
  Q hi=p2(w-1), full=p2(w); int guard=0;
  while(guard++<64){ if(decide(mkcmp(psub(v.n,pconst(hi)),LT)))break; v.n=psub(v.n,pconst(full)); }
  while(guard++<128){ if(decide(mkcmp(psub(pconst(-hi),v.n),LE)))break; v.n=padd(v.n,pconst(full)); }
  if(isconst(v.n))return iret(v,w);
  v.nonneg=false; __sx_h=mk(v); double a=approxval(__sx_h); uint64_t r=(uint64_t)(int64_t)a; return w>=64?r:(r&((1ull<<w)-1)); }
static int newatom(int kind,const std::string&n){ Atom a; a.kind=kind; a.name=n; atoms.push_back(a); growmodel(cur); return atoms.size()-1; }
// integer k with k*d <= n < (k+1)*d  (d>0)
static std::map<std::pair<Poly,Poly>,int> flooratoms;
static Poly flooratom(const Poly&n,const Poly&d){
  if(isconst(d)){ Poly q=pscale(n,1/constof(d)); bool integral=true; for(auto&t:q){ if(t.second.get_den()!=1)integral=false; for(auto&f:t.first)if(atoms[f.first].kind!=1)integral=false; } if(integral)return q; }
  auto key=std::make_pair(n,d); auto it=flooratoms.find(key); if(it!=flooratoms.end())return patom(it->second);
  int k=newatom(1,"floor"); Iv iv=ivpoly(n); if(isconst(d)&&iv.lo){ Q b=iv.l/constof(d); mpz_class z; mpz_fdiv_q(z.get_mpz_t(),b.get_num_mpz_t(),b.get_den_mpz_t()); atoms[k].haslo=true; atoms[k].lo=Q(z);} if(isconst(d)&&iv.hi){ Q b=iv.h/constof(d); mpz_class z; mpz_fdiv_q(z.get_mpz_t(),b.get_num_mpz_t(),b.get_den_mpz_t()); atoms[k].hashi=true; atoms[k].hi=Q(z);}  
  growmodel(cur); Q nv,dv; bool okk=evalpoly(n,cur,nv)&&evalpoly(d,cur,dv)&&dv!=0; if(okk){ Q b=nv/dv; mpz_class z; mpz_fdiv_q(z.get_mpz_t(),b.get_num_mpz_t(),b.get_den_mpz_t()); cur.v[k]=Q(z); cur.ok[k]=1; }
  Poly K=patom(k); F a=mkcmp(psub(pmul(K,d),n),LE), b=mkcmp(psub(n,pmul(padd(K,one()),d)),LT); addpc(a); addpc(b); flooratoms[key]=k; 
  if(!okk){ cur.ok[k]=0; Model m; int r=query({a,b},m); if(r==1){cur=m;curvalid=true;} else curvalid=false; }
  return K; }
static int64_t concretise(uint32_t h){ Val v=vals[h]; S->conc++; while(true){ Q q; growmodel(cur); bool okk=curvalid&&evalpoly(v.n,cur,q); if(!okk){ Model m; int r=query({fb(true),mkcmp(psub(v.n,v.n),EQ),mkcmp(padd(v.n,pconst(-p2(70))),LT)},m); if(r==1){cur=m;curvalid=true;okk=evalpoly(v.n,cur,q);} if(!okk){ S->lost++; snprintf(S->lostmsg,256,"cannot concretise at %s",locname(curloc)); finish(0);} }
   if(q.get_den()!=1){ S->lost++; snprintf(S->lostmsg,256,"non-integral concretisation at %s",locname(curloc)); finish(0);} if(decide(mkcmp(psub(v.n,pconst(q)),EQ))){ return mpz_get_si(q.get_num_mpz_t()); } } }
extern "C" {
uint64_t __sx_conc(uint32_t w,uint64_t v,uint32_t h,uint32_t loc){ if(!h)return v; curloc=loc; uint64_t r=(uint64_t)concretise(h); return w>=64?r:(r&((1ull<<w)-1)); }
uint64_t __sx_ibin(uint32_t op,uint32_t w,uint64_t a,uint64_t b,uint32_t ha,uint32_t hb){
  uint64_t m=w>=64?~0ull:((1ull<<w)-1);
  if(ha||hb){ step(); Val x=geti(a,ha,w),y=geti(b,hb,w),r; 
    switch(op){ case 13: r.n=padd(x.n,y.n); return iret(r,w); case 15: r.n=psub(x.n,y.n); return iret(r,w); case 17: r.n=pmul(x.n,y.n); return iret(r,w);
      case 25: if(!hb&&b<w){ r.n=pscale(x.n,p2(b)); return iret(r,w);} break;
      case 19: case 22: case 20: case 23: if(!hb&&sxt(b,w)>0&&!decide(mkcmp(x.n,LT))){ Poly q=flooratom(x.n,y.n); r.n=(op==19||op==20)?q:psub(x.n,pmul(q,y.n)); return iret(r,w);} break;
      case 26: if(!hb&&b<w&&!decide(mkcmp(x.n,LT))){ r.n=flooratom(x.n,pconst(p2(b))); return iret(r,w);} break;
      case 28: if(!hb&&((b&m)&((b&m)+1))==0&&(b&m)!=m&&b!=0&&!decide(mkcmp(x.n,LT))){ Poly c=pconst(Q(zofi((int64_t)(b&m)+1))); Poly q=flooratom(x.n,c); r.n=psub(x.n,pmul(q,c)); return iret(r,w);} break;
    }
    if(ha)a=(uint64_t)concretise(ha)&m; if(hb)b=(uint64_t)concretise(hb)&m; }
  __sx_h=0; a&=m; b&=m; int64_t sa=sxt(a,w),sb=sxt(b,w);
  switch(op){case 13:return (a+b)&m;case 15:return (a-b)&m;case 17:return (a*b)&m;
   case 19:case 20:case 22:case 23: if(b==0){ candidate("crash",std::string("integer division by zero at ")+locname(curloc),nullptr); finish(0);} return (op==19?a/b:op==22?a%b:op==20?(uint64_t)(sb==-1?-sa:sa/sb):(uint64_t)(sb==-1?0:sa%sb))&m;
   case 25:return b<w?(a<<b)&m:0;case 26:return b<w?a>>b:0;case 27:return (uint64_t)(sa>>(b<w?b:w-1))&m;case 28:return a&b;case 29:return a|b;default:return a^b;} }
uint32_t __sx_icmp(uint32_t pred,uint32_t w,uint64_t a,uint64_t b,uint32_t ha,uint32_t hb,uint32_t loc){
  curloc=loc; uint64_t m=w>=64?~0ull:((1ull<<w)-1);
  if(!ha&&!hb){ a&=m;b&=m; int64_t sa=sxt(a,w),sb=sxt(b,w); switch(pred){case 32:return a==b;case 33:return a!=b;case 34:return a>b;case 35:return a>=b;case 36:return a<b;case 37:return a<=b;case 38:return sa>sb;case 39:return sa>=sb;case 40:return sa<sb;default:return sa<=sb;} }
  step(); Val x=geti(a,ha,w),y=geti(b,hb,w); Poly d=psub(x.n,y.n);
  if(pred>=34&&pred<=37){ bool nx=decide(mkcmp(x.n,LT)),ny=decide(mkcmp(y.n,LT)); if(nx!=ny){ bool xg=nx; return (pred==34||pred==35)?xg:!xg; } pred+=4; }
  switch(pred){case 32:return decide(mkcmp(d,EQ));case 33:return decide(mkcmp(d,NE));case 38:return decide(mkcmp(pneg(d),LT));case 39:return decide(mkcmp(pneg(d),LE));case 40:return decide(mkcmp(d,LT));default:return decide(mkcmp(d,LE));} }
uint64_t __sx_icast(uint32_t kind,uint32_t w1,uint32_t w2,uint64_t a,uint32_t h){ uint64_t m2=w2>=64?~0ull:((1ull<<w2)-1); if(!h){ __sx_h=0; return kind==1?(uint64_t)sxt(a,w1)&m2:a&m2; } Val v=V(h); if(kind==0&&decide(mkcmp(v.n,LT)))v.n=padd(v.n,pconst(p2(w1))); return iret(v,w2); }
double __sx_itofp(uint32_t sg,uint32_t w,uint64_t a,uint32_t h){ if(!h){ __sx_h=0; return sg?(double)sxt(a,w):(double)a; } Val v=V(h); if(!sg&&decide(mkcmp(v.n,LT)))v.n=padd(v.n,pconst(p2(w))); v.isint=false; return ret(v); }
uint64_t __sx_fptoi(uint32_t sg,uint32_t w,double a,uint32_t h){ uint64_t m=w>=64?~0ull:((1ull<<w)-1); if(!h){ __sx_h=0; return (sg?(uint64_t)(int64_t)a:(uint64_t)a)&m; } Val v=V(h),r; bool neg=decide(mkcmp(v.n,LT)); Poly k=flooratom(neg?pneg(v.n):v.n,den(v)); r.n=neg?pneg(k):k; return iret(r,w); }
}
// ---------------------------------------------------------------- math functions
static bool polysqrt(const Poly&R,Poly&q){ // exact square root of a polynomial (graded by map order from the end)
  if(R.empty())return false; Poly rem=R; q.clear(); Mono lead0;
  auto sq=[&](const Q&c,Q&r){ if(sgn(c)<0)return false; if(!mpz_perfect_square_p(c.get_num_mpz_t())||!mpz_perfect_square_p(c.get_den_mpz_t()))return false; mpz_class a,b; mpz_sqrt(a.get_mpz_t(),c.get_num_mpz_t()); mpz_sqrt(b.get_mpz_t(),c.get_den_mpz_t()); r=Q(a,b); return true; };
  // choose the atom-power-lexicographic largest monomial: compare exponent vectors
  auto expo=[&](const Mono&m,int a){ for(auto&f:m)if(f.first==a)return f.second; return 0; };
  std::set<int> as; atomset(R,as); if(maxsqrt(R)>=0)return false; std::vector<int> av(as.begin(),as.end());
  auto less=[&](const Mono&x,const Mono&y){ for(int a:av){int ex=expo(x,a),ey=expo(y,a); if(ex!=ey)return ex<ey;} return false; };
  auto leadof=[&](const Poly&p){ auto b=p.begin(); for(auto it=p.begin();it!=p.end();++it)if(less(b->first,it->first))b=it; return b; };
  auto L=leadof(R); Mono hm; for(auto&f:L->first){ if(f.second&1)return false; hm.push_back({f.first,f.second/2}); } Q c; if(!sq(L->second,c))return false;
  Poly t; t[hm]=c; q=t; rem=psub(R,pmul(q,q)); int it=0; 
  while(!rem.empty()){ if(++it>20)return false; auto l=leadof(rem); Mono m; for(int a:av){ int e=expo(l->first,a)-expo(hm,a); if(e<0)return false; if(e)m.push_back({a,e}); } Q cc=l->second/(2*c); Poly tt; tt[m]=cc; if(!less(m,hm))return false; rem=psub(rem,padd(pscale(pmul(q,tt),2),pmul(tt,tt))); q=padd(q,tt); }
  return true; }
// comparisons of quadratic polynomials that split into two linear factors become linear
static F factorcmp(const Poly&p,int op){
  // common atom factor
  { std::map<int,int> cm; bool first=true; for(auto&t:p){ std::map<int,int> c; for(auto&f:t.first)if(first||cm.count(f.first))c[f.first]=first?f.second:std::min(f.second,cm[f.first]); cm=c; first=false; if(cm.empty())break; }
    if(!cm.empty()){ Poly q; for(auto&t:p){ Mono m; for(auto&f:t.first){ int e=f.second-(cm.count(f.first)?cm[f.first]:0); if(e)m.push_back({f.first,e}); } q[m]=t.second; }
      Poly odd=pconst(1), sup=pconst(1); int nodd=0; std::vector<int> ev; for(auto&c:cm){ if(c.second&1){ nodd++; odd=patom(c.first); } ev.push_back(c.first); }
      if(nodd<=1){ F zero=mkcmp(q,EQ); for(int a:ev)zero=for_(zero,mkcmp(patom(a),EQ)); if(op==EQ)return zero; if(op==NE){ F nz=mkcmp(q,NE); for(int a:ev)nz=fand(nz,mkcmp(patom(a),NE)); return nz; }
        F neg; if(nodd==0)neg=mkcmp(q,LT); else neg=for_(fand(mkcmp(odd,LT),mkcmp(pneg(q),LT)),fand(mkcmp(pneg(odd),LT),mkcmp(q,LT)));
        if(op==LT){ F r=neg; if(nodd==0||ev.size()>1)for(int a:ev)r=fand(r,mkcmp(patom(a),NE)); return r; }
        return for_(neg,zero); } } }
  if(degree(p)!=2)return fcmpP(p,op);
  std::set<int> as; atomset(p,as);
  for(int x:as){ Q a=0; Poly b,c; for(auto&t:p){ int e=0; Mono m; for(auto&f:t.first){ if(f.first==x)e=f.second; else m.push_back(f);} if(e==2)a=t.second; else if(e==1)addto(b,m,t.second); else addto(c,m,t.second); }
    if(a==0)continue;
    Poly D=psub(pmul(b,b),pscale(c,4*a)); Poly s; if(D.empty()){ Poly l=padd(patom(x),pscale(b,1/(2*a))); // a*l^2
        if(op==EQ)return mkcmp(l,EQ); if(op==NE)return mkcmp(l,NE); if(a>0)return op==LT?fb(false):mkcmp(l,EQ); return op==LT?mkcmp(l,NE):fb(true); }
    if(isconst(D)){ if(sgn(constof(D))<0){ bool pos=a>0; return fb(op==NE?true:op==EQ?false:!pos); } Q dq=constof(D); if(!mpz_perfect_square_p(dq.get_num_mpz_t())||!mpz_perfect_square_p(dq.get_den_mpz_t())){
        // a*((x+b/2a)^2 - D/4a^2): over integer atoms |k(x+b/2a)| is an integer, so the irrational bound rounds to an integer
        bool allint=true; for(int q:as)if(atoms[q].kind!=1)allint=false; if(!allint)break;
        Poly l=padd(patom(x),pscale(b,1/(2*a))); mpz_class L=1; for(auto&t:l)L=lcm(L,t.second.get_den()); l=pscale(l,Q(L)); Q B=dq/(4*a*a)*Q(L*L); mpz_class fl=B.get_num()/B.get_den(), rt; mpz_sqrt(rt.get_mpz_t(),fl.get_mpz_t()); // l^2 < B  <=>  |l| <= floor(sqrt(B))  (B is not a perfect square)
        if(op==EQ)return fb(false); if(op==NE)return fb(true);
        F in=fand(mkcmp(psub(l,pconst(Q(rt))),LE),mkcmp(psub(pconst(-Q(rt)),l),LE)), out=for_(mkcmp(psub(pconst(Q(rt)),l),LT),mkcmp(padd(l,pconst(Q(rt))),LT)); return a>0?in:out; } }
    if(!polysqrt(D,s))break;
    // x = (-b +- s)/(2a)
    Poly l1=padd(patom(x),pscale(psub(b,s),1/(2*a))), l2=padd(patom(x),pscale(padd(b,s),1/(2*a)));
    if(op==EQ)return for_(mkcmp(l1,EQ),mkcmp(l2,EQ)); if(op==NE)return fand(mkcmp(l1,NE),mkcmp(l2,NE));
    Poly n1=pneg(l1),n2=pneg(l2);
    if(a>0){ if(op==LT)return for_(fand(mkcmp(l1,LT),mkcmp(n2,LT)),fand(mkcmp(n1,LT),mkcmp(l2,LT))); return for_(fand(mkcmp(l1,LE),mkcmp(n2,LE)),fand(mkcmp(n1,LE),mkcmp(l2,LE))); }
    if(op==LT)return for_(fand(mkcmp(l1,LT),mkcmp(l2,LT)),fand(mkcmp(n1,LT),mkcmp(n2,LT))); return for_(fand(mkcmp(l1,LE),mkcmp(l2,LE)),fand(mkcmp(n1,LE),mkcmp(n2,LE)));
  }
  return fcmpP(p,op); }
static std::map<Poly,int> sqrtatoms; static std::map<std::pair<int,std::pair<Poly,Poly>>,uint32_t> funs;
static double dosqrt(Val v){
  Poly R=v.hasd?pmul(v.n,v.d):v.n;
  if(!v.nonneg){ if(decide(mkcmp(R,LT))){ __sx_h=0; return -NAN; } }
  Val r; r.nonneg=true; Poly q; 
  if(polysqrt(R,q)){ bool ng=decide(mkcmp(q,LT)); r.n=ng?pneg(q):q; }
  else { auto it=sqrtatoms.find(R); int a; if(it==sqrtatoms.end()){ 
      // pull out a rational square content?  keep as is
      a=newatom(2,"sqrt"); atoms[a].rad=R; atoms[a].haslo=true; atoms[a].lo=0; Iv iv=ivpoly(R); if(iv.lo&&iv.l>0){ double d=iv.l.get_d(); if(std::isfinite(d))atoms[a].lo=Q(sqrt(d)*(1-1e-9)); } if(iv.hi&&iv.h>=0){ double d=iv.h.get_d(); if(std::isfinite(d)){atoms[a].hashi=true; atoms[a].hi=Q(sqrt(d)*(1+1e-9)+1e-300);} } sqrtatoms[R]=a; } else a=it->second; r.n=patom(a); }
  if(v.hasd){ r.hasd=true; r.d=v.d; }
  return ret(r); }
static double abstractfn(int id,const char*nm,Val v,bool hl,Q lo,bool hh,Q hi,double conc){ auto key=std::make_pair(id,std::make_pair(v.n,v.d)); auto it=funs.find(key); if(it!=funs.end()){ __sx_h=it->second; return approxval(__sx_h);} S->abstracted++; int a=newatom(0,nm); atoms[a].haslo=hl;atoms[a].lo=lo;atoms[a].hashi=hh;atoms[a].hi=hi; cur.v[a]=defval(a); Val r; r.n=patom(a); double d=ret(r); funs[key]=__sx_h; (void)conc; return d; }
// arc tangent: an odd function, increasing, atan(1)=pi/4, |atan(x)|<=|x|; ordered against every earlier arc tangent of the path
struct At{ Val v; Poly r; bool sym; }; static std::vector<At> atans;
static void facts(const std::vector<F>&fs){ bool good=curvalid; for(auto&f:fs){ growmodel(cur); if(evalF(f,cur)!=1)good=false; addpc(f); } if(good||fs.empty())return; Model m; int r=query(fs,m); if(r==1){cur=m;curvalid=true;} else if(r==0){ S->infeasible++; finish(0); } else { curvalid=false; pc_unsure=true; } }
static void relate(std::vector<F>&fs,const Poly&t,int c){ if(c<0)fs.push_back(mkcmp(t,LT)); else if(c>0)fs.push_back(mkcmp(pneg(t),LT)); else { fs.push_back(mkcmp(t,LE)); fs.push_back(mkcmp(pneg(t),LE)); } }
static int atansign(const Val&x,const Val&y){ return decsign(psub(pmul(x.n,den(y)),pmul(y.n,den(x)))); }
static double catan(double a){ double r=atan(a); if(!std::isfinite(a)||atans.size()>64)return r; At x; x.v.n=pconst(Q(a)); x.r=pconst(Q(r)); x.sym=false; for(auto&y:atans)if(!y.sym&&y.v.n==x.v.n)return r;
  std::vector<F> fs; for(size_t i=0;i<atans.size();i++)if(atans[i].sym){ At y=atans[i]; relate(fs,psub(x.r,y.r),atansign(x.v,y.v)); } facts(fs); atans.push_back(x); return r; }
static double doatan(Val v){ auto key=std::make_pair(12,std::make_pair(v.n,v.d)); auto it=funs.find(key); if(it!=funs.end()){ __sx_h=it->second; return approxval(__sx_h);}
  int s=decsign(v.n); if(s==0){ __sx_h=0; return 0; } Poly D=den(v); int c=decsign(s>0?psub(v.n,D):padd(v.n,D)); std::vector<int> ord; for(size_t i=0;i<atans.size();i++){ At y=atans[i]; ord.push_back(atansign(v,y.v)); }
  double d=abstractfn(12,"atan",v,true,s>0?Q(0):Q(-1.5707963267948968),true,s>0?Q(1.5707963267948968):Q(0),0); uint32_t h=__sx_h; int a=atoms.size()-1; Poly A=patom(a); { uint32_t t=mk(v); double x=approxval(t); if(std::isfinite(x))cur.v[a]=Q(atan(x)); }
  std::vector<F> fs; Poly q4=pconst(Q(0.78539816339744828)); relate(fs,A,s); fs.push_back(mkcmp(s>0?psub(pmul(A,D),v.n):psub(v.n,pmul(A,D)),LE)); relate(fs,s>0?psub(A,q4):padd(A,q4),c);
  for(size_t i=0;i<ord.size();i++)relate(fs,psub(A,atans[i].r),ord[i]);
  facts(fs); At me; me.v=v; me.r=A; me.sym=true; atans.push_back(me); __sx_h=h; return d; }
// sine and cosine of the same angle lie on the unit circle (sin = 7, cos = 8)
static double dosincos(int id,Val v){ auto it=funs.find(std::make_pair(id,std::make_pair(v.n,v.d))); if(it!=funs.end()){ __sx_h=it->second; return approxval(__sx_h);}
  double x=approxval(mk(v)); Poly P[2]; uint32_t H=0; double r=0; for(int k=7;k<=8;k++){ double d=abstractfn(k,k==7?"sin":"cos",v,true,-1,true,1,0); int a=atoms.size()-1; P[k-7]=patom(a); if(std::isfinite(x))cur.v[a]=Q(k==7?sin(x):cos(x)); if(k==id){H=__sx_h;r=d;} }
  std::vector<F> fs; relate(fs,psub(padd(pmul(P[0],P[0]),pmul(P[1],P[1])),one()),0); facts(fs); __sx_h=H; return r; }
// logarithm: the sign of log(x) is that of x-1
static double dolog(Val v){ auto it=funs.find(std::make_pair(5,std::make_pair(v.n,v.d))); if(it!=funs.end()){ __sx_h=it->second; return approxval(__sx_h);}
  int c=decsign(psub(v.n,den(v))); if(c==0){ __sx_h=0; return 0; } double d=abstractfn(5,"log",v,c>0,0,c<0,0,0); uint32_t h=__sx_h; int a=atoms.size()-1; Poly A=patom(a); { double x=approxval(mk(v)); if(std::isfinite(x)&&x>0)cur.v[a]=Q(log(x)); }
  std::vector<F> fs; relate(fs,A,c); facts(fs); __sx_h=h; return d; }
extern "C" {
double __sx_fun2(uint32_t id,double a,double b,uint32_t ha,uint32_t hb);
double __sx_fun1(uint32_t id,double a,uint32_t h){ pinv(a,h);
  if(!h){ __sx_h=0; switch(id){case 1:return sqrt(a);case 2:return fabs(a);case 3:return floor(a);case 4:return ceil(a);case 5:return log(a);case 6:return exp(a);case 7:return sin(a);case 8:return cos(a);case 9:return tan(a);case 10:return acos(a);case 11:return asin(a);case 12:return catan(a);case 13:return log2(a);case 14:return log10(a);case 15:return round(a);case 16:return trunc(a);default:return cbrt(a);} }
  step(); Val v=V(h);
  switch(id){
    case 1: return dosqrt(v);
    case 2: { if(v.nonneg){__sx_h=h;return a;} bool ng=decide(mkcmp(v.n,LT)); if(ng)v.n=pneg(v.n); v.nonneg=true; return ret(v); }
    case 3: { Val r; r.n=flooratom(v.n,den(v)); return ret(r);} 
    case 4: { Val r; r.n=pneg(flooratom(pneg(v.n),den(v))); return ret(r);} 
    case 15: { bool ng=decide(mkcmp(v.n,LT)); Poly n=ng?pneg(v.n):v.n; Poly d=den(v); Val r; r.n=flooratom(padd(pscale(n,2),d),pscale(d,2)); if(ng)r.n=pneg(r.n); return ret(r);} 
    case 16: { bool ng=decide(mkcmp(v.n,LT)); Val r; r.n=flooratom(ng?pneg(v.n):v.n,den(v)); if(ng)r.n=pneg(r.n); return ret(r);} 
    case 7: case 8: return dosincos(id,v);
    case 5: { int s=decsign(v.n); if(s<0){__sx_h=0;return -NAN;} if(s==0){__sx_h=0;return -INFINITY;} return dolog(v);} 
    case 10: return abstractfn(10,"acos",v,true,0,true,Q(3.1415926535897936),0);
    case 12: return doatan(v);
    case 11: return abstractfn(id,"asin",v,true,Q(-1.5707963267948968),true,Q(1.5707963267948968),0);
    case 6: return abstractfn(6,"exp",v,true,0,false,0,0);
    default: return abstractfn(id,"fn",v,false,0,false,0,0);
  } }
double __sx_fun2(uint32_t id,double a,double b,uint32_t ha,uint32_t hb){ pinv(a,ha); pinv(b,hb);
  if(!ha&&!hb){ __sx_h=0; switch(id){case 1:return fmin(a,b);case 2:return fmax(a,b);case 3:return pow(a,b);case 4:return atan2(a,b);case 5:return fmod(a,b);case 6:return hypot(a,b);default:return copysign(a,b);} }
  step();
  switch(id){
    case 1: case 2: { if(!ha&&std::isnan(a)){__sx_h=hb;return b;} if(!hb&&std::isnan(b)){__sx_h=ha;return a;} bool lt=__sx_fcmp(4,a,b,ha,hb,curloc); bool first= id==1?lt:!lt; __sx_h=first?ha:hb; return first?a:b; }
    case 3: if(!hb&&b==0.5)return dosqrt(V(ha)); if(!hb&&b==floor(b)&&fabs(b)<=16){ int n=(int)fabs(b); Val v=V(ha); Val r; r.n=one(); bool f=true; double rr=1; uint32_t rh=0; for(int i=0;i<n;i++){ if(f){rr=a;rh=ha;f=false;} else { rr=__sx_fbin(18,rr,a,rh,ha); rh=__sx_h; } } if(b<0){ rr=__sx_fbin(21,1.0,rr,0,rh); rh=__sx_h; } __sx_h=rh; return rr; } break;
    case 6: { double x=__sx_fbin(18,a,a,ha,ha); uint32_t hx=__sx_h; double y=__sx_fbin(18,b,b,hb,hb); uint32_t hy=__sx_h; double s=__sx_fbin(14,x,y,hx,hy); return __sx_fun1(1,s,__sx_h); }
  }
  S->abstracted++; S->lost++; snprintf(S->lostmsg,256,"math fn2 %d at %s",id,locname(curloc)); __sx_h=0; return 0.5; }
}
// ---------------------------------------------------------------- memory
static char* AR=nullptr; static size_t ARCAP=1ull<<30, ARTOP=0; static unsigned char* AS=nullptr; // state per byte: 0 none 1 uninit 2 init 3 freed
static std::unordered_map<uint64_t,size_t>* blocks; // user ptr -> size
struct ShPage{ uint32_t g[4096]; }; static std::unordered_map<uint64_t,ShPage*> pages; static uint64_t lastpg=~0ull; static ShPage* lastp=nullptr;
static const uint32_t CONT=0xffffffffu;
static ShPage* page(uint64_t a,bool mkp){ uint64_t n=a>>12; if(n==lastpg&&(lastp||!mkp))return lastp; auto it=pages.find(n); ShPage*p=it==pages.end()?nullptr:it->second; if(!p&&mkp){ p=(ShPage*)calloc(1,sizeof(ShPage)); pages[n]=p; } lastpg=n; lastp=p; return p; }
static void shclear(uint64_t a,uint64_t n){ while(n){ uint64_t off=a&4095, k=std::min<uint64_t>(n,4096-off); ShPage*p=page(a,false); if(p){ for(uint64_t i=0;i<k;i++)p->g[off+i]=0; if(off+k<4096&&p->g[off+k]==CONT)p->g[off+k]=0; } a+=k;n-=k; } }
static uint32_t shget(uint64_t a){ ShPage*p=page(a,false); return p?p->g[a&4095]:0; }
static void shset(uint64_t a,uint32_t v){ page(a,true)->g[a&4095]=v; }
static bool inarena(const void*p){ return (char*)p>=AR&&(char*)p<AR+ARCAP; }
struct Acc{ int wtid, rtid, rtid2; uint32_t wloc,rloc; };
static bool inpar=false; static int partid=0; static uint64_t parstack=0; static std::unordered_map<uint64_t,Acc>* accs=nullptr; static int critdepth=0; static std::set<uint64_t>* races=nullptr;
static void paraccess(uint64_t a,uint64_t n,int wr,uint32_t loc){ // every 4-byte granule
  if(!inarena((void*)a)){ // stack of the region's threads is private; the rest of the stack and globals are shared
    uint64_t here=(uint64_t)__builtin_frame_address(0); if(a>=here-65536&&a<parstack)return; }
  if(critdepth)return; 
  for(uint64_t g=a>>2;g<=(a+n-1)>>2;g++){ Acc&x=(*accs)[g]; if(x.wtid==0&&x.rtid==0&&x.wloc==0&&x.rloc==0){x.wtid=x.rtid=x.rtid2=-1;} int t=partid; bool race=false; uint32_t ol=0;
    if(wr){ if(x.wtid>=0&&x.wtid!=t){race=true;ol=x.wloc;} else if(x.rtid>=0&&x.rtid!=t){race=true;ol=x.rloc;} else if(x.rtid2>=0&&x.rtid2!=t){race=true;ol=x.rloc;} x.wtid=t;x.wloc=loc; }
    else { if(x.wtid>=0&&x.wtid!=t){race=true;ol=x.wloc;} if(x.rtid<0)x.rtid=t; else if(x.rtid!=t)x.rtid2=t; x.rloc=loc; }
    if(race){ uint64_t key=((uint64_t)ol<<32)|loc; if(races->insert(key).second)candidate("race",std::string("data race between iterations/threads of a parallel region: ")+locname(ol)+" and "+locname(loc),nullptr); return; } } }
static void access(void*p,uint64_t n,int wr,uint32_t loc){ curloc=loc; if(inpar)paraccess((uint64_t)p,n,wr,loc);
  if(n&&inarena(p)){ size_t o=(char*)p-AR; unsigned char s0=AS[o],s1=AS[o+n-1]; if(s0==0||s1==0||s0==3||s1==3){ char b[200]; snprintf(b,200,"%s of %lu bytes %s at %s",wr?"write":"read",(unsigned long)n,(s0==3||s1==3)?"after free":"out of bounds",locname(loc)); candidate("memory",b,nullptr); finish(0);} if(wr){ for(uint64_t i=0;i<n;i++)AS[o+i]=2; } else if(opt_uninit&&s0==1&&n>=4){ char b[200]; snprintf(b,200,"read of uninitialised heap memory at %s",locname(loc)); candidate("uninit",b,nullptr); finish(0);} }
  else if((uint64_t)p<4096){ char b[200]; snprintf(b,200,"null dereference at %s",locname(loc)); candidate("memory",b,nullptr); finish(0);} }
extern "C" {
void __sx_access(void*p,uint64_t n,uint32_t wr,uint32_t loc){ if(++steps>opt_steps)step(); if(wr==2){ int c=critdepth; critdepth=1; access(p,n,1,loc); critdepth=c; } else access(p,n,wr,loc); }
uint32_t __sx_load(void*p,uint64_t n,uint32_t loc){ if(++steps>opt_steps)step(); access(p,n,0,loc); uint64_t a=(uint64_t)p; uint32_t h=shget(a); if(h==0){ for(uint64_t i=1;i<n;i++)if(shget(a+i)){h=CONT;break;} if(h==0)return 0; }
  if(h!=CONT){ bool good=true; for(uint64_t i=1;i<n;i++)if(shget(a+i)!=CONT){good=false;break;} if(good&&shget(a+n)!=CONT)return h; if(good&&shget(a+n)==CONT&&vals[h].isint){ // narrow load of the low part
      uint64_t w=0; while(shget(a+1+w)==CONT&&w<8)w++; uint64_t sv=__sx_h; __sx_icast(2,(w+1)*8,n*8,0,h); uint32_t r=__sx_h; __sx_h=sv; if(r)return r; } }
  S->lost++; snprintf(S->lostmsg,256,"partial load of a symbolic cell at %s",locname(loc)); return 0; }
void __sx_store(void*p,uint64_t n,uint32_t h,uint32_t loc){ if(++steps>opt_steps)step(); access(p,n,1,loc); uint64_t a=(uint64_t)p; shclear(a,n); if(h){ shset(a,h); for(uint64_t i=1;i<n;i++)shset(a+i,CONT);} }
void __sx_loadagg(void*p,uint64_t n,uint32_t loc){ for(uint64_t i=0;i<n;i++)if(shget((uint64_t)p+i)){ S->lost++; snprintf(S->lostmsg,256,"aggregate load of a symbolic cell at %s",locname(loc)); return; } }
void __sx_memcpy(void*d,void*s,uint64_t n,uint32_t loc){ if(!n)return; access(s,n,0,loc); access(d,n,1,loc); std::vector<uint32_t> t(n); uint64_t a=(uint64_t)s,b=(uint64_t)d; bool any=false; for(uint64_t i=0;i<n;i++){t[i]=shget(a+i); any|=t[i]!=0;} shclear(b,n); if(any)for(uint64_t i=0;i<n;i++)if(t[i])shset(b+i,t[i]); }
void __sx_clear(void*d,uint32_t n){ __sx_store(d,n,0,curloc); }
void __sx_memset(void*d,uint64_t n,uint32_t loc){ if(!n)return; access(d,n,1,loc); shclear((uint64_t)d,n); }
void* __sx_new(uint64_t n){ if(n>(256ull<<20)||ARTOP+n+256>ARCAP){ char b[120]; snprintf(b,120,"allocation of %lu bytes near %s",(unsigned long)n,locname(curloc)); candidate("memory",b,nullptr); finish(0);} size_t o=(ARTOP+64+15)&~15ull; ARTOP=o+(n?n:1); void*p=AR+o; memset(AS+o,1,n); (*blocks)[(uint64_t)p]=n; return p; }
static void arfree(void*p){ auto it=blocks->find((uint64_t)p); if(it==blocks->end()){ char b[120]; snprintf(b,120,"invalid free near %s",locname(curloc)); candidate("memory",b,nullptr); finish(0);} size_t o=(char*)p-AR; if(it->second&&AS[o]==3){ char b[120]; snprintf(b,120,"double free near %s",locname(curloc)); candidate("memory",b,nullptr); finish(0);} memset(AS+o,3,it->second); shclear((uint64_t)p,it->second); if(it->second==0)blocks->erase(it); }
void __sx_delete(void*p){ if(!p)return; if(inarena(p))arfree(p); else free(p); }
void* __sx_malloc(uint64_t n){ return __sx_new(n); }
void __sx_free(void*p){ __sx_delete(p); }
void* __sx_memchr(const void*p,int c,uint64_t n,uint32_t){ const unsigned char*b=(const unsigned char*)p; for(uint64_t i=0;i<n;i++){ uint32_t h=__sx_load((void*)(b+i),1,curloc); if(h){ if(__sx_icmp(32,8,b[i],(unsigned char)c,h,0,curloc))return (void*)(b+i);} else if(b[i]==(unsigned char)c)return (void*)(b+i);} return nullptr; }
int __sx_memcmp(const void*p,const void*q,uint64_t n){ const unsigned char*a=(const unsigned char*)p,*b=(const unsigned char*)q; for(uint64_t i=0;i<n;i++){ uint32_t ha=__sx_load((void*)(a+i),1,curloc),hb=__sx_load((void*)(b+i),1,curloc); if(ha||hb){ if(!__sx_icmp(32,8,a[i],b[i],ha,hb,curloc))return __sx_icmp(36,8,a[i],b[i],ha,hb,curloc)?-1:1; } else if(a[i]!=b[i])return a[i]<b[i]?-1:1; } return 0; }
uint64_t __sx_strlen(const char*p){ uint64_t n=0; for(;;n++){ uint32_t h=__sx_load((void*)(p+n),1,curloc); if(h){ if(__sx_icmp(32,8,(unsigned char)p[n],0,h,0,curloc))break; } else if(!p[n])break; } return n; }
void __sx_lost(uint32_t h,uint32_t loc,const char*what){ if(!h)return; S->lost++; snprintf(S->lostmsg,256,"symbolic value lost in %s at %s",what,locname(loc)); }
void __sx_enter(uint32_t f){ curf=f; if(f<65536)S->fcov[f]=1; }
}
void* operator new(size_t n){ void*p=malloc(n?n:1); if(!p)abort(); return p; } void* operator new[](size_t n){ void*p=malloc(n?n:1); if(!p)abort(); return p; }
void operator delete(void*p)noexcept{ if(p&&inarena(p))arfree(p); else free(p);} void operator delete[](void*p)noexcept{ if(p&&inarena(p))arfree(p); else free(p);} void operator delete(void*p,size_t)noexcept{ if(p&&inarena(p))arfree(p); else free(p);} void operator delete[](void*p,size_t)noexcept{ if(p&&inarena(p))arfree(p); else free(p);} 

// ---------------------------------------------------------------- ostream (symbolic numbers are printed as tokens, read back by sx harnesses)
#include <ostream>
extern "C" std::ostream* __sx_ostream_double(std::ostream*o,double d,uint32_t h){ if(h){ char b[32]; snprintf(b,32,"@%u@",h); o->write(b,strlen(b)); } else *o<<d; return o; }
#include <istream>
extern "C" std::istream* __sx_istream_double(std::istream*i,double*x,uint32_t loc){
  std::istream::sentry ok(*i); if(!ok){ return i; }
  if(i->peek()!='@'){ double v=0; *i>>v; *x=v; __sx_store(x,8,0,loc); return i; }
  i->get(); uint32_t h=0; int c; while((c=i->get())!=EOF&&c!='@')h=h*10+(c-'0'); if(c!='@'||h>=vals.size()){ i->setstate(std::ios_base::failbit); *x=0; __sx_store(x,8,0,loc); return i; }
  *x=approxval(h); __sx_store(x,8,h,loc); return i; }

// ---------------------------------------------------------------- candidates / API
struct Input{ std::string name; int atom; int kind; Q scale; long choice; };
static std::vector<Input> inputs;
static void writeinputs(FILE*f,const Model*m,bool&exact){
  for(auto&in:inputs){ if(in.kind==3)fprintf(f,"%s\t%ld\t%ld\n",in.name.c_str(),in.choice,in.choice); else { Q v=(size_t)in.atom<m->v.size()?m->v[in.atom]:defval(in.atom); if((size_t)in.atom<m->ok.size()&&!m->ok[in.atom])exact=false; if(in.kind==2){ fprintf(f,"%s\t%s\t%s\n",in.name.c_str(),v.get_num().get_str().c_str(),v.get_str().c_str()); } else { Q w=v*in.scale; double dd=w.get_d(); // get_d truncates: pick nearest
        double d2=nextafter(dd,w>0?INFINITY:-INFINITY); if(abs(Q(d2)-w)<abs(Q(dd)-w))dd=d2; fprintf(f,"%s\t%a\t%s\n",in.name.c_str(),dd,w.get_str().size()<200?w.get_str().c_str():"long"); } } }
}
static void candidate(const char*kind,const std::string&msg,const Model*m){
  Model mm; if(!m){ growmodel(cur); if(!curvalid){ Model t; int r=query({fb(true)},t); (void)r; // establish feasibility of the whole pc
       std::vector<F> all=pc; Model o; pc.clear(); auto sv=pca; pca.clear(); int rr=query(all,o); pc=all; pca=sv; if(rr==0){ return; } if(rr<0){ S->checkunk++; return; } cur=o; curvalid=true; } m=&cur; }
  long id=S->ncand++; if(id>=opt_maxcand){ S->stop=1; return; }
  char fn[64]; snprintf(fn,64,"/cand_%ld.txt",id); FILE*f=fopen((outdir+fn).c_str(),"w"); if(!f)return;
  fprintf(f,"%s\t%s\n",kind,msg.c_str()); bool exact=true; writeinputs(f,m,exact);
  fprintf(f,"#exact\t%d\n",exact); fclose(f); }
struct Obs{ uint32_t h; double c; }; static std::vector<Obs> obs; static int opt_wit=24;
static void writeinputs(FILE*f,const Model*m,bool&exact);
static void witness(){ if(!curvalid||pc_unsure)return; long id=S->paths.load(); if(!(id<8||(id&(id-1))==0||id%977==0))return; growmodel(cur); bool ex=true; for(auto&in:inputs)if(in.kind!=3&&!cur.ok[in.atom])ex=false; if(!ex)return; long w=S->nwit++; if(w>=opt_wit)return; char fn[64]; snprintf(fn,64,"/wit_%ld.txt",w); FILE*f=fopen((outdir+fn).c_str(),"w"); if(!f)return; fprintf(f,"witness\tpath\n"); writeinputs(f,&cur,ex); for(auto&o:obs){ double v=o.c; if(o.h){ const Val&x=vals[o.h]; Q n,d; if(evalpoly(x.n,cur,n)&&(!x.hasd||(evalpoly(x.d,cur,d)&&d!=0))){ if(x.hasd)n/=d; v=n.get_d(); } else v=approxval(o.h); } fprintf(f,"#obs\t%.17g\n",v);} fprintf(f,"#exact\t%d\n",ex); fclose(f); }
static int chkid(const char*m){ lockS(); int n=S->nchk; for(int i=0;i<n;i++)if(!strncmp(S->chk[i].msg,m,199)){unlockS();return i;} if(n<256){ strncpy(S->chk[n].msg,m,199); S->nchk=n+1; } unlockS(); return n<256?n:255; }
static void checkF(const F&viol,const char*msg){ S->checks++; int id=chkid(msg); S->chk[id].n++; int k=lookup(viol); if(k==0)return; checkdeadline(); growmodel(cur);
  if(curvalid&&evalF(viol,cur)==1){ candidate("check",msg,&cur); return; }
  Model m; int r=query({viol},m); if(r==1){ if(!curvalid){ // confirm against the full path condition
      std::vector<F> all=pc; all.push_back(viol); auto sp=pc; auto sa=pca; pc.clear(); pca.clear(); r=query(all,m); pc=sp; pca=sa; if(r==0)return; if(r<0){S->checkunk++;S->chk[id].unk++;return;} }
    candidate("check",msg,&m); } else if(r<0){ S->checkunk++; S->chk[id].unk++; } else learn(fnot(viol)); }
extern "C" {
static double mkinput(const char*name,int kind,Q lo,Q hi,Q scale){ int a=newatom(kind==0?0:1,name); atoms[a].haslo=atoms[a].hashi=true; atoms[a].lo=lo;atoms[a].hi=hi; atoms[a].user=true; cur.v[a]=defval(a); cur.ok[a]=1; inputs.push_back({name,a,kind,scale,0}); Val v; v.n=pscale(patom(a),scale); v.isint=kind==2; v.nonneg=lo*scale>=0&&hi*scale>=0; __sx_ret=mk(v); return approxval(__sx_ret); }
double sx_real(const char*name,double lo,double hi){ return mkinput(name,0,Q(lo),Q(hi),1); }
double sx_grid(const char*name,long lo,long hi,double scale){ if(lo==hi){ __sx_ret=0; inputs.push_back({name,0,3,1,lo}); return lo*scale; } return mkinput(name,1,Q(zofi(lo)),Q(zofi(hi)),Q(scale)); }
long sx_int(const char*name,long lo,long hi){ if(lo==hi){ __sx_ret=0; inputs.push_back({name,0,3,1,lo}); return lo; } return (long)mkinput(name,2,Q(zofi(lo)),Q(zofi(hi)),1); }
long sx_choice(const char*name,long n){ mkinput(name,2,0,Q(zofi(n-1)),1); long r; if(n<=1){r=0;} else r=(long)concretise(__sx_ret); __sx_ret=0; return r; }
long sx_pin_int(long v){ uint32_t h=__sx_args[0]; if(h){ v=concretise(h);} __sx_ret=0; return v; }
void sx_assume(int c){ uint32_t h=__sx_args[0]; if(h)c=!decide(mkcmp(vals[h].n,EQ)); __sx_ret=0; if(!c){ S->assumed++; finish(0);} }
void sx_check(int c,const char*msg){ uint32_t h=__sx_args[0]; __sx_ret=0; if(h)c=!decide(mkcmp(vals[h].n,EQ)); S->checks++; S->chk[chkid(msg)].n++; if(!c){ candidate("check",msg,nullptr); finish(0);} }
void sx_check_le(double a,double b,const char*msg){ uint32_t ha=__sx_args[0],hb=__sx_args[1]; __sx_ret=0; pinv(a,ha); pinv(b,hb); if(!ha&&!hb){ S->checks++; S->chk[chkid(msg)].n++; if(!(a<=b)){candidate("check",msg,nullptr);} return; } if((!ha&&!std::isfinite(a))||(!hb&&!std::isfinite(b))){ bool okk=(!ha&&a==-INFINITY)||(!hb&&b==INFINITY); S->checks++; S->chk[chkid(msg)].n++; if(!okk)candidate("check",msg,nullptr); return; } Poly d=cmpdiff(get(a,ha),get(b,hb)); checkF(mkcmp(pneg(d),LT),msg); }
void sx_check_near(double a,double b,double tol,const char*msg){ uint32_t ha=__sx_args[0],hb=__sx_args[1]; __sx_ret=0; pinv(a,ha); pinv(b,hb); if(!ha&&!hb){ S->checks++; S->chk[chkid(msg)].n++; if(!(a==b||fabs(a-b)<=tol))candidate("check",msg,nullptr); return; } if((!ha&&!std::isfinite(a))||(!hb&&!std::isfinite(b))){ S->checks++; candidate("check",msg,nullptr); return; } Val x=get(a,ha),y=get(b,hb); Poly d=cmpdiff(x,y); Poly D=(x.hasd&&y.hasd&&x.d==y.d)?x.d:pmul(den(x),den(y)); Poly T=pscale(D,Q(tol)); checkF(for_(mkcmp(psub(T,d),LT),mkcmp(padd(T,d),LT)),msg); }
void sx_check_eq(double a,double b,const char*msg){ sx_check_near(a,b,0,msg); }
static F anyacc; static bool anyok; static void sx_any_reset(){ anyacc=fb(true); anyok=false; }
void sx_any_begin(void){ __sx_ret=0; sx_any_reset(); }
void sx_any(double a){ uint32_t ha=__sx_args[0]; __sx_ret=0; pinv(a,ha); if(!ha){ if(a<=0)anyok=true; return; } if(anyok)return; Poly d=cmpdiff(get(a,ha),get(0.0,0)); F v=mkcmp(pneg(d),LT); int k=lookup(v); if(k==0)anyok=true; else anyacc=fand(anyacc,v); }
void sx_any_check(const char*msg){ __sx_ret=0; if(anyok){ S->checks++; S->chk[chkid(msg)].n++; return; } checkF(anyacc,msg); }
void sx_check_sign(double a,const char*msg){ uint32_t h=__sx_args[0]; __sx_args[0]=0; __sx_args[1]=h; sx_check_le(0.0,a,msg); }
void sx_cover(const char*w){ lockS(); int n=S->ncover; int i; for(i=0;i<n;i++)if(!strcmp(S->cover[i].name,w))break; if(i==n&&n<64){ strncpy(S->cover[n].name,w,95); S->ncover=n+1; } unlockS(); if(i<64)S->cover[i].n++; __sx_ret=0; }
void sx_observe(double v){ uint32_t h=__sx_args[0]; __sx_ret=0; obs.push_back({h,v}); }
double sx_parse(const char*t){ uint32_t h=0; if(*t=='@'){ h=(uint32_t)atol(t+1); __sx_ret=h; return h&&h<vals.size()?approxval(h):0; } __sx_ret=0; return strtod(t,0); }
int sx_symbolic(void){ __sx_ret=0; return 1; }
void sx_option(const char*k,long v){ __sx_ret=0; if(!strcmp(k,"uninit"))opt_uninit=v; else if(!strcmp(k,"steps"))opt_steps=v; else if(!strcmp(k,"rlimit"))opt_rlimit=v; else if(!strcmp(k,"qms"))opt_qms=v; else if(!strcmp(k,"split"))opt_split=v; else if(!strcmp(k,"maxcand"))opt_maxcand=v; }
}
static pid_t rootpid;
[[noreturn]] static void finish(int code){ if(finished)_exit(0); finished=true; if(code==1){ witness(); S->paths++; } 
  if(owns_token){ owns_token=false; sem_post(&S->tokens);} for(pid_t p:kids){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(WIFSIGNALED(st)){S->crash++;S->lost++;} }
  _exit(0); }
static void writestats(){ {
    FILE*f=fopen((outdir+"/stats.json").c_str(),"w"); if(f){ fprintf(f,"{\"paths\":%ld,\"infeasible\":%ld,\"assumed_away\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"fallback\":%ld,\"forks\":%ld,\"candidates\":%ld,\"lost\":%ld,\"crash\":%ld,\"steplimit\":%ld,\"exits\":%ld,\"checks\":%ld,\"check_unknown\":%ld,\"solver_s\":%.3f,\"max_depth\":%ld,\"abstracted\":%ld,\"stopped\":%ld,\"concretisations\":%ld,\"lostmsg\":\"",S->paths.load(),S->infeasible.load(),S->assumed.load(),S->queries.load(),S->sat.load(),S->unsat.load(),S->unknown.load(),S->fallback.load(),S->forks.load(),S->ncand.load(),S->lost.load(),S->crash.load(),S->steplimit.load(),S->exits.load(),S->checks.load(),S->checkunk.load(),S->solver_us.load()/1e6,S->maxdepth.load(),S->abstracted.load(),S->stop.load(),S->conc.load());
      for(char*c=S->lostmsg;*c;c++)if(*c!='"'&&*c!='\\'&&(unsigned char)*c>=32)fputc(*c,f); fprintf(f,"\",\"cover\":{"); for(int i=0;i<S->ncover;i++)fprintf(f,"%s\"%s\":%ld",i?",":"",S->cover[i].name,S->cover[i].n.load()); fprintf(f,"},\"checkmsgs\":{"); for(int i=0;i<S->nchk;i++)fprintf(f,"%s\"%s\":[%ld,%ld]",i?",":"",S->chk[i].msg,S->chk[i].n.load(),S->chk[i].unk.load()); fprintf(f,"},\"functions\":["); bool first=true; for(uint32_t i=0;i<__sx_fnames_n&&i<65536;i++)if(S->fcov[i]){ fprintf(f,"%s\"%s\"",first?"":",",__sx_fnames[i]); first=false; } fprintf(f,"]}\n"); fclose(f);} } }
[[noreturn]] static void toolarge(){ S->lost++; snprintf(S->lostmsg,256,"expression too large at %s",locname(curloc)); finish(0); }
static void onsig(int s){ char b[200]; snprintf(b,200,"signal %d near %s in %s",s,locname(curloc),curf<__sx_fnames_n?__sx_fnames[curf]:"?"); candidate("crash",b,nullptr); finish(0); }
static void atex(){ if(!finished){ S->exits++; finish(1);} }
int main(int argc,char**argv){
  if(argc>1)outdir=argv[1]; double budget=argc>2?atof(argv[2]):600; int ncore=argc>3?atoi(argv[3]):8; if(getenv("SX_RLIMIT"))opt_rlimit=atol(getenv("SX_RLIMIT"));
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sem_init(&S->tokens,1,ncore-1); rootpid=getpid(); deadline=nowt()+budget;
  AR=(char*)mmap(0,ARCAP,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); AS=(unsigned char*)mmap(0,ARCAP,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); blocks=new std::unordered_map<uint64_t,size_t>(); accs=new std::unordered_map<uint64_t,Acc>(); races=new std::set<uint64_t>();
  static char alt[1<<16]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,0); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER|SA_RESETHAND; for(int s:{SIGSEGV,SIGFPE,SIGABRT,SIGBUS,SIGILL})sigaction(s,&sa,0);
  pid_t mainp=fork(); if(mainp>0){ // supervisor: enforces the deadline even inside one long computation, then writes the statistics
    setpgid(mainp,mainp); bool killed=false; while(true){ int st; pid_t r=waitpid(mainp,&st,WNOHANG); if(r==mainp){ if(WIFSIGNALED(st)&&!killed){S->crash++;S->lost++;} break; } if(nowt()>deadline+10&&!killed){ killed=true; S->lost++; S->stop=1; snprintf(S->lostmsg,256,"hard deadline"); kill(-mainp,SIGKILL); } usleep(killed?1000:5000); }
    usleep(20000); writestats(); _exit(0); }
  setpgid(0,0);
  atexit(atex); if(!getenv("SX_VERBOSE")){ int n=open("/dev/null",O_WRONLY); dup2(n,1); }
  vals.reserve(100000); zinit(); memset(__sx_args,0,sizeof __sx_args);
  sx_main(); finish(1); }

// ---------------------------------------------------------------- OpenMP model: each "thread" runs to completion; conflicting accesses between threads are races
static int omp_nt=1; static int par_n=1; static int opt_threads_override=0;
extern "C" {
void omp_set_num_threads(int n){ omp_nt=n>0?n:1; __sx_ret=0; } int omp_get_num_threads(){ __sx_ret=0; return par_n; } int omp_get_thread_num(){ __sx_ret=0; return partid; } int omp_get_max_threads(){ __sx_ret=0; return omp_nt; } double omp_get_wtime(){ __sx_ret=0; return 0.0; }
void sx_omp_threads(int n){ __sx_ret=0; opt_threads_override=n; }
typedef void(*kmpf)(int32_t*,int32_t*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
void __kmpc_fork_call(void*,int32_t n,void*fn,...){ va_list ap; va_start(ap,fn); void*a[40]; for(int i=0;i<40;i++)a[i]=i<n?va_arg(ap,void*):nullptr; va_end(ap); int T=opt_threads_override?opt_threads_override:omp_nt; if(inpar)T=1; int sp=partid; bool si=inpar; int32_t g,b=0; int spn=par_n;
  if(!si){ accs->clear(); inpar=T>1; parstack=(uint64_t)__builtin_frame_address(0); par_n=T; }
  for(int t=0;t<T;t++){ if(!si)partid=t; g=t; memset(__sx_args,0,sizeof __sx_args);
    ((kmpf)fn)(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19],a[20],a[21],a[22],a[23],a[24],a[25],a[26],a[27],a[28],a[29],a[30],a[31],a[32],a[33],a[34],a[35],a[36],a[37],a[38],a[39]); }
  if(!si){ inpar=false; partid=0; par_n=spn; } else partid=sp; __sx_ret=0; }
#define STATIC_INIT(SUF,T) void __kmpc_for_static_init_##SUF(void*,int32_t,int32_t,int32_t*last,T*lo,T*hi,T*st,T inc,T chunk){ uint64_t msk=sizeof(T)==4?0xffffffffull:~0ull; for(T*q:{lo,hi}){ uint32_t h=shget((uint64_t)q); if(h&&h!=CONT)*q=(T)(concretise(h)&msk); } shclear((uint64_t)lo,sizeof(T)); shclear((uint64_t)hi,sizeof(T)); shclear((uint64_t)st,sizeof(T)); shclear((uint64_t)last,4); T tot=(*hi-*lo)/inc+1; if(*hi<*lo)tot=0; T per=(tot+par_n-1)/par_n; T l=*lo+(T)partid*per*inc; T h=l+(per-1)*inc; if(h>*hi)h=*hi; *last=(h==*hi); *st=tot*inc; *lo=l; *hi=h; if(per==0){*lo=1;*hi=0;} __sx_ret=0; }
STATIC_INIT(4,int32_t) STATIC_INIT(4u,uint32_t) STATIC_INIT(8,int64_t) STATIC_INIT(8u,uint64_t)
void __kmpc_for_static_fini(void*,int32_t){__sx_ret=0;} void __kmpc_barrier(void*,int32_t){__sx_ret=0;} int32_t __kmpc_global_thread_num(void*){__sx_ret=0;return partid;} void __kmpc_push_num_threads(void*,int32_t,int32_t n){ omp_nt=n; }
void __kmpc_critical(void*,int32_t,void*){critdepth++;__sx_ret=0;} void __kmpc_end_critical(void*,int32_t,void*){critdepth--;__sx_ret=0;}
}
