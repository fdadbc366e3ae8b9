// Symbolic runtime: shadow memory, real/integer polynomial terms, path exploration (fork per undecided
// branch), solver driver, verdict bookkeeping. Compiled natively, never instrumented.
#include <execinfo.h>
#include <gmpxx.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <charconv>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <atomic>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <dlfcn.h>
#include <malloc.h>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <time.h>
#include <sys/resource.h>
#include <semaphore.h>
#include "sx.h"
using std::string; using std::vector; using std::map; using std::set;
typedef mpq_class Q;

// ---------------------------------------------------------------- terms
struct Poly; struct Form;
struct Var { string name; bool isInt=false; bool hasLo=false,hasHi=false; Q lo,hi; vector<const Form*> defs; const Poly*sq=nullptr; const Poly*invOf=nullptr; int invLM=-1; const Poly*sinP=nullptr,*cosP=nullptr; bool input=false; };
static vector<Var> vars;
typedef vector<std::pair<int,int>> MonoV;
static vector<MonoV> monos; static map<MonoV,int> monoIdx;
static int mono(const MonoV&m){ auto it=monoIdx.find(m); if(it!=monoIdx.end()) return it->second; int id=monos.size(); monos.push_back(m); monoIdx[m]=id; return id; }
struct Poly { vector<std::pair<int,Q>> t; bool isInt; int id; bool isConst()const{ return t.empty()||(t.size()==1&&t[0].first==0);} Q cst()const{ return t.empty()?Q(0):t[0].second; } };
static std::unordered_map<string,const Poly*> polyTab; static int polyCnt=0;
static const Poly* mk(map<int,Q>&m){
  string key; vector<std::pair<int,Q>> t; bool isInt=true;
  for(auto&x:m) if(x.second!=0){ t.push_back(x); key+=std::to_string(x.first); key+=':'; key+=x.second.get_str(62); key+=','; if(x.second.get_den()!=1) isInt=false; else for(auto&v:monos[x.first]) if(!vars[v.first].isInt) isInt=false; }
  auto&r=polyTab[key]; if(!r){ auto*p=new Poly; p->t=std::move(t); p->isInt=isInt; p->id=polyCnt++; r=p; } return r; }
static const Poly* pc(const Q&q){ map<int,Q> m; m[0]=q; return mk(m); }
static const Poly* pv(int v){ map<int,Q> m; m[mono({{v,1}})]=1; return mk(m); }
static const Poly* padd(const Poly*a,const Poly*b,const Q&k=1){ map<int,Q> m; for(auto&x:a->t) m[x.first]=x.second; for(auto&x:b->t) m[x.first]+=k*x.second; return mk(m); }
static const Poly* pscale(const Poly*a,const Q&k){ map<int,Q> m; for(auto&x:a->t) m[x.first]=x.second*k; return mk(m); }
static const Poly* pneg(const Poly*a){ return pscale(a,-1); }
static const Poly* psub(const Poly*a,const Poly*b){ return padd(a,b,-1); }
static const Poly* pmul(const Poly*a,const Poly*b);
static std::unordered_map<uint64_t,const Poly*> mmCache;
static int rwDepth=0;
static const Poly* monoReduce(const MonoV&m){ // apply rewriting rules (all are valid equalities)
  if(rwDepth<60) for(auto&x:m){ Var&v=vars[x.first];
    if(x.second>=2&&v.sq){ MonoV r; for(auto&y:m){ if(y.first!=x.first) r.push_back(y); else if(y.second>2) r.push_back({y.first,y.second-2}); } rwDepth++; auto*p=pmul(v.sq,monoReduce(r)); rwDepth--; return p; }
    if(v.invOf&&v.invLM>=0){ const MonoV&lm=monos[v.invLM]; bool div=true; for(auto&l:lm){ int e=0; for(auto&y:m) if(y.first==l.first) e=y.second; if(e<l.second) div=false; }
      if(div){ // inv*LM = (1 - inv*(b-c LM))/c
        MonoV r; for(auto&y:m){ int e=y.second; if(y.first==x.first) e-=1; for(auto&l:lm) if(l.first==y.first) e-=l.second; if(e>0) r.push_back({y.first,e}); }
        const Poly*b=v.invOf; Q c; map<int,Q> rest; for(auto&t:b->t){ if(t.first==v.invLM) c=t.second; else rest[t.first]=t.second; }
        int xv=x.first; rwDepth++; const Poly*rp=monoReduce(r); const Poly*res=psub(rp,pmul(pmul(pv(xv),mk(rest)),rp)); res=pscale(res,1/c); rwDepth--; return res; } } }
  map<int,Q> o; o[mono(m)]=1; return mk(o); }
static const Poly* mmul(int a,int b){ if(a>b) std::swap(a,b); uint64_t k=((uint64_t)a<<32)|b; if(rwDepth==0){ auto it=mmCache.find(k); if(it!=mmCache.end()) return it->second; }
  MonoV r; auto&x=monos[a]; auto&y=monos[b]; size_t i=0,j=0; while(i<x.size()||j<y.size()){ if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first)) r.push_back(x[i++]); else if(i>=x.size()||y[j].first<x[i].first) r.push_back(y[j++]); else { r.push_back({x[i].first,x[i].second+y[j].second}); i++;j++; } }
  auto*p=monoReduce(r); if(rwDepth==0) mmCache[k]=p; return p; }
static const Poly* pmul(const Poly*a,const Poly*b){
  if(a->isConst()) return pscale(b,a->cst()); if(b->isConst()) return pscale(a,b->cst());
  map<int,Q> m; for(auto&x:a->t) for(auto&y:b->t){ const Poly*p=mmul(x.first,y.first); Q k=x.second*y.second; for(auto&z:p->t) m[z.first]+=k*z.second; }
  return mk(m); }

enum Rel {EQ0,NE0,LT0,LE0};
enum FK {FT,FF,FATOM,FAND,FOR};
struct Form { FK k; const Poly*p=nullptr; Rel r=EQ0; vector<const Form*> c; int id; vector<int> vs; };
static std::unordered_map<string,const Form*> formTab; static int formCnt=0;
static void polyVars(const Poly*p,set<int>&s){ for(auto&t:p->t) for(auto&v:monos[t.first]) s.insert(v.first); }
static const Form* mkf(Form f,const string&key){ auto&r=formTab[key]; if(!r){ auto*n=new Form(std::move(f)); n->id=formCnt++; set<int> s; if(n->p) polyVars(n->p,s); for(auto*c:n->c) for(int v:c->vs) s.insert(v); n->vs.assign(s.begin(),s.end()); r=n; } return r; }
static const Form* fT(){ static const Form*f=mkf({FT},"T"); return f; }
static const Form* fF(){ static const Form*f=mkf({FF},"F"); return f; }
struct Iv { bool lo=false,hi=false; Q l,h; };
static Iv ivMul(const Iv&a,const Iv&b){ Iv r; // only handle fully bounded or sign-definite cases
  if(a.lo&&a.hi&&b.lo&&b.hi){ Q x[4]={a.l*b.l,a.l*b.h,a.h*b.l,a.h*b.h}; r.lo=r.hi=true; r.l=r.h=x[0]; for(int i=1;i<4;i++){ if(x[i]<r.l) r.l=x[i]; if(x[i]>r.h) r.h=x[i]; } return r; }
  if(a.lo&&a.l>=0&&b.lo&&b.l>=0){ r.lo=true; r.l=a.l*b.l; }
  return r; }
static Iv ivPoly(const Poly*p){ Iv s; s.lo=s.hi=true; s.l=s.h=0;
  for(auto&t:p->t){ Iv m; m.lo=m.hi=true; m.l=m.h=1; for(auto&v:monos[t.first]){ Iv x; Var&w=vars[v.first]; x.lo=w.hasLo;x.hi=w.hasHi;x.l=w.lo;x.h=w.hi; int e=v.second; Iv y; 
      if(e%2==0){ Iv sq=ivMul(x,x); if(!sq.lo||sq.l<0){ sq.lo=true; if(x.lo&&x.l>0) sq.l=x.l*x.l; else if(x.hi&&x.h<0) sq.l=x.h*x.h; else sq.l=0; } if(x.lo&&x.hi&&x.l<=0&&x.h>=0) sq.l=0; y.lo=y.hi=true;y.l=y.h=1; for(int i=0;i<e/2;i++) y=ivMul(y,sq); }
      else { y=x; for(int i=1;i<e;i++) y=ivMul(y,x); }
      m=ivMul(m,y); }
    Iv k; if(t.second>=0){ k.lo=m.lo;k.hi=m.hi;k.l=m.l*t.second;k.h=m.h*t.second; } else { k.lo=m.hi;k.hi=m.lo;k.l=m.h*t.second;k.h=m.l*t.second; }
    s.lo=s.lo&&k.lo; s.hi=s.hi&&k.hi; if(s.lo) s.l+=k.l; if(s.hi) s.h+=k.h; }
  return s; }
// sign of c1*sqrt(A) + c2*sqrt(B) (or a constant second term): compare the squares
static const Poly* sqrtSign(const Poly*p){ if(p->t.empty()||p->t.size()>2) return nullptr; Q c[2]; const Poly*a[2]={nullptr,nullptr}; int n=0; bool any=false;
  for(auto&t:p->t){ auto&mv=monos[t.first]; c[n]=t.second; if(mv.empty()) a[n]=pc(1); else if(mv.size()==1&&mv[0].second==1&&vars[mv[0].first].sq&&vars[mv[0].first].hasLo&&vars[mv[0].first].lo>=0){ a[n]=vars[mv[0].first].sq; any=true; } else return nullptr; n++; }
  if(!any) return nullptr;
  if(n==1) return pscale(a[0],c[0]);
  if((c[0]>0)==(c[1]>0)) return nullptr;
  return padd(pscale(a[0],c[0]>0?Q(c[0]*c[0]):Q(-c[0]*c[0])),pscale(a[1],c[1]>0?Q(c[1]*c[1]):Q(-c[1]*c[1]))); }
static const Form* atom(const Poly*p,Rel r){
  if(const Poly*q=sqrtSign(p)) p=q;
  if(p->isConst()){ Q c=p->cst(); bool b= r==EQ0?c==0: r==NE0?c!=0: r==LT0?c<0:c<=0; return b?fT():fF(); }
  Q k=p->t.back().second; if(k<0&&(r==LT0||r==LE0)) k=-k; 
  if(k!=1) p=pscale(p,1/k);
  if(p->t.size()&&!p->isInt){ // clear denominators for integer-only polys so that they print as Int
    bool ai=true; mpz_class l=1; for(auto&t:p->t){ mpz_class d=t.second.get_den(); mpz_lcm(l.get_mpz_t(),l.get_mpz_t(),d.get_mpz_t()); for(auto&v:monos[t.first]) if(!vars[v.first].isInt) ai=false; }
    if(ai) p=pscale(p,Q(l)); }
  Iv iv=ivPoly(p);
  if(r==LT0){ if(iv.hi&&iv.h<0) return fT(); if(iv.lo&&iv.l>=0) return fF(); }
  if(r==LE0){ if(iv.hi&&iv.h<=0) return fT(); if(iv.lo&&iv.l>0) return fF(); }
  if(r==EQ0||r==NE0){ if((iv.hi&&iv.h<0)||(iv.lo&&iv.l>0)) return r==NE0?fT():fF(); }
  return mkf({FATOM,p,r},"A"+std::to_string(r)+","+std::to_string(p->id)); }
static const Form* fnot(const Form*);
static const Form* fnary(FK k,vector<const Form*> c){ vector<const Form*> o; 
  for(auto*x:c){ if(x->k==k){ for(auto*y:x->c) o.push_back(y);} else o.push_back(x);} 
  std::sort(o.begin(),o.end(),[](auto*a,auto*b){return a->id<b->id;}); o.erase(std::unique(o.begin(),o.end()),o.end());
  vector<const Form*> q; for(auto*x:o){ if(x->k==(k==FAND?FT:FF)) continue; if(x->k==(k==FAND?FF:FT)) return x; q.push_back(x);} 
  for(auto*x:q) if(x->k==FATOM){ auto*n=fnot(x); for(auto*y:q) if(y==n) return k==FAND?fF():fT(); }
  if(q.empty()) return k==FAND?fT():fF(); if(q.size()==1) return q[0];
  string key=k==FAND?"&":"|"; for(auto*x:q) key+=std::to_string(x->id)+","; Form f{k}; f.c=q; return mkf(f,key); }
static const Form* fand(const Form*a,const Form*b){ return fnary(FAND,{a,b}); }
static const Form* f_or(const Form*a,const Form*b){ return fnary(FOR,{a,b}); }
static const Form* f_and(const Form*a,const Form*b){ return fand(a,b); }
static const Form* fnot(const Form*f){ switch(f->k){ case FT:return fF(); case FF:return fT(); case FATOM: switch(f->r){ case EQ0:return atom(f->p,NE0); case NE0:return atom(f->p,EQ0); case LT0:return atom(pneg(f->p),LE0); case LE0:return atom(pneg(f->p),LT0);} break; default:{ vector<const Form*> c; for(auto*x:f->c) c.push_back(fnot(x)); return fnary(f->k==FAND?FOR:FAND,c);} } return nullptr; }

struct Expr { int k; const Poly*p=nullptr; const Form*f=nullptr; double d=0; };  // k: 0 num, 1 bool, 2 special double
static map<std::pair<int,long>,Expr*> exprTab;
static Expr* eNum(const Poly*p){ auto&r=exprTab[{0,p->id}]; if(!r){ r=new Expr{0}; r->p=p;} return r; }
static Expr* eBool(const Form*f){ auto&r=exprTab[{1,f->id}]; if(!r){ r=new Expr{1}; r->f=f;} return r; }
static Expr* eSpec(double d){ int c=std::isnan(d)?0:d>0?1:2; auto&r=exprTab[{2,c}]; if(!r){ r=new Expr{2}; r->d=d;} return r; }

static int newVar(const string&n,bool isInt){ Var v; v.name=n; v.isInt=isInt; vars.push_back(v); return vars.size()-1; }
static void bound(int v,const Q*lo,const Q*hi){ if(lo){vars[v].hasLo=true;vars[v].lo=*lo;} if(hi){vars[v].hasHi=true;vars[v].hi=*hi;} }

// ---------------------------------------------------------------- shared statistics
struct MsgStat { char msg[120]; std::atomic<long> reached,norm,solver,viol,undec,weak; };
struct Shm { std::atomic<long> paths,forks,queries,qsat,qunsat,qunk,qcache,solverNs,infeasible,assumed,unsup,timeouts,crash,ignored,violations,undec,witness,conc,qfallback; 
  std::atomic<int> nmsg; std::atomic<int> lock; MsgStat m[256]; std::atomic<int> ntag; char tags[64][80]; std::atomic<long> tagc[64];
  std::atomic<uint64_t> fns[16384]; std::atomic<int> nunsup; char unsupMsg[32][200]; sem_t sem; double deadline; std::atomic<long> live; };
static Shm*shm; static string outDir="."; static long gMaxWitness=60; static double gT0;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void lock(){ int e=0; while(!shm->lock.compare_exchange_weak(e,1)){ e=0; usleep(10);} } static void unlock(){ shm->lock=0; }
static MsgStat* msgStat(const char*m){ int n=shm->nmsg; for(int i=0;i<n;i++) if(!strncmp(shm->m[i].msg,m,119)) return &shm->m[i]; lock(); n=shm->nmsg; for(int i=0;i<n;i++) if(!strncmp(shm->m[i].msg,m,119)){ unlock(); return &shm->m[i]; } if(n>=255){unlock(); return &shm->m[254];} strncpy(shm->m[n].msg,m,119); shm->nmsg=n+1; unlock(); return &shm->m[n]; }
static vector<pid_t> parKids; static bool holdToken=false; static long gTimeout=4000; static bool gIte=false; static long gPair=0; // 1: link differences of angles to their sines and cosines where those are known; 2: everywhere
struct InRec { string name; int kind; int var; double val; }; // kind 0 double,1 int,2 bool
static vector<InRec> inputs; static map<string,int> inCnt;
static bool ending=false;
[[noreturn]] static void leave(){ ending=true; for(pid_t p:parKids){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)!=0)) shm->crash++; } if(holdToken) sem_post(&shm->sem); fflush(stdout); _exit(0); }
static void unsupported(const string&w){ if(getenv("SX_TRACE")){ fprintf(stderr,"[unsupported] %s\n",w.c_str()); void*bt[24]; int k=backtrace(bt,24); backtrace_symbols_fd(bt,k,2); } shm->unsup++; int i=shm->nunsup++; if(i<32) strncpy(shm->unsupMsg[i],w.c_str(),199); leave(); }
// a path that computes for long without asking the solver anything does not finish: the native run has to confirm it
static volatile sig_atomic_t ticks=0; static long gHang=20;
static void arm(){ ticks=0; itimerval t; t.it_interval={3,0}; t.it_value={gHang,0}; setitimer(ITIMER_VIRTUAL,&t,nullptr); }
static void checkDeadline(){ if(now()>shm->deadline){ shm->timeouts++; leave(); } }

// ---------------------------------------------------------------- solver
struct Proc { pid_t pid=0; int in=-1,out=-1; pid_t owner=0; };
static Proc zp, cp; static string z3bin="z3-new", cvcbin="cvc5";
static void spawn(Proc&p,const vector<string>&argv){ int a[2],b[2]; if(pipe(a)||pipe(b)) abort(); p.pid=fork(); if(p.pid==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); dup2(a[0],0); dup2(b[1],1); int dn=open("/dev/null",O_WRONLY); dup2(dn,2); for(int i=3;i<200;i++) close(i); rlimit rl{6ul<<30,6ul<<30}; setrlimit(RLIMIT_AS,&rl); vector<char*> av; for(auto&s:argv) av.push_back((char*)s.c_str()); av.push_back(nullptr); execvp(av[0],av.data()); _exit(127); } close(a[0]); close(b[1]); p.in=a[1]; p.out=b[0]; p.owner=getpid(); fcntl(p.in,F_SETFD,FD_CLOEXEC); fcntl(p.out,F_SETFD,FD_CLOEXEC); }
static void killProc(Proc&p){ if(p.pid&&p.owner==getpid()){ kill(p.pid,SIGKILL); int st; waitpid(p.pid,&st,0);} else if(p.pid) kill(p.pid,SIGKILL); if(p.in>=0){close(p.in);close(p.out);} p=Proc(); }
static bool alive(Proc&p){ return p.pid&&kill(p.pid,0)==0; }
static bool talk(Proc&p,const string&txt,string&resp,double tmo){ resp.clear(); size_t off=0; double end=now()+tmo; fcntl(p.in,F_SETFL,O_NONBLOCK); char buf[65536];
  while(true){ pollfd f[2]={{p.out,POLLIN,0},{p.in,(short)(off<txt.size()?POLLOUT:0),0}}; int ms=(int)((end-now())*1000); if(ms<=0) return false; int r=poll(f,off<txt.size()?2:1,ms); if(r<0){ if(errno==EINTR) continue; return false;} if(r==0) return false;
    if(off<txt.size()&&(f[1].revents&(POLLERR|POLLHUP))) return false;
    if(off<txt.size()&&(f[1].revents&POLLOUT)){ ssize_t w=write(p.in,txt.data()+off,txt.size()-off); if(w>0) off+=w; else if(w<0&&errno!=EAGAIN) return false; }
    if(f[0].revents&(POLLIN|POLLHUP)){ ssize_t n=read(p.out,buf,sizeof buf); if(n<=0) return false; resp.append(buf,n); if(resp.find("sxdone")!=string::npos) return true; } } }
static string qstr(const Q&q,bool isInt){ auto num=[&](mpz_class z){ string s=mpz_class(abs(z)).get_str(); if(!isInt) s+=".0"; return z<0?"(- "+s+")":s; }; if(q.get_den()==1) return num(q.get_num()); string s="(/ "+mpz_class(abs(q.get_num())).get_str()+".0 "+q.get_den().get_str()+".0)"; return q<0?"(- "+s+")":s; }
static string pstr(const Poly*p,bool asInt){ if(p->t.empty()) return asInt?"0":"0.0"; string s; int n=0; for(auto&t:p->t){ string m; int k=0; auto&mv=monos[t.first]; bool one=t.second==1&&!mv.empty(); if(!one){ m+=" "+qstr(t.second,asInt); k++; } for(auto&v:mv) for(int e=0;e<v.second;e++){ string nm="v"+std::to_string(v.first); m+= (vars[v.first].isInt&&!asInt)?" (to_real "+nm+")":" "+nm; k++; } s+= k>1?" (*"+m+")":m; n++; } return n>1?"(+"+s+")":s.substr(1); }
static string fstr(const Form*f,const Q*robust=nullptr){ switch(f->k){ case FT:return "true"; case FF:return "false"; case FATOM:{ bool ai=f->p->isInt; string z=ai?"0":"0.0"; string s=pstr(f->p,ai); switch(f->r){ case EQ0:return "(= "+s+" "+z+")"; case NE0:return "(not (= "+s+" "+z+"))"; case LT0: if(robust&&!ai) return "(<= "+s+" (- "+qstr(*robust,false)+"))"; return "(< "+s+" "+z+")"; case LE0: if(robust&&!ai&&*robust>0&&0) return ""; return "(<= "+s+" "+z+")"; } } case FAND: case FOR:{ string s=f->k==FAND?"(and":"(or"; for(auto*c:f->c) s+=" "+fstr(c,robust); return s+")"; } } return ""; }

struct Pc { vector<const Form*> f; set<int> ids; bool sure=true; } static PC;
static const Form* pairLemmas(const set<int>&vs);
static void closure(const vector<const Form*>&seed,bool all,vector<const Form*>&out,set<int>&vs){
  vector<int> work; set<int> fid; auto addF=[&](const Form*f){ if(!fid.insert(f->id).second) return; out.push_back(f); for(int v:f->vs) if(vs.insert(v).second) work.push_back(v); };
  for(auto*f:seed) addF(f); if(all) for(auto*f:PC.f) addF(f);
  while(true){ while(!work.empty()){ int v=work.back(); work.pop_back(); for(auto*d:vars[v].defs) addF(d); }
    bool ch=false; if(!all) for(auto*f:PC.f){ if(fid.count(f->id)) continue; for(int v:f->vs) if(vs.count(v)){ addF(f); ch=true; break; } }
    if(!ch&&work.empty()) break; } }
static string buildQuery(const vector<const Form*>&fs,const set<int>&vs,const Q*robust,const set<int>*robustIds=nullptr){ string s; for(int v:vs){ s+="(declare-const v"+std::to_string(v)+(vars[v].isInt?" Int)":" Real)")+"\n"; }
  for(int v:vs){ Var&x=vars[v]; string nm="v"+std::to_string(v); if(x.hasLo) s+="(assert (<= "+qstr(x.lo,x.isInt)+" "+nm+"))\n"; if(x.hasHi) s+="(assert (<= "+nm+" "+qstr(x.hi,x.isInt)+"))\n"; }
  for(auto*f:fs) s+="(assert "+fstr(f,robust&&(!robustIds||robustIds->count(f->id))?robust:nullptr)+")\n"; return s; }
static std::unordered_map<string,int> qCache;
enum {SAT=1,UNSAT=0,UNK=2};
static FILE*qlog=nullptr;
static int z3Ask(const string&body,const string&tail,const char*check,long tmo,string&resp){
  if(!alive(zp)||(zp.pid==0)) { killProc(zp); spawn(zp,{z3bin,"-in","-memory:4000"}); }
  string q="(reset)\n(set-option :timeout "+std::to_string(tmo)+")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n"+body+check+"\n"+tail+"(echo \"sxdone\")\n";
  double t=now(); bool ok=talk(zp,q,resp,tmo/1000.0+3); shm->solverNs+=(long)((now()-t)*1e9);
  if(!ok){ killProc(zp); return UNK; }
  if(resp.find("(error")==0) return UNK;
  if(resp.compare(0,3,"sat")==0) return SAT; if(resp.compare(0,5,"unsat")==0) return UNSAT; return UNK; }
static int cvcAsk(const string&body,const string&tail,long tmo,string&resp){
  Proc p; spawn(p,{cvcbin,"--lang=smt2","--nl-cov","--produce-models","--tlimit="+std::to_string(tmo)}); string q="(set-logic ALL)\n"+body+"(check-sat)\n"+tail+"(echo \"sxdone\")\n(exit)\n";
  double t=now(); bool ok=talk(p,q,resp,tmo/1000.0+3); shm->solverNs+=(long)((now()-t)*1e9); killProc(p);
  if(!ok) return UNK; if(resp.compare(0,3,"sat")==0) return SAT; if(resp.compare(0,5,"unsat")==0) return UNSAT; return UNK; }
static int ask(const string&body,const string&tail,string&resp,bool hard){
  shm->queries++; checkDeadline();
  int r=z3Ask(body,tail,"(check-sat)",gTimeout,resp);
  if(r==UNK&&hard){ shm->qfallback++; bool hasInt=body.find(" Int)")!=string::npos;
    if(!hasInt){ r=z3Ask(body,tail,"(check-sat-using (then simplify propagate-values solve-eqs purify-arith qfnra-nlsat))",gTimeout*3,resp); }
    if(r==UNK) r=cvcAsk(body,tail,gTimeout*3,resp);
    if(r==UNK) r=z3Ask(body,tail,"(check-sat)",gTimeout*8,resp); }
  (r==SAT?shm->qsat:r==UNSAT?shm->qunsat:shm->qunk)++;
  if(qlog&&r==UNK){ fprintf(qlog,"; UNKNOWN\n%s\n",body.c_str()); fflush(qlog);} 
  return r; }
static int satWith(const Form*f,bool hard=false){ if(f->k==FF) return UNSAT; arm(); vector<const Form*> fs; set<int> vs; closure({f},false,fs,vs); if(gPair){ auto*l=pairLemmas(vs); if(l->k!=FT){ if(gPair<2) fs.push_back(l); else { fs.clear(); vs.clear(); closure({f,l},false,fs,vs); } } }
  string body=buildQuery(fs,vs,nullptr); auto it=qCache.find(body); if(it!=qCache.end()&&(it->second!=UNK||!hard)){ shm->qcache++; return it->second; } string resp; int r=ask(body,"",resp,hard); qCache[body]=r; return r; }
// model of inputs for the whole path condition plus f
static bool parseNum(const string&s,size_t&i,double&v){ while(i<s.size()&&isspace(s[i])) i++; if(s[i]=='('){ i++; while(isspace(s[i])) i++; string op; while(!isspace(s[i])&&s[i]!='('&&s[i]!=')') op+=s[i++]; if(op=="-"){ double a; if(!parseNum(s,i,a)) return false; v=-a; } else if(op=="/"){ double a,b; if(!parseNum(s,i,a)||!parseNum(s,i,b)) return false; v=a/b; } else if(op=="to_real"||op=="to_int"){ if(!parseNum(s,i,v)) return false; } else return false; while(i<s.size()&&s[i]!=')') i++; i++; return true; } char*e; v=strtod(s.c_str()+i,&e); if(e==s.c_str()+i) return false; i=e-s.c_str(); if(s[i]=='?') i++; return true; }
static int getModel(const Form*f,const string&file,const char*head,bool hard){ vector<const Form*> fs; set<int> vs; vector<const Form*> seed{f}; 
  closure(seed,true,fs,vs); for(auto&in:inputs) if(in.var>=0) vs.insert(in.var);
  { vector<int> w(vs.begin(),vs.end()); for(int v:w){ vector<const Form*> o; set<int> v2; closure({vars[v].defs},false,o,v2); for(auto*x:o) if(std::find(fs.begin(),fs.end(),x)==fs.end()) fs.push_back(x); for(int y:v2) vs.insert(y);} }
  if(gPair){ auto*l=pairLemmas(vs); if(l->k!=FT){ if(gPair<2) fs.push_back(l); else { vector<const Form*> o; set<int> v2; closure({l},false,o,v2); for(auto*x:o) if(std::find(fs.begin(),fs.end(),x)==fs.end()) fs.push_back(x); for(int y:v2) vs.insert(y); } } }
  string tail; vector<int> iv; for(auto&in:inputs) if(in.var>=0) iv.push_back(in.var);
  // an angle of which the query knows the sine and cosine takes the value these give
  vector<int> angs; for(auto&in:inputs) if(in.var>=0&&vars[in.var].sinP&&vars[in.var].cosP){ bool all=true; vector<int> need; for(auto*q:{vars[in.var].sinP,vars[in.var].cosP}) for(auto&t:q->t) for(auto&m:monos[t.first]){ if(!vs.count(m.first)) all=false; need.push_back(m.first); } if(all&&!need.empty()){ angs.push_back(in.var); for(int v:need) if(std::find(iv.begin(),iv.end(),v)==iv.end()) iv.push_back(v); } }
  if(!iv.empty()){ tail="(get-value ("; for(int v:iv) tail+=" v"+std::to_string(v); tail+="))\n"; }
  string resp; int r=UNK; Q rb[3]={Q(1,20),Q(1,1000),Q(0)}; long save=gTimeout; set<int> pcIds; for(auto*x:PC.f) pcIds.insert(x->id); if(f->k!=FT) pcIds.insert(f->id);
  for(int a=0;a<3&&r!=SAT;a++){ if(a<2) gTimeout=std::min<long>(save,2000); string body=buildQuery(fs,vs,a<2?&rb[a]:nullptr,&pcIds); gTimeout=save; if(a<2){ long t=gTimeout; gTimeout=std::min<long>(t,2000); r=ask(body,tail,resp,false); gTimeout=t; } else r=ask(body,tail,resp,hard); }
  if(r!=SAT) return r;
  map<int,double> val; size_t i=resp.find('('); if(i!=string::npos){ i++; while(i<resp.size()){ while(i<resp.size()&&isspace(resp[i])) i++; if(resp[i]!='(') break; i++; while(isspace(resp[i])) i++; if(resp[i]!='v') break; i++; int v=0; while(isdigit(resp[i])) v=v*10+(resp[i++]-'0'); double x; if(!parseNum(resp,i,x)) return UNK; val[v]=x; while(i<resp.size()&&resp[i]!=')') i++; i++; } }
  for(int v:iv) if(!val.count(v)) return UNK;
  for(int v:angs){ auto ev=[&](const Poly*q){ double r=0; for(auto&t:q->t){ double k=t.second.get_d(); for(auto&m:monos[t.first]) for(int i=0;i<m.second;i++) k*=val[m.first]; r+=k; } return r; }; double a=std::atan2(ev(vars[v].sinP),ev(vars[v].cosP)),x=val[v]; if(std::fabs(std::remainder(x-a,2*M_PI))<1e-9) continue; 
    double k=a+2*M_PI*std::round((x-a)/(2*M_PI)); if(vars[v].hasLo&&k<vars[v].lo.get_d()) k+=2*M_PI; if(vars[v].hasHi&&k>vars[v].hi.get_d()) k-=2*M_PI; if(!(vars[v].hasLo&&k<vars[v].lo.get_d())&&!(vars[v].hasHi&&k>vars[v].hi.get_d())) val[v]=k; }
  FILE*o=fopen(file.c_str(),"w"); if(!o) return UNK; fprintf(o,"# %s\n",head); { const char*t=getenv("SX_TIER"); fprintf(o,"sx.thorough %d\n",t&&t[0]=='t'); } for(auto&in:inputs){ double x=in.var>=0?val[in.var]:in.val; if(in.kind==0) fprintf(o,"%s %.17g\n",in.name.c_str(),x); else fprintf(o,"%s %ld\n",in.name.c_str(),(long)std::llround(x)); } fclose(o); return SAT; }

// ---------------------------------------------------------------- exploration
static void pcAdd(const Form*f){ if(f->k==FT) return; if(f->k==FAND){ for(auto*c:f->c) pcAdd(c); return; } if(PC.ids.insert(f->id).second) PC.f.push_back(f); }
static bool decide(const Form*f,const char*where="",bool both=false){ // both: the two sides are known to be feasible
  if(f->k==FT) return true; if(f->k==FF) return false;
  if(ending) return false;
  if(PC.ids.count(f->id)) return true; const Form*nf=fnot(f); if(PC.ids.count(nf->id)) return false;
  checkDeadline();
  int a=both?SAT:satWith(f); if(a==UNSAT&&PC.sure){ return false; }
  int b=both?SAT:satWith(nf);
  if(a==UNSAT&&b==UNSAT){ shm->infeasible++; leave(); }
  if(a==UNSAT) return false; if(b==UNSAT) return true;
  if(a==UNK||b==UNK) PC.sure=false;
  shm->forks++;
  fflush(stdout);
  static bool trace=getenv("SX_TRACE");
  if(trace) fprintf(stderr,"[fork] %s: %s\n",where,fstr(f).substr(0,300).c_str());
  if(sem_trywait(&shm->sem)==0){ pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); parKids.clear(); holdToken=true; zp=Proc(); arm(); pcAdd(nf); return false; } if(p>0){ parKids.push_back(p); pcAdd(f); return true; } sem_post(&shm->sem); shm->crash++; leave(); }
  pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); parKids.clear(); holdToken=false; arm(); pcAdd(f); return true; }
  if(p<0){ shm->crash++; leave(); }
  int st; while(waitpid(p,&st,0)<0&&errno==EINTR); arm(); if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)!=0)) shm->crash++;
  pcAdd(nf); return false; }
static long savedViol(const char*msg){ return msgStat(msg)->viol; }
// returns false when the full path condition excludes the violation (the path was entered on an unknown verdict)
static bool violation(const Form*f,const vector<const Form*>&margins,const char*msg){ auto*ms=msgStat(msg); if(ms->viol-ms->weak>=6||ms->viol>=60){ ms->viol++; shm->violations++; return true; } char fn[600];
  auto count=[&]{ ms->viol++; shm->violations++; return true; };
  for(auto*m:margins){ snprintf(fn,sizeof fn,"%s/viol_%d_%ld.in",outDir.c_str(),getpid(),(long)(now()*1e6)%1000000000); if(m->k!=FF&&satWith(m)==SAT&&getModel(m,fn,msg,true)==SAT) return count(); }
  // no counterexample beyond the tolerances of the replay: keep a few of these only, so that they do not crowd out others
  bool weak=!margins.empty(); if(weak&&ms->weak>=3){ ms->weak++; return count(); }
  snprintf(fn,sizeof fn,"%s/viol_%d_%ld.in",outDir.c_str(),getpid(),(long)(now()*1e6)%1000000000);
  int r=getModel(f,fn,msg,true); if(r==SAT){ if(weak) ms->weak++; return count(); } if(r==UNSAT) return false;
  ms->undec++; shm->undec++; return true; }
static void checkAssert(const Form*f,const char*msg,const vector<const Form*>&margins={}){ if(ending) return; auto*ms=msgStat(msg); ms->reached++;
  if(f->k==FT){ ms->norm++; return; }
  const Form*nf=fnot(f); int r=satWith(nf,true);
  if(r==UNSAT){ ms->solver++; return; }
  if(r==UNK){ ms->undec++; shm->undec++; if(getenv("SX_TRACE")) fprintf(stderr,"[undecided] %s\n",msg); pcAdd(f); return; }
  // the path itself may have been entered on an unknown verdict: confirm with the full path condition
  static bool trc=getenv("SX_TRACE"); if(trc){ vector<const Form*> fs; set<int> vs; closure({nf},false,fs,vs); fprintf(stderr,"[violation] %s\n%s\n",msg,buildQuery(fs,vs,nullptr).c_str()); }
  if(!violation(nf,margins,msg)){ ms->solver++; return; }
  if(satWith(f)==UNSAT) leave(); pcAdd(f); }

// ---------------------------------------------------------------- shadow memory
struct Page { Expr*e[4096]; uint8_t sz[4096]; };
static uint8_t pgHint[65536];
// open-addressing table on plain calloc: the delete hook below may run while it is being changed otherwise
static struct PageTab { uintptr_t*k=nullptr; Page**v=nullptr; size_t cap=0,n=0;
  Page** find(uintptr_t a){ if(!cap) return nullptr; for(size_t i=(a*0x9E3779B97F4A7C15ull)>>20;;i++){ size_t j=i&(cap-1); if(!v[j]) return nullptr; if(k[j]==a) return &v[j]; } }
  void put(uintptr_t a,Page*p){ if(2*(n+1)>cap){ size_t oc=cap; auto*ok=k; auto*ov=v; cap=oc?oc*2:4096; k=(uintptr_t*)calloc(cap,8); v=(Page**)calloc(cap,8); n=0; for(size_t i=0;i<oc;i++) if(ov[i]) put(ok[i],ov[i]); free(ok); free(ov); }
    for(size_t i=(a*0x9E3779B97F4A7C15ull)>>20;;i++){ size_t j=i&(cap-1); if(!v[j]){ k[j]=a; v[j]=p; n++; return; } } }
} pages;
static inline Page* pg(uintptr_t a){ if(!pgHint[(a>>12)&65535]) return nullptr; auto*it=pages.find(a>>12); return it?*it:nullptr; }
static void setB(uintptr_t a,int sz,Expr*e){ Page*p=pg(a); if(!p){ if(!e) return; p=(Page*)calloc(1,sizeof(Page)); pages.put(a>>12,p); pgHint[(a>>12)&65535]=1; } p->e[a&4095]=e; p->sz[a&4095]=sz; }
static Expr* getB(uintptr_t a,int&sz){ Page*p=pg(a); if(!p) return nullptr; sz=p->sz[a&4095]; return p->e[a&4095]; }
static inline bool anyPage(uintptr_t a,size_t n){ for(uintptr_t x=a>>12;x<=(a+n-1)>>12;x++) if(pgHint[x&65535]) return true; return false; }
static Expr* toIntRange(Expr*e,int w,bool uns);
static const Poly* asNum(Expr*e);
static bool fits(const Poly*p,const Q&lo,const Q&hi){ Iv iv=ivPoly(p); return iv.lo&&iv.hi&&iv.l>=lo&&iv.h<=hi; }
static Q two(int w){ mpz_class z=1; z<<=w; return Q(z); }
extern "C" {
void* __sx_args[64]; void* __sx_argp[64]; void* __sx_callee; void* __sx_ret[64]; void* __sx_rettag;
void __sx_clear(void*addr,uint64_t n){ uintptr_t a=(uintptr_t)addr; if(n==0) return; 
  uintptr_t lo=a>=7?a-7:0; if(!anyPage(lo,n+7)) return;
  for(uintptr_t x=lo;x<a;x++){ int sz; Expr*e=getB(x,sz); if(e&&x+sz>a){ // partial overwrite of a symbolic cell: split off constant-free remainder is not modelled
      setB(x,0,nullptr); } }
  uintptr_t end=a+n; for(uintptr_t x=a;x<end;){ Page*p=pg(x); uintptr_t nx=std::min(end,((x>>12)+1)<<12); if(p){ memset(&p->e[x&4095],0,(nx-x)*sizeof(Expr*)); } x=nx; } }
void __sx_store(void*addr,uint32_t n,void*s){ __sx_clear(addr,n); if(s) setB((uintptr_t)addr,n,(Expr*)s); }
void* __sx_load(void*addr,uint32_t n){ uintptr_t a=(uintptr_t)addr; if(!anyPage(a>=7?a-7:0,n+7)) return nullptr; int sz=0; Expr*e=getB(a,sz); if(e&&sz==(int)n) return e;
  bool any=false; for(uintptr_t x=a-7;x<a+n;x++){ int z; Expr*q=getB(x,z); if(q&&x+z>a&&x<a+n) any=true; }
  if(!any) return nullptr;
  // narrower load of a wide integer cell
  if(e&&sz>(int)n){ if(e->k==1) return e; if(e->k==0&&e->p->isInt&&fits(e->p,-two(8*n-1),two(8*n-1)-1)) return e; 
    if(e->k==0&&e->p->isInt){ unsupported("narrow load of wide symbolic int"); } unsupported("partial load of symbolic double"); }
  // wider load assembled from narrower cells
  const Poly*acc=pc(0); for(uint32_t i=0;i<n;){ int z=0; Expr*q=getB(a+i,z); if(q){ if(i+z>n) unsupported("straddling load"); if(q->k==2||(q->k==0&&!q->p->isInt)) unsupported("int load of symbolic double"); 
      const Poly*p=asNum(q); Iv iv=ivPoly(p); if(!(iv.lo&&iv.l>=0)){ if(decide(atom(p,LT0),"load")) p=padd(p,pc(two(8*z))); } acc=padd(acc,p,two(8*i)); i+=z; } else { uint8_t b=*(uint8_t*)(a+i); acc=padd(acc,pc(Q((int)b)),two(8*i)); i++; } }
  if(n<=8){ Iv iv=ivPoly(acc); Q top=two(8*n-1); if(!(iv.hi&&iv.h<top)){ if(!decide(atom(psub(acc,pc(top)),LT0),"load")) acc=psub(acc,pc(two(8*n))); } }
  return eNum(acc); }
void __sx_chk(void*addr,uint64_t n,const char*w){ uintptr_t a=(uintptr_t)addr; if(!anyPage(a>=7?a-7:0,n+7)) return; for(uintptr_t x=a-7;x<a+n;x++){ int z; Expr*q=getB(x,z); if(q&&x+z>a) unsupported(string("symbolic data reaches ")+w); } }
void __sx_memcpy(void*d,void*s,uint64_t n){ if(n==0||d==s) return; uintptr_t a=(uintptr_t)s,b=(uintptr_t)d; if(!anyPage(a>=7?a-7:0,n+7)){ __sx_clear(d,n); return; }
  vector<std::pair<uint64_t,std::pair<int,Expr*>>> v; for(uint64_t i=0;i<n;i++){ int z; Expr*e=getB(a+i,z); if(e){ if(i+z>n){ if(e->k!=1&&!(e->k==0&&e->p->isInt)) unsupported("memcpy cuts a symbolic cell"); unsupported("memcpy cuts a symbolic int"); } v.push_back({i,{z,e}}); } }
  __sx_clear(d,n); for(auto&x:v) setB(b+x.first,x.second.first,x.second.second); }
void __sx_memset(void*d,void*s,uint64_t n){ if(s&&n>64) unsupported("symbolic memset"); __sx_clear(d,n); if(s) for(uint64_t i=0;i<n;i++) setB((uintptr_t)d+i,1,(Expr*)s); }
void __sx_byval(void*d,void*src,uint64_t n){ if(src) __sx_memcpy(d,src,n); else __sx_clear(d,n); }
static std::unordered_map<void*,bool> seenFn;
void __sx_enter(void*f){ if(__sx_callee!=f) memset(__sx_args,0,sizeof __sx_args); __sx_callee=nullptr; if(shm&&!seenFn[f]){ seenFn[f]=true; uint64_t h=((uint64_t)f>>4)%16384; for(int i=0;i<200;i++){ uint64_t e=0; uint64_t k=(h+i)%16384; uint64_t c=shm->fns[k]; if(c==(uint64_t)f) break; if(c==0&&shm->fns[k].compare_exchange_strong(e,(uint64_t)f)) break; } } }
void __sx_unsup(void*s,const char*w){ if(s) unsupported(string("unmodelled operation: ")+w); }
void __sx_ret_get(void*callee,uint32_t nslots,const char*name,uint32_t any){
  if(__sx_callee!=nullptr){ // callee was not instrumented
    __sx_callee=nullptr; memset(__sx_ret,0,sizeof __sx_ret); __sx_rettag=nullptr;
    if(any){ static const char*ok[]={"_ZSt24__throw_out_of_range_fmtPKcz","_ZSt20__throw_length_errorPKc","_ZNSt15__exception_ptr",nullptr}; bool sym=false; for(uint32_t i=0;i<nslots&&i<64;i++) if(__sx_args[i]) sym=true; for(int i=0;ok[i];i++) if(!strncmp(name,ok[i],strlen(ok[i]))) sym=false; if(sym&&!ending) unsupported(string("symbolic argument to un-encoded function ")+name); }
    static std::unordered_map<const char*,bool> okTab; auto it=okTab.find(name); if(it==okTab.end()){ static const char*pre[]={"_ZSt29_Rb_tree","_ZSt18_Rb_tree","_ZSt28_Rb_tree","_ZNSt8__detail15_List_node_base","_ZdlPv","_ZdaPv","_Znwm","_Znam","__cxa_","__dynamic_cast","_ZSt9terminate","_ZNSt9exception","_ZNSt13runtime_error","_ZNSt11logic_error","_ZNSt12out_of_range","_ZNSt16invalid_argument","_ZNSt12length_error","_ZNSt14overflow","_ZNSt6localeD","_ZNSt6localeC","_ZNSt6localea","_Unwind_","__gxx_personality","_ZSt17__throw","_ZSt19__throw","_ZSt20__throw","_ZSt24__throw","_ZNSt15__exception_ptr",nullptr}; bool ok=false; for(int i=0;pre[i];i++) if(!strncmp(name,pre[i],strlen(pre[i]))) ok=true; it=okTab.emplace(name,ok).first; }
    if(!it->second&&!ending) for(uint32_t i=0;i<nslots&&i<64;i++){ uintptr_t a=(uintptr_t)__sx_argp[i]; if(a>4096&&anyPage(a,24)){ for(uintptr_t x=a;x<a+24;x++){ int z; if(getB(x,z)) unsupported(string("symbolic memory passed to un-encoded function ")+name); } } }
    return; }
  if(__sx_rettag!=callee) memset(__sx_ret,0,sizeof __sx_ret); __sx_rettag=nullptr; }
}

// ---------------------------------------------------------------- number helpers
static std::unordered_map<uint64_t,Q> dblCache;
static Q PIQ(){ static Q q=[]{ Q r("3141592653589793/1000000000000000"); r.canonicalize(); return r; }(); return q; }
static Q decQ(double d){ uint64_t b; memcpy(&b,&d,8); auto it=dblCache.find(b); if(it!=dblCache.end()) return it->second; Q r;
  if(d==0) r=0; else { bool done=false; double k=d/M_PI*24; double kr=std::round(k); if(std::fabs(kr)>=1&&std::fabs(kr)<=24*16){ double c=M_PI*kr/24; if(std::fabs(c-d)<=2*std::fabs(d)*2.3e-16){ r=PIQ()*Q((long)kr)/24; done=true; } }
    if(!done){ char buf[64]; auto e=std::to_chars(buf,buf+64,d,std::chars_format::scientific); string s(buf,e.ptr); size_t ep=s.find('e'); string m=s.substr(0,ep); int ex=atoi(s.c_str()+ep+1); bool neg=m[0]=='-'; if(neg) m=m.substr(1); size_t dot=m.find('.'); if(dot!=string::npos){ ex-=m.size()-dot-1; m.erase(dot,1);} mpz_class z(m); mpz_class t=1; for(int i=0;i<std::abs(ex);i++) t*=10; r= ex>=0?Q(z*t):Q(z,t); r.canonicalize(); if(neg) r=-r; } }
  dblCache[b]=r; return r; }
static std::unordered_map<const Form*,int> boolVar;
static const Poly* asNum(Expr*e){ if(e->k==0) return e->p; if(e->k==1){ if(e->f->k==FT) return pc(1); if(e->f->k==FF) return pc(0); auto it=boolVar.find(e->f); if(it!=boolVar.end()) return pv(it->second); int v=newVar("b",true); Q z=0,o=1; bound(v,&z,&o); vars[v].defs.push_back(f_or(fand(atom(psub(pv(v),pc(1)),EQ0),e->f),fand(atom(pv(v),EQ0),fnot(e->f)))); boolVar[e->f]=v; return pv(v); } unsupported("NaN/Inf used as number"); return nullptr; }
static const Form* asBool(Expr*e){ if(e->k==1) return e->f; if(e->k==0) return atom(e->p,NE0); unsupported("special as bool"); return nullptr; }
static Expr* ofD(Expr*s,double d){ if(s) return s; if(std::isnan(d)||std::isinf(d)) return eSpec(d); return eNum(pc(decQ(d))); }
static const Poly* ofI(Expr*s,uint64_t v,int w){ if(s) return asNum(s); int64_t x= w>=64?(int64_t)v: (int64_t)(v<<(64-w))>>(64-w); if(w==1) x=v&1; return pc(Q((long)x)); }
static std::unordered_map<const Poly*,const Poly*> floorTab;
static const Poly* pfloor(const Poly*p){ if(p->isInt) return p; if(p->isConst()){ Q c=p->cst(); mpz_class z; mpz_fdiv_q(z.get_mpz_t(),c.get_num().get_mpz_t(),c.get_den().get_mpz_t()); return pc(Q(z)); } auto&r=floorTab[p]; if(!r){ 
    // split off the integral part syntactically
    map<int,Q> ip,rp; for(auto&t:p->t){ bool in=t.second.get_den()==1; for(auto&v:monos[t.first]) if(!vars[v.first].isInt) in=false; (in?ip:rp)[t.first]=t.second; }
    const Poly*rest=mk(rp); const Poly*in=mk(ip); if(rest!=p){ const Poly*x=padd(in,pfloor(rest)); return floorTab[p]=x; }
    int v=newVar("fl",true); Iv iv=ivPoly(p); Q l,h; if(iv.lo){ mpz_class z; mpz_fdiv_q(z.get_mpz_t(),iv.l.get_num().get_mpz_t(),iv.l.get_den().get_mpz_t()); l=Q(z);} if(iv.hi){ mpz_class z; mpz_fdiv_q(z.get_mpz_t(),iv.h.get_num().get_mpz_t(),iv.h.get_den().get_mpz_t()); h=Q(z);} bound(v,iv.lo?&l:nullptr,iv.hi?&h:nullptr);
    vars[v].defs.push_back(atom(psub(pv(v),p),LE0)); vars[v].defs.push_back(atom(psub(psub(p,pv(v)),pc(1)),LT0)); r=pv(v); } return r; }
// exp and log: a strictly increasing bijection between the reals and the positive reals through (0,1); an over-approximation
static vector<std::pair<const Poly*,const Poly*>> expTab;
static void expLink(int v,const Poly*l,const Poly*e){ expTab.insert(expTab.begin(),{pc(0),pc(1)}); for(auto&q:expTab){ const Poly*dl=psub(l,q.first),*de=psub(e,q.second); vars[v].defs.push_back(f_or(fand(atom(dl,LT0),atom(de,LT0)),f_or(fand(atom(dl,EQ0),atom(de,EQ0)),fand(atom(pneg(dl),LT0),atom(pneg(de),LT0))))); } expTab.erase(expTab.begin()); expTab.push_back({l,e}); }
static const Poly* pexp(const Poly*p){ if(p->isConst()&&p->cst()==0) return pc(1); for(auto&q:expTab) if(q.first==p) return q.second; int v=newVar("exp",false); vars[v].defs.push_back(atom(pneg(pv(v)),LT0)); expLink(v,p,pv(v)); return pv(v); }
static const Poly* plog(const Poly*p){ if(p->isConst()&&p->cst()==1) return pc(0); for(auto&q:expTab) if(q.second==p) return q.first; int v=newVar("log",false); expLink(v,pv(v),p); return pv(v); }
static const Poly* pceil(const Poly*p){ return pneg(pfloor(pneg(p))); }
static const Poly* ptrunc(const Poly*p){ if(p->isInt) return p; if(decide(atom(p,LT0),"trunc")) return pceil(p); return pfloor(p); }
static std::unordered_map<const Poly*,int> invTab;
static const Poly* pinv(const Poly*b){ // caller guarantees b != 0 on this path
  if(b->isConst()) return pc(1/b->cst()); Q k=b->t.back().second; const Poly*n=pscale(b,1/k); 
  auto it=invTab.find(n); int v; if(it!=invTab.end()) v=it->second; else { v=newVar("inv",false); invTab[n]=v; Iv iv=ivPoly(n); Q z=0; if(iv.lo&&iv.l>0){ Q h=1/iv.l; if(iv.hi&&iv.h>0) z=1/iv.h; bound(v,&z,&h);} else if(iv.lo&&iv.l>=0) bound(v,&z,nullptr); if(iv.hi&&iv.h<0){ Q l=1/iv.h; bound(v,&l,&z);} else if(iv.hi&&iv.h<=0) bound(v,nullptr,&z); map<int,Q> prod; // definitional: inv*n=1, written without rewriting
    MonoV mv; const Poly*d=nullptr; { map<int,Q> m; for(auto&t:n->t){ MonoV x=monos[t.first]; x.push_back({v,1}); m[mono(x)]+=t.second; } m[0]-=1; d=mk(m); }
    vars[v].defs.push_back(atom(d,EQ0)); vars[v].invOf=n; int lm=-1; for(auto&t:n->t) if(t.first!=0&&t.first>lm) lm=t.first; vars[v].invLM=lm; }
  return pscale(pv(v),1/k); }
static std::unordered_map<const Poly*,const Poly*> sqrtTab;
static bool sqQ(const Q&c,Q&r){ if(c<0) return false; mpz_class a=c.get_num(),b=c.get_den(); if(!mpz_perfect_square_p(a.get_mpz_t())||!mpz_perfect_square_p(b.get_mpz_t())) return false; r=Q(sqrt(a),sqrt(b)); r.canonicalize(); return true; }
static const Poly* pabs(const Poly*p);
static const Poly* psqrt(const Poly*p){ // p>=0 on this path
  Q r; if(p->isConst()&&sqQ(p->cst(),r)) return pc(r);
  if(p->t.size()==1&&sqQ(p->t[0].second,r)){ bool ev=true; MonoV h; for(auto&v:monos[p->t[0].first]){ if(v.second%2) ev=false; h.push_back({v.first,v.second/2}); } if(ev){ map<int,Q> m; m[mono(h)]=r; return pabs(mk(m)); } }
  // perfect square of a linear form a*x+b*y+...: try root from diagonal terms
  { map<int,Q> lin; bool ok=true; for(auto&t:p->t){ MonoV mv=monos[t.first]; if(mv.empty()){ Q q; if(sqQ(t.second,q)) lin[0]=q; else ok=false; } else if(mv.size()==1&&mv[0].second==2){ Q q; if(sqQ(t.second,q)) lin[mono({{mv[0].first,1}})]=q; else ok=false; } }
    if(ok&&lin.size()>=2&&lin.size()<=5){ vector<int> ks; for(auto&x:lin) ks.push_back(x.first); for(int mask=0;mask<(1<<(ks.size()-1));mask++){ map<int,Q> c; for(size_t i=0;i<ks.size();i++) c[ks[i]]= (i>0&&(mask>>(i-1)&1))?Q(-lin[ks[i]]):lin[ks[i]]; const Poly*g=mk(c); if(pmul(g,g)==p) return pabs(g); } } }
  auto&s=sqrtTab[p]; if(s) return s; int v=newVar("sq",false); Q z=0; Iv iv=ivPoly(p); Q h; bool hh=false; if(iv.hi){ h=iv.h<1?Q(1):iv.h; if(iv.h>1){ mpz_class c=iv.h.get_num()/iv.h.get_den()+1; h=Q(mpz_class(sqrt(c)+1)); } hh=true; } Q lo=0; if(iv.lo&&iv.l>0){ mpz_class c=iv.l.get_num()/iv.l.get_den(); lo=Q(mpz_class(sqrt(c))); if(c==0&&iv.l<1) lo=iv.l; } bound(v,&lo,hh?&h:nullptr); (void)z;
  { map<int,Q> m; for(auto&t:p->t) m[t.first]=-t.second; m[mono({{v,2}})]+=1; vars[v].defs.push_back(atom(mk(m),EQ0)); }
  vars[v].sq=p; mmCache.clear(); s=pv(v); return s; }
static std::unordered_map<uint64_t,const Poly*> iteTab;
static const Poly* pite(const Form*c,const Poly*a,const Poly*b){ if(c->k==FT||a==b) return a; if(c->k==FF) return b; uint64_t key=(uint64_t)c->id*1000003ull*1000003ull+(uint64_t)a->id*1000003ull+b->id; auto&r=iteTab[key]; if(r) return r; int v=newVar("ite",a->isInt&&b->isInt); Iv x=ivPoly(a),y=ivPoly(b); if(x.lo&&y.lo){ Q l=x.l<y.l?x.l:y.l; bound(v,&l,nullptr);} if(x.hi&&y.hi){ Q h=x.h>y.h?x.h:y.h; bound(v,nullptr,&h);} vars[v].defs.push_back(f_or(fand(c,atom(psub(pv(v),a),EQ0)),fand(fnot(c),atom(psub(pv(v),b),EQ0)))); r=pv(v); return r; }
static const Poly* pabs(const Poly*p){ Iv iv=ivPoly(p); if(iv.lo&&iv.l>=0) return p; if(iv.hi&&iv.h<=0) return pneg(p); const Form*c=atom(p,LT0); if(gIte){ const Poly*r=pite(c,pneg(p),p); return r; } return decide(c,"abs")?pneg(p):p; }
static int signOf(const Poly*p){ if(p->isConst()){ Q c=p->cst(); return c<0?-1:c>0?1:0; } if(decide(atom(p,LT0),"sign")) return -1; if(decide(atom(p,EQ0),"sign")) return 0; return 1; }
// trigonometry: sin/cos of a polynomial angle, exact modulo the period 2*PIQ
static void constTrig(const Q&c,const Poly*&s,const Poly*&co){ Q k=c*12/PIQ(); // multiples of pi/12
  if(k.get_den()==1){ long n=mpz_class(((k.get_num()%24)+24)%24).get_si(); auto h=[&](long d)->const Poly*{ // sin(d*15deg), d in 0..6
      switch(d){ case 0:return pc(0); case 2:return pc(Q(1,2)); case 3:return pscale(psqrt(pc(2)),Q(1,2)); case 4:return pscale(psqrt(pc(3)),Q(1,2)); case 6:return pc(1); case 1:return pscale(psub(psqrt(pc(6)),psqrt(pc(2))),Q(1,4)); case 5:return pscale(padd(psqrt(pc(6)),psqrt(pc(2))),Q(1,4)); } return nullptr; };
    auto sn=[&](long n)->const Poly*{ n=((n%24)+24)%24; if(n<=6) return h(n); if(n<=12) return h(12-n); if(n<=18) return pneg(h(n-12)); return pneg(h(24-n)); }; s=sn(n); co=sn(n+6); return; }
  static map<string,std::pair<const Poly*,const Poly*>> tab; auto&e=tab[c.get_str()]; if(!e.first){ double d=c.get_d(); int a=newVar("sinc",false),b=newVar("cosc",false); auto bd=[&](int v,double x){ Q l=decQ(x)-Q(1,1000000000000),h=decQ(x)+Q(1,1000000000000); bound(v,&l,&h); }; bd(a,::sin(d)); bd(b,::cos(d)); const Form*u; { map<int,Q> m; m[mono({{a,2}})]=1; m[mono({{b,2}})]=1; m[0]=-1; u=atom(mk(m),EQ0);} vars[a].defs.push_back(u); vars[b].defs.push_back(u); vars[a].sq=psub(pc(1),pmul(pv(b),pv(b))); mmCache.clear(); e={pv(a),pv(b)}; } s=e.first; co=e.second; }
static map<std::pair<int,string>,std::pair<const Poly*,const Poly*>> trigAtom; // (mono, 1/den)
static void quadrant(int host,const Poly*th,const Poly*s,const Poly*c){ // lemmas linking angle value and sin/cos, valid for |th|<=2pi
  Iv iv=ivPoly(th); if(!(iv.lo&&iv.hi&&iv.l>=-2*PIQ()&&iv.h<=2*PIQ())) return; Q h=PIQ()/2; auto&D=vars[host].defs;
  auto in=[&](Q a,Q b,const Form*f){ if(iv.h<=a*1&&a!=b) {} D.push_back(f_or(f_or(atom(psub(th,pc(a)),LE0),atom(psub(pc(b),th),LE0)),f)); };
  for(int k=-4;k<4;k++){ Q a=h*k,b=h*(k+1); if(iv.h<a||iv.l>b) continue; int q=((k%4)+4)%4; const Form*sp=atom(pneg(s),LT0),*sn=atom(s,LT0),*cp=atom(pneg(c),LT0),*cn=atom(c,LT0); in(a,b,fand(q<2?sp:sn,(q==0||q==3)?cp:cn)); }
  for(int k=-4;k<=4;k++){ Q a=h*k; if(iv.h<a||iv.l>a) continue; int q=((k%4)+4)%4; const Poly*sv=pc(q==1?1:q==3?-1:0),*cv=pc(q==0?1:q==2?-1:0); D.push_back(f_or(atom(psub(th,pc(a)),NE0),fand(atom(psub(s,sv),EQ0),atom(psub(c,cv),EQ0)))); } }
static std::pair<const Poly*,const Poly*> atomTrig(int m,const Q&unit){ // sin/cos of unit*mono
  MonoV mv=monos[m]; if(unit==1&&mv.size()==1&&mv[0].second==1&&vars[mv[0].first].sinP) return {vars[mv[0].first].sinP,vars[mv[0].first].cosP};
  auto&e=trigAtom[{m,unit.get_str()}]; if(e.first) return e; int a=newVar("sin",false),b=newVar("cos",false); Q l=-1,h=1; bound(a,&l,&h); bound(b,&l,&h); const Form*u; { map<int,Q> x; x[mono({{a,2}})]=1; x[mono({{b,2}})]=1; x[0]=-1; u=atom(mk(x),EQ0);} vars[a].defs.push_back(u); vars[b].defs.push_back(u); vars[a].sq=psub(pc(1),pmul(pv(b),pv(b))); mmCache.clear(); e={pv(a),pv(b)}; map<int,Q> x; x[m]=unit; const Poly*th=mk(x); quadrant(a,th,pv(a),pv(b)); for(auto*d:vars[a].defs) if(d!=u) vars[b].defs.push_back(d);
  // half-angle link with the full angle if that exists
  { auto it=trigAtom.find({m,Q(2*unit).get_str()}); std::pair<const Poly*,const Poly*> f{nullptr,nullptr}; if(it!=trigAtom.end()) f=it->second; else if(unit==Q(1,2)&&mv.size()==1&&mv[0].second==1&&vars[mv[0].first].sinP) f={vars[mv[0].first].sinP,vars[mv[0].first].cosP}; if(f.first){ auto*d1=atom(psub(f.first,pscale(pmul(pv(a),pv(b)),2)),EQ0); auto*d2=atom(psub(f.second,psub(pscale(pmul(pv(b),pv(b)),2),pc(1))),EQ0); vars[a].defs.push_back(d1); vars[a].defs.push_back(d2); vars[b].defs.push_back(d1); vars[b].defs.push_back(d2);} }
  return e; }
static void ptrig(const Poly*p,const Poly*&S,const Poly*&C){ S=pc(0); C=pc(1); auto addA=[&](const Poly*s,const Poly*c){ const Poly*ns=padd(pmul(S,c),pmul(C,s)),*nc=psub(pmul(C,c),pmul(S,s)); S=ns; C=nc; };
  for(auto&t:p->t){ if(t.first==0){ const Poly*s,*c; constTrig(t.second,s,c); addA(s,c); continue; }
    bool allInt=true; for(auto&v:monos[t.first]) if(!vars[v.first].isInt) allInt=false;
    if(allInt){ Q k=t.second/(2*PIQ()); if(k.get_den()==1) continue; Q k2=t.second/PIQ(); if(k2.get_den()==1){ // odd multiple of pi times an integer: split on parity
          map<int,Q> m; m[t.first]=Q(1,2); const Poly*hf=mk(m); const Poly*fl=pfloor(hf); if(!decide(atom(psub(hf,fl),EQ0),"parity")){ S=pneg(S); C=pneg(C);} continue; } }
    Q den=Q(1,t.second.get_den()); mpz_class n=t.second.get_num(); if(abs(n)>6){ den=t.second; n=1; }
    auto a=atomTrig(t.first,den); long k=std::labs(n.get_si()); const Poly*s=n<0?pneg(a.first):a.first; for(long i=0;i<k;i++) addA(s,a.second); } }
static map<std::pair<int,int>,const Poly*> atan2Tab;
static int angleVar(const char*nm,const Q&lo,const Q&hi){ int v=newVar(nm,false); bound(v,&lo,&hi); return v; }
static vector<int> angVars;
static const Poly* patan2(const Poly*y,const Poly*x){
  int sy=signOf(y), sx=signOf(x); Q P=PIQ(),h=P/2;
  if(sy==0) return sx>=0?pc(0):pc(P); if(sx==0) return sy>0?pc(h):pc(-h);
  // positive common factors do not matter: normalise by the leading coefficient of x
  Q k=abs(x->t.back().second); const Poly*xn=pscale(x,1/k),*yn=pscale(y,1/k);
  auto&e=atan2Tab[{yn->id,xn->id}]; if(e) return e;
  const Poly*r2=padd(pmul(xn,xn),pmul(yn,yn)); const Poly*r=psqrt(r2); vector<const Form*> extra; const Form*pos=atom(pneg(r),LT0); 
  const Poly*ir=pinv(r); Q lo=sy>0?(sx>0?Q(0):h):(sx>0?Q(-h):Q(-P)); Q hi=lo+h; int v=angleVar("at",lo,hi); auto&D=vars[v].defs; D.push_back(pos); D.push_back(atom(psub(pc(lo),pv(v)),LT0)); D.push_back(atom(psub(pv(v),pc(hi)),LT0)); 
  vars[v].sinP=pmul(yn,ir); vars[v].cosP=pmul(xn,ir); angVars.push_back(v); e=pv(v); return e; }
static const Form* pairLemmas(const set<int>&vs){ vector<const Form*> o; vector<int> a; for(int v:vs) if(vars[v].sinP&&vars[v].hasLo&&vars[v].hasHi) a.push_back(v); Q P=PIQ(); if(a.size()>6) return fT();
  for(size_t i=0;i<a.size();i++) for(size_t j=i+1;j<a.size();j++){ Var&x=vars[a[i]],&y=vars[a[j]]; const Poly*s=psub(pmul(x.sinP,y.cosP),pmul(x.cosP,y.sinP)); const Poly*c=padd(pmul(x.cosP,y.cosP),pmul(x.sinP,y.sinP)); const Poly*d=psub(pv(a[i]),pv(a[j])); bool okv=true; { set<int> q; polyVars(s,q); polyVars(c,q); for(int v:q) if(!vs.count(v)) okv=false; } if(!okv&&gPair<2) continue; Iv iv=ivPoly(d); if(!(iv.lo&&iv.hi)) continue;
    auto pos=[&](const Poly*p){return atom(pneg(p),LT0);}; auto neg=[&](const Poly*p){return atom(p,LT0);};
    auto gt=[&](Q k){return atom(psub(pc(k),d),LT0);}; auto lt=[&](Q k){return atom(psub(d,pc(k)),LT0);}; auto eq=[&](Q k){return atom(psub(d,pc(k)),EQ0);};
    for(int k=-4;k<4;k++){ Q lo=P*k/2,hi=P*(k+1)/2; if(iv.h<=lo||iv.l>=hi) continue; int q=((k%4)+4)%4; o.push_back(f_or(f_or(fnot(gt(lo)),fnot(lt(hi))),fand(q<2?pos(s):neg(s),(q==0||q==3)?pos(c):neg(c)))); }
    for(int k=-4;k<=4;k++){ Q m=P*k/2; if(iv.h<m||iv.l>m) continue; int q=((k%4)+4)%4; o.push_back(f_or(fnot(eq(m)),fand(atom(psub(s,pc(q==1?1:q==3?-1:0)),EQ0),atom(psub(c,pc(q==0?1:q==2?-1:0)),EQ0)))); } }
  return o.empty()?fT():fnary(FAND,o); }
static map<std::pair<int,int>,const Poly*> fmodTab;
static const Poly* pfmod(const Poly*x,const Poly*m){ // m>0 constant expected
  const Poly*am=m; if(!m->isConst()) unsupported("fmod by symbolic modulus"); Q mq=abs(m->cst()); am=pc(mq);
  Iv iv=ivPoly(x); if(iv.lo&&iv.hi&&iv.l> -mq&&iv.h<mq) return x;
  const Poly*q=pscale(x,1/mq); const Poly*k=ptrunc(q); return psub(x,pmul(am,k)); }
static const Poly* pround(const Poly*p){ if(p->isInt) return p; if(decide(atom(p,LT0),"round")) return pneg(pfloor(padd(pneg(p),pc(Q(1,2))))); return pfloor(padd(p,pc(Q(1,2)))); }

// ---------------------------------------------------------------- instrumented operations
static const Poly* capPoly(const Poly*p){ if(p->t.size()<=400) return p; static std::unordered_map<const Poly*,const Poly*> tab; auto&r=tab[p]; if(!r){ int v=newVar("let",p->isInt); vars[v].defs.push_back(atom(psub(pv(v),p),EQ0)); Iv iv=ivPoly(p); if(iv.lo) bound(v,&iv.l,nullptr); if(iv.hi) bound(v,nullptr,&iv.h); r=pv(v);} return r; }
static const Poly* wrap(const Poly*p,int w,bool nsw){ Q lo=-two(w-1),hi=two(w-1)-1; if(w==1){ lo=0; hi=1; } if(fits(p,lo,hi)) return p; 
  for(int i=0;i<3;i++){ bool big=decide(atom(psub(pc(hi),p),LT0),"wrap"); if(big){ p=psub(p,pc(two(w))); if(i==2) unsupported("integer wrap"); continue; } bool sm=decide(atom(psub(p,pc(lo)),LT0),"wrap"); if(sm){ p=padd(p,pc(two(w))); if(i==2) unsupported("integer wrap"); continue; } break; } return p; }
static const Poly* uns(const Poly*p,int w){ Iv iv=ivPoly(p); if(iv.lo&&iv.l>=0) return p; if(decide(atom(p,LT0),"unsigned")) return padd(p,pc(two(w))); return p; }
static void ubViolation(const char*msg){ auto*ms=msgStat(msg); ms->reached++; violation(fT(),{},msg); leave(); }
extern "C" uint64_t __sx_conc(void*s,uint64_t v,uint32_t w,const char*where);
static void* bitConc(uint32_t op,uint32_t w,const Poly*x,const Poly*y){ // bit operation without a polynomial form: case split on the operands
  auto val=[&](const Poly*p)->uint64_t{ return __sx_conc(eNum(p),0,w,"bit operation"); };
  uint64_t m=w>=64?~0ull:((1ull<<w)-1),a=val(x)&m,b=val(y)&m,r=0; int64_t sa=w>=64?(int64_t)a:(int64_t)(a<<(64-w))>>(64-w);
  switch(op){ case 8:r=b<w?a<<b:0;break; case 9:r=b<w?a>>b:0;break; case 10:r=b<w?(uint64_t)(sa>>b):0;break; case 11:r=a&b;break; case 12:r=a|b;break; default:r=a^b; }
  r&=m; int64_t sr=w>=64?(int64_t)r:(int64_t)(r<<(64-w))>>(64-w); if(w==1) sr=r; return eNum(pc(Q((long)sr))); }
extern "C" {
void* __sx_bin(uint32_t op,uint32_t w,uint32_t fl,void*sa,uint64_t a,void*sb,uint64_t b){
  Expr*ea=(Expr*)sa,*eb=(Expr*)sb; if(!ea&&!eb) return nullptr;
  if((ea&&ea->k==2)||(eb&&eb->k==2)) unsupported("integer op on NaN/Inf");
  if(op>=11&&op<=13){ // boolean structure
    auto bl=[&](Expr*e,uint64_t v,bool&ok)->const Form*{ if(e){ if(e->k==1) return e->f; if(e->k==0&&w==1) return asBool(e); ok=false; return nullptr; } if(w==1) return (v&1)?fT():fF(); if(v==0) return fF(); if(v==1) return fT(); ok=false; return nullptr; };
    bool ok=true; const Form*fa=bl(ea,a,ok),*fb=bl(eb,b,ok); if(ok){ if(op==11) return eBool(fand(fa,fb)); if(op==12) return eBool(f_or(fa,fb)); return eBool(f_or(fand(fa,fnot(fb)),fand(fnot(fa),fb))); } }
  if(w==1&&(op==1||op==2)){ const Form*fa=ea?asBool(ea):(a&1?fT():fF()),*fb=eb?asBool(eb):(b&1?fT():fF()); return eBool(f_or(fand(fa,fnot(fb)),fand(fnot(fa),fb))); }
  if((ea&&ea->k==0&&!ea->p->isInt&&!ea->p->isConst())||(eb&&eb->k==0&&!eb->p->isInt&&!eb->p->isConst())){
    // sign-bit tricks on doubles held in integers
    if(op==13&&w==64&&ea&&!eb&&b==0x8000000000000000ull) return eNum(pneg(ea->p));
    if(op==11&&w==64&&ea&&!eb&&b==0x7fffffffffffffffull) return eNum(pabs(ea->p));
    unsupported("integer op on bits of a symbolic double"); }
  const Poly*x=ofI(ea,a,w),*y=ofI(eb,b,w); const Poly*r=nullptr;
  switch(op){
    case 1:r=padd(x,y);break; case 2:r=psub(x,y);break; case 3:r=pmul(x,y);break;
    case 4: case 6: x=uns(x,w); y=uns(y,w); // fallthrough
    case 5: case 7: { if(decide(atom(y,EQ0),"div")) ubViolation("integer division by zero");
      if(x->isConst()&&y->isConst()){ mpz_class q; mpz_tdiv_q(q.get_mpz_t(),x->cst().get_num().get_mpz_t(),y->cst().get_num().get_mpz_t()); const Poly*pq=pc(Q(q)); r=(op==4||op==5)?pq:psub(x,pmul(pq,y)); break; }
      static map<std::pair<int,int>,int> dtab; auto it=dtab.find({x->id,y->id}); int v; if(it!=dtab.end()) v=it->second; else { v=newVar("q",true); dtab[{x->id,y->id}]=v; Iv ix=ivPoly(x); Q z=0; bool xn=ix.lo&&ix.l>=0; if(xn){ Iv iy=ivPoly(y); if(iy.lo&&iy.l>=0){ bound(v,&z,ix.hi?&ix.h:nullptr);} }
        const Poly*rem=psub(x,pmul(pv(v),y)); auto D=[&](const Form*f){ vars[v].defs.push_back(f); };
        // |rem|<|y|, sign(rem)=sign(x)
        const Form*xpos=atom(pneg(x),LE0); const Form*ypos=atom(pneg(y),LT0);
        auto lt=[&](const Poly*p,const Poly*q){return atom(psub(p,q),LT0);};
        D(f_or(fnot(xpos),fand(atom(pneg(rem),LE0),f_or(fand(ypos,lt(rem,y)),fand(fnot(ypos),lt(rem,pneg(y)))))));
        D(f_or(xpos,fand(atom(rem,LE0),f_or(fand(ypos,lt(pneg(rem),y)),fand(fnot(ypos),lt(pneg(rem),pneg(y)))))));
      }
      r=(op==4||op==5)?pv(v):psub(x,pmul(pv(v),y)); 
      if(!(op==4||op==5)){ // give the remainder a bounded name of its own
        Iv iy=ivPoly(y); static std::unordered_map<const Poly*,int> rt; auto i2=rt.find(r); if(i2==rt.end()){ int m=newVar("r",true); vars[m].defs.push_back(atom(psub(pv(m),r),EQ0)); Iv ix=ivPoly(x); if(iy.hi&&iy.lo&&iy.l>0){ Q h=iy.h-1,l=-h; if(ix.lo&&ix.l>=0) l=0; bound(m,&l,&h);} rt[r]=m; r=pv(m);} else r=pv(i2->second); }
      break; }
    case 8: if(y->isConst()){ r=pmul(x,pc(two((int)y->cst().get_d()))); break; } return bitConc(op,w,x,y);
    case 9: x=uns(x,w); // fallthrough
    case 10: if(y->isConst()){ r=pfloor(pscale(x,1/two((int)y->cst().get_d()))); break; } return bitConc(op,w,x,y);
    case 11: { const Poly*m=y->isConst()?y:x->isConst()?x:nullptr; const Poly*o=m==y?x:y; if(!m) return bitConc(op,w,x,y); Q c=m->cst(); if(c==-1) return eNum(o); if(c==0) return eNum(pc(0)); Q c1=c+1; mpz_class n=c1.get_num(); if(c>0&&mpz_popcount(n.get_mpz_t())==1){ r=psub(o,pmul(pc(c1),pfloor(pscale(o,1/c1)))); 
          static std::unordered_map<const Poly*,int> mt; auto i2=mt.find(r); if(r->isConst()) break; if(fits(o,0,c)){ r=o; break; } if(i2==mt.end()){ int mm=newVar("m",true); vars[mm].defs.push_back(atom(psub(pv(mm),r),EQ0)); Q z=0; bound(mm,&z,&c); mt[r]=mm; r=pv(mm);} else r=pv(i2->second); break; }
        if(c<0){ Q nc=-c; mpz_class z=nc.get_num(); if(mpz_popcount(z.get_mpz_t())==1){ r=pmul(pc(nc),pfloor(pscale(o,1/nc))); break; } }
        return bitConc(op,w,x,y); }
    case 12: { if(y->isConst()&&y->cst()==0) return eNum(x); if(x->isConst()&&x->cst()==0) return eNum(y); return bitConc(op,w,x,y); }
    case 13: { if(y->isConst()&&y->cst()==-1){ r=psub(pneg(x),pc(1)); break; } if(y->isConst()&&y->cst()==0) return eNum(x); if(y->isConst()&&y->cst()==1&&fits(x,0,1)){ r=psub(pc(1),x); break; } return bitConc(op,w,x,y); }
    default: unsupported("int op"); }
  return eNum(wrap(capPoly(r),w,fl&1)); }
void* __sx_icmp(uint32_t pred,uint32_t w,void*sa,uint64_t a,void*sb,uint64_t b){
  Expr*ea=(Expr*)sa,*eb=(Expr*)sb; if(!ea&&!eb) return nullptr;
  auto one=[&](Expr*e,uint64_t v)->Expr*{ if(pred==32||pred==33){ const Form*f=nullptr; if(e->k==1){ if(v==0) f=fnot(e->f); else if(v==1) f=e->f; else f=fF(); } if(f) return eBool(pred==32?f:fnot(f)); } return nullptr; };
  if(ea&&!eb){ if(auto*r=one(ea,b)) return r; } if(eb&&!ea){ if(auto*r=one(eb,a)) return r; }
  if(ea&&eb&&ea->k==1&&eb->k==1&&(pred==32||pred==33)){ const Form*x=f_or(fand(ea->f,fnot(eb->f)),fand(fnot(ea->f),eb->f)); return eBool(pred==33?x:fnot(x)); }
  if((ea&&ea->k==2)||(eb&&eb->k==2)) unsupported("icmp on NaN/Inf bits");
  if((ea&&ea->k==0&&!ea->p->isInt&&!ea->p->isConst())||(eb&&eb->k==0&&!eb->p->isInt&&!eb->p->isConst())){
    // e.g. sign test on double bits: x < 0
    if(w==64&&ea&&!eb&&((pred==40&&b==0)||(pred==38&&b==~0ull))){ const Form*f=atom(ea->p,LT0); return eBool(pred==40?f:fnot(f)); }
    unsupported("icmp on bits of a symbolic double"); }
  const Poly*x=ofI(ea,a,w),*y=ofI(eb,b,w);
  if(pred>=34&&pred<=37){ if(w==1){} else { x=uns(x,w); y=uns(y,w);} }
  else if(pred>=38&&w==1){ x=pneg(x); y=pneg(y); }
  const Poly*d=psub(x,y); const Form*f=nullptr; switch(pred){ case 32:f=atom(d,EQ0);break; case 33:f=atom(d,NE0);break; case 34: case 38:f=atom(pneg(d),LT0);break; case 35: case 39:f=atom(pneg(d),LE0);break; case 36: case 40:f=atom(d,LT0);break; case 37: case 41:f=atom(d,LE0);break; default:unsupported("icmp pred"); }
  return eBool(f); }
void* __sx_fcmp(uint32_t pred,void*sa,double a,void*sb,double b){ Expr*ea=(Expr*)sa,*eb=(Expr*)sb; if(!ea&&!eb) return nullptr; ea=ofD(ea,a); eb=ofD(eb,b);
  if(pred==0) return eBool(fF()); if(pred==15) return eBool(fT());
  if(ea->k==2||eb->k==2){ double x=ea->k==2?ea->d:0,y=eb->k==2?eb->d:0; bool un=std::isnan(x)||std::isnan(y); bool r=false; if(un) r=pred&8; else r=((pred&1)&&x==y)||((pred&2)&&x>y)||((pred&4)&&x<y); return eBool(r?fT():fF()); }
  const Poly*d=psub(asNum(ea),asNum(eb)); const Form*f; switch(pred&7){ case 1:f=atom(d,EQ0);break; case 2:f=atom(pneg(d),LT0);break; case 3:f=atom(pneg(d),LE0);break; case 4:f=atom(d,LT0);break; case 5:f=atom(d,LE0);break; case 6:f=atom(d,NE0);break; case 7:f=fT();break; default:f=fF(); } return eBool(f); }
void* __sx_fbin(uint32_t op,void*sa,double a,void*sb,double b){ Expr*ea=(Expr*)sa,*eb=(Expr*)sb; if(!ea&&!eb) return nullptr; ea=ofD(ea,a); eb=ofD(eb,b);
  if(ea->k==2||eb->k==2){ auto rep=[&](Expr*e)->double{ if(e->k==2) return e->d; if(op==3||op==5) return signOf(asNum(e)); return 1.0; }; 
    if((ea->k==2&&std::isnan(ea->d))||(eb->k==2&&std::isnan(eb->d))) return eSpec(NAN);
    double x=rep(ea),y=rep(eb),r=0; if(op==2&&ea->k!=2) {} switch(op){ case 1:r=x+y;break; case 2:r=x-y;break; case 3:r=x*y;break; case 5:r=x/y;break; case 7: if(ea->k!=2) return ea; r=NAN; break; default: unsupported("fp op on special"); } if(std::isnan(r)||std::isinf(r)) return eSpec(r); return eNum(pc(decQ(r))); }
  const Poly*x=asNum(ea),*y=asNum(eb);
  switch(op){ case 1:return eNum(capPoly(padd(x,y))); case 2:return eNum(capPoly(psub(x,y))); case 3:return eNum(capPoly(pmul(x,y)));
    case 5:{ if(y->isConst()&&y->cst()!=0) return eNum(pscale(x,1/y->cst())); if(decide(atom(y,EQ0),"fdiv by zero")){ int s=signOf(x); return eSpec(s==0?NAN:s>0?INFINITY:-INFINITY); } return eNum(capPoly(pmul(x,pinv(y)))); }
    case 7: return eNum(pfmod(x,y)); default: unsupported("fp op"); } return nullptr; }
bool __sx_branch(void*s,bool c,const char*where){ if(!s) return c; return decide(asBool((Expr*)s),where); }
bool __sx_selcond(void*s,bool c,uint32_t mergeable,const char*where){ if(!s) return c; const Form*f=asBool((Expr*)s); if(f->k==FT) return true; if(f->k==FF) return false; if(mergeable==2||(mergeable==1&&gIte)) return c; return decide(f,where); }
void* __sx_selsh(void*s,bool d,void*st,uint64_t t,void*sf,uint64_t f,uint32_t kind,uint32_t w){ if(!s) return d?st:sf; const Form*c=asBool((Expr*)s); bool merge=!(c->k==FT||c->k==FF)&&((kind==0&&w==1)||gIte); if(!merge) return d?st:sf;
  Expr*a=(Expr*)st,*b=(Expr*)sf; if(kind==0&&w==1){ const Form*fa=a?asBool(a):((t&1)?fT():fF()),*fb=b?asBool(b):((f&1)?fT():fF()); return eBool(f_or(fand(c,fa),fand(fnot(c),fb))); }
  if(kind==0){ if(a&&a->k==0&&!a->p->isInt) {} return eNum(pite(c,ofI(a,t,w),ofI(b,f,w))); }
  double x,y; memcpy(&x,&t,8); memcpy(&y,&f,8); a=ofD(a,x); b=ofD(b,y); if(a->k==2||b->k==2){ if(a==b) return a; unsupported("merge of NaN/Inf"); } return eNum(pite(c,asNum(a),asNum(b))); }
// narrowing to float: one branch keeps the value (as if it were representable), another takes values of a
// size that floats cannot hold and rounds them the way the machine does
static int nNarrow=0;
static Expr* input(const char*n,const Q&lo,const Q&hi,int kind);
static Expr* narrow(Expr*e){ if(e->k!=0||e->p->isInt||nNarrow>=2) return e;
  static const struct{double lo,ulp;} bin[]={{1048576,0.125},{1024,1.0/8192},{64,1.0/131072}};
  for(auto&b:bin){ Q lo(b.lo),hi(2*b.lo),ulp(b.ulp); const Poly*h=psub(pscale(e->p,Q(1)/ulp),pc(Q(2,5)));
    const Form*g=f_or(f_and(atom(psub(pc(lo),e->p),LE0),atom(psub(e->p,pc(hi)),LT0)),f_and(atom(padd(pc(lo),e->p),LE0),atom(pneg(padd(e->p,pc(hi))),LT0)));
    if(satWith(g)!=SAT) continue; g=f_and(g,atom(psub(h,pfloor(h)),EQ0)); if(satWith(g)!=SAT) continue;
    nNarrow++; Expr*c=input("rounded to float",Q(0),Q(1),1); if(decide(atom(psub(c->p,pc(1)),EQ0),"float",true)){ pcAdd(g); return eNum(psub(e->p,pc(Q(2,5)*ulp))); } break; }
  return e; }
void* __sx_cast(uint32_t op,void*s,uint32_t fw,uint32_t tw){ Expr*e=(Expr*)s; if(!e) return nullptr;
  switch(op){
    case 1: if(e->k==1) return e; if(e->k==2) unsupported("trunc of special"); if(tw==1){ const Poly*p=e->p; if(fits(p,0,1)) return eBool(atom(p,NE0)); const Poly*h=pscale(p,Q(1,2)); return eBool(atom(psub(h,pfloor(h)),NE0)); } if(!e->p->isInt) unsupported("trunc of double bits"); return eNum(wrap(e->p,tw,false));
    case 2: if(e->k==1) return e; if(e->k==2) unsupported("zext of special"); return eNum(uns(e->p,fw));
    case 3: if(e->k==1){ if(fw==1) return eNum(pneg(asNum(e))); return e; } return e;
    case 4: case 5: { if(e->k==2) unsupported("NaN/Inf converted to integer (undefined behaviour)"); if(e->k==1) return e; const Poly*p=ptrunc(e->p); Q lo=op==4?Q(0):Q(-two(tw-1)),hi=op==4?Q(two(tw)-1):Q(two(tw-1)-1); if(!fits(p,lo,hi)){ if(decide(f_or(atom(psub(p,pc(lo)),LT0),atom(psub(pc(hi),p),LT0)),"fptoint range")) unsupported("out-of-range double converted to integer (undefined behaviour)"); } if(op==4&&!fits(p,0,two(tw-1)-1)) return eNum(wrap(p,tw,false)); return eNum(p); }
    case 6: if(e->k==1) return eNum(asNum(e)); return eNum(uns(e->p,fw));
    case 7: if(e->k==1) return eNum(fw==1?pneg(asNum(e)):asNum(e)); return e;
    case 8: return narrow(e); case 9: return e;
    case 10: return e; }
  unsupported("cast"); return nullptr; }
uint64_t __sx_conc(void*s,uint64_t v,uint32_t w,const char*where){ Expr*e=(Expr*)s; if(!e) return v; if(e->k==1) return decide(e->f,where); if(e->k==2) unsupported("conc special"); const Poly*p=e->p; shm->conc++;
  for(int guard=0;guard<4096;guard++){ if(p->isConst()) return (uint64_t)mpz_class(p->cst().get_num()).get_si(); 
    if(!p->isInt) unsupported("concretising bits of a double");
    // pick a value: interval lower bound first when small, else ask the solver for one
    Iv iv=ivPoly(p); if(iv.lo&&iv.hi&&iv.h-iv.l<64){ for(Q x=iv.l;x<=iv.h;x+=1){ if(x==iv.h||decide(atom(psub(p,pc(x)),EQ0),where)) { if(x==iv.h){ /* last one: must hold */ const Form*f=atom(psub(p,pc(x)),EQ0); if(satWith(f)==UNSAT){ shm->infeasible++; leave(); } pcAdd(f);} return (uint64_t)mpz_class(x.get_num()).get_si(); } } }
    vector<const Form*> fs; set<int> vs; const Form*self=atom(psub(p,p),EQ0); int t=newVar("pick",true); const Form*def=atom(psub(pv(t),p),EQ0); (void)self; closure({def},false,fs,vs); string resp; int r=ask(buildQuery(fs,vs,nullptr),"(get-value (v"+std::to_string(t)+"))\n",resp,true); if(r==UNSAT){ shm->infeasible++; leave(); } if(r!=SAT) unsupported("cannot enumerate symbolic integer"); size_t i=resp.find("(("); i=resp.find(' ',i); double d; if(!parseNum(resp,i,d)) unsupported("model parse"); Q x((long)std::llround(d)); if(decide(atom(psub(p,pc(x)),EQ0),where)) return (uint64_t)std::llround(d); }
  unsupported("too many values to concretise"); return 0; }
uint64_t __sx_safediv(void*s,uint64_t d){ return s?1:d; }
void* __sx_intr(const char*name,uint32_t w,void*s0,uint64_t a0,void*s1,uint64_t a1,void*s2,uint64_t a2){
  string n=name; auto is=[&](const char*p){ return n.compare(0,strlen(p),p)==0; }; auto D=[](uint64_t u){ double d; memcpy(&d,&u,8); return d; };
  Expr*e0=(Expr*)s0,*e1=(Expr*)s1,*e2=(Expr*)s2; if(!e0&&!e1&&!e2) return nullptr;
  if(is("llvm.fabs")){ if(e0->k==2) return eSpec(std::fabs(e0->d)); return eNum(pabs(asNum(e0))); }
  if(is("llvm.sqrt")){ if(e0->k==2) return eSpec(std::sqrt(e0->d)); const Poly*p=asNum(e0); if(decide(atom(p,LT0),"sqrt")) return eSpec(NAN); return eNum(psqrt(p)); }
  if(is("llvm.floor")||is("llvm.ceil")||is("llvm.trunc")||is("llvm.round")){ if(e0->k==2) return e0; const Poly*p=asNum(e0); return eNum(is("llvm.floor")?pfloor(p):is("llvm.ceil")?pceil(p):is("llvm.trunc")?ptrunc(p):pround(p)); }
  if(is("llvm.fmuladd")||is("llvm.fma")){ void*m=__sx_fbin(3,s0,D(a0),s1,D(a1)); return __sx_fbin(1,m?m:(void*)eNum(pc(decQ(D(a0)*D(a1)))),0,s2,D(a2)); }
  if(is("llvm.minnum")||is("llvm.maxnum")||is("llvm.minimum")||is("llvm.maximum")){ bool mn=is("llvm.min"); e0=ofD(e0,D(a0)); e1=ofD(e1,D(a1)); if(e0->k==2&&std::isnan(e0->d)) return e1; if(e1->k==2&&std::isnan(e1->d)) return e0; if(e0->k==2||e1->k==2){ if(e0->k==2) return (e0->d<0)==mn?e0:e1; return (e1->d<0)==mn?e1:e0; } const Form*c=atom(psub(asNum(e0),asNum(e1)),LT0); if(gIte) return eNum(mn?pite(c,asNum(e0),asNum(e1)):pite(c,asNum(e1),asNum(e0))); return decide(c,"minmax")==mn?e0:e1; }
  if(is("llvm.smin")||is("llvm.smax")||is("llvm.umin")||is("llvm.umax")){ const Poly*x=ofI(e0,a0,w),*y=ofI(e1,a1,w); if(n[5]=='u'){ const Poly*ux=uns(x,w),*uy=uns(y,w); bool lt=decide(atom(psub(ux,uy),LT0),"umin"); return eNum((n[6]=='m'&&n[7]=='i')==lt?x:y); } bool mn=n[7]=='i'; const Form*c=atom(psub(x,y),LT0); if(gIte) return eNum(mn?pite(c,x,y):pite(c,y,x)); return eNum(decide(c,"smin")==mn?x:y); }
  if(is("llvm.abs")) { const Poly*x=ofI(e0,a0,w); return eNum(pabs(x)); }
  if(is("llvm.copysign")){ e0=ofD(e0,D(a0)); e1=ofD(e1,D(a1)); if(e0->k==2) unsupported("copysign"); bool ng= e1->k==2? std::signbit(e1->d): decide(atom(asNum(e1),LT0),"copysign"); const Poly*m=pabs(asNum(e0)); return eNum(ng?pneg(m):m); }
  if(is("llvm.is.fpclass")){ uint32_t mask=a1; e0=ofD(e0,D(a0)); bool nan=e0->k==2&&std::isnan(e0->d),inf=e0->k==2&&!nan; if(nan) return eBool((mask&3)?fT():fF()); if(inf) return eBool((mask&(e0->d<0?4:512))?fT():fF()); uint32_t fin=mask&0x1f8; if(fin==0) return eBool(fF()); if(fin==0x1f8) return eBool(fT()); unsupported("is.fpclass"); }
  if(is("llvm.sadd.with")||is("llvm.uadd.with")) return __sx_bin(1,w,3,s0,a0,s1,a1);
  if(is("llvm.ssub.with")||is("llvm.usub.with")) return __sx_bin(2,w,3,s0,a0,s1,a1);
  if(is("llvm.smul.with")||is("llvm.umul.with")) return __sx_bin(3,w,3,s0,a0,s1,a1);
  if(is("llvm.usub.sat")){ const Poly*x=uns(ofI(e0,a0,w),w),*y=uns(ofI(e1,a1,w),w); if(decide(atom(psub(x,y),LT0),"usubsat")) return eNum(pc(0)); return eNum(psub(x,y)); }
  if(is("llvm.sin.")||is("llvm.cos.")){ if(e0->k==2) return eSpec(NAN); const Poly*s,*c; ptrig(asNum(e0),s,c); return eNum(is("llvm.sin.")?s:c); }
  if(is("llvm.fshl")){ if(s0==s1&&a0==a1){} }
  unsupported(string("unmodelled intrinsic ")+name); return nullptr; }

// ---------------------------------------------------------------- modelled library functions
static Expr* argsh(int i){ return (Expr*)__sx_args[i]; }
[[noreturn]] static void stuck();
struct Proto { bool inst; Expr*a[8]; Proto(void*f,int n=4){ if(ticks==1) stuck(); inst=__sx_callee==f; for(int i=0;i<8;i++) a[i]=(inst&&i<n)?(Expr*)__sx_args[i]:nullptr; __sx_callee=nullptr; __sx_rettag=nullptr; __sx_ret[0]=nullptr; } void ret(Expr*e,void*f){ memset(__sx_ret,0,sizeof __sx_ret); __sx_ret[0]=e; __sx_rettag=f; } };
// sine and cosine of a known multiple of pi/6 whose value is rational: exact, like the angle itself
static double cTrig(double x,bool cosine,double r){ if(std::isnan(x)||std::isinf(x)) return r; Q k=decQ(x)*6/PIQ(); if(k.get_den()!=1) return r; long m=((mpz_class(k.get_num()%12).get_si()+12)+(cosine?3:0))%12; static const double T[]={0,0.5,2,1,2,0.5,0,-0.5,2,-1,2,-0.5}; return T[m]==2?r:T[m]; }
static double cM_sin(double x){ return cTrig(x,false,::sin(x)); } static double cM_cos(double x){ return cTrig(x,true,::cos(x)); }
static double cM_tan(double x){ return ::tan(x); } static double cM_sqrt(double x){ return ::sqrt(x); } static double cM_fabs(double x){ return ::fabs(x); } static double cM_floor(double x){ return ::floor(x); } static double cM_ceil(double x){ return ::ceil(x); } static double cM_trunc(double x){ return ::trunc(x); } static double cM_round(double x){ return ::round(x); } static double cM_atan(double x){ return ::atan(x); } static double cM_acos(double x){ return ::acos(x); } static double cM_asin(double x){ return ::asin(x); } static double cM_exp(double x){ return ::exp(x); } static double cM_log(double x){ return ::log(x); } static double cM_rint(double x){ return ::rint(x); } static double cM_nearbyint(double x){ return ::nearbyint(x); }
#define M1(NAME,...) double sxm_##NAME(double x){ Proto P((void*)sxm_##NAME,1); if(!P.a[0]) return cM_##NAME(x); Expr*e=P.a[0]; Expr*r=nullptr; if(e->k==2){ r=ofD(nullptr,::NAME(e->d)); } else { const Poly*p=asNum(e); __VA_ARGS__ } P.ret(r,(void*)sxm_##NAME); return 0.5; }
M1(sin,{ const Poly*s,*c; ptrig(p,s,c); r=eNum(s);})
M1(cos,{ const Poly*s,*c; ptrig(p,s,c); r=eNum(c);})
M1(tan,{ const Poly*s,*c; ptrig(p,s,c); r=(Expr*)__sx_fbin(5,eNum(s),0,eNum(c),0);})
M1(sqrt,{ if(decide(atom(p,LT0),"sqrt")) r=eSpec(NAN); else r=eNum(psqrt(p)); })
M1(fabs,{ r=eNum(pabs(p)); })
M1(floor,{ r=eNum(pfloor(p)); })
M1(ceil,{ r=eNum(pceil(p)); })
M1(trunc,{ r=eNum(ptrunc(p)); })
M1(round,{ r=eNum(pround(p)); })
M1(atan,{ r=eNum(patan2(p,pc(1))); })
static Expr* acosE(const Poly*p,bool isAsin){ if(decide(f_or(atom(psub(pc(1),p),LT0),atom(padd(p,pc(1)),LT0)),"acos")) return eSpec(NAN); if(p->isConst()){ Q c=p->cst(); if(c==0) return eNum(isAsin?pc(0):pc(PIQ()/2)); if(c==1) return eNum(isAsin?pc(PIQ()/2):pc(0)); if(c==-1) return eNum(isAsin?pc(-PIQ()/2):pc(PIQ())); }
  static map<std::pair<int,bool>,const Poly*> tab; auto&e=tab[{p->id,isAsin}]; if(e) return eNum(e); const Poly*o=psqrt(psub(pc(1),pmul(p,p))); Q P=PIQ(),h=P/2,z=0,mh=-h; int v=angleVar("ac",isAsin?mh:z,isAsin?h:P); const Poly*sp=isAsin?p:o,*cp=isAsin?o:p; vars[v].sinP=sp; vars[v].cosP=cp; quadrant(v,pv(v),sp,cp); angVars.push_back(v); e=pv(v); return eNum(e); }
M1(acos,{ r=acosE(p,false); })
M1(asin,{ r=acosE(p,true); })
M1(exp,{ r=eNum(pexp(p)); })
M1(log,{ if(decide(atom(p,LE0),"log")) r=eSpec(NAN); else r=eNum(plog(p)); })
#define M2(NAME,...) double sxm_##NAME(double x,double y){ Proto P((void*)sxm_##NAME,2); if(!P.a[0]&&!P.a[1]) return ::NAME(x,y); Expr*a=ofD(P.a[0],x),*b=ofD(P.a[1],y); Expr*r=nullptr; __VA_ARGS__ P.ret(r,(void*)sxm_##NAME); return 0.5; }
M2(atan2,{ if(a->k==2||b->k==2) unsupported("atan2 special"); r=eNum(patan2(asNum(a),asNum(b))); })
M2(fmod,{ if(a->k==2){ r=eSpec(NAN);} else r=eNum(pfmod(asNum(a),asNum(b))); })
M2(hypot,{ const Poly*p=padd(pmul(asNum(a),asNum(a)),pmul(asNum(b),asNum(b))); r=eNum(psqrt(p)); })
M2(fmin,{ r=(Expr*)__sx_intr("llvm.minnum",64,a,0,b,0,nullptr,0); })
M2(fmax,{ r=(Expr*)__sx_intr("llvm.maxnum",64,a,0,b,0,nullptr,0); })
M2(copysign,{ r=(Expr*)__sx_intr("llvm.copysign",64,a,0,b,0,nullptr,0); })
M2(pow,{ if(a->k==2||b->k==2) unsupported("pow special"); if(b->p&&b->p->isConst()){ Q c=b->p->cst(); if(c.get_den()==1&&c>=0&&c<=8){ const Poly*q=pc(1); for(int i=0;i<c.get_d();i++) q=pmul(q,asNum(a)); r=eNum(q); } else if(c==Q(1,2)) r=(Expr*)__sx_intr("llvm.sqrt",64,a,0,nullptr,0,nullptr,0); else unsupported("pow"); } else unsupported("pow"); })
M2(remainder,{ unsupported("remainder"); })
void sxm_sincos(double x,double*s,double*c){ Proto P((void*)sxm_sincos,1); if(!P.a[0]){ *s=cM_sin(x); *c=cM_cos(x); __sx_clear(s,8); __sx_clear(c,8); return; } const Poly*ps,*pcx; ptrig(asNum(P.a[0]),ps,pcx); __sx_store(s,8,eNum(ps)); __sx_store(c,8,eNum(pcx)); }
double sxm_rint(double x){ Proto P((void*)sxm_rint,1); if(P.a[0]) unsupported("rint"); return ::rint(x); }
double sxm_nearbyint(double x){ Proto P((void*)sxm_nearbyint,1); if(P.a[0]) unsupported("nearbyint"); return ::nearbyint(x); }
long sxm_lround(double x){ Proto P((void*)sxm_lround,1); if(!P.a[0]) return ::lround(x); P.ret(eNum(pround(asNum(P.a[0]))),(void*)sxm_lround); return 0; }
long long sxm_llround(double x){ Proto P((void*)sxm_llround,1); if(!P.a[0]) return ::llround(x); P.ret(eNum(pround(asNum(P.a[0]))),(void*)sxm_llround); return 0; }
void* sxm_malloc(size_t n){ Expr*s=__sx_callee==(void*)sxm_malloc?argsh(0):nullptr; __sx_callee=nullptr; if(s) n=__sx_conc(s,n,64,"malloc"); void*p=::malloc(n); if(p) __sx_clear(p,n); __sx_rettag=nullptr; return p; }
void sxm_free(void*p){ __sx_callee=nullptr; __sx_rettag=nullptr; if(p){ __sx_clear(p,malloc_usable_size(p)); ::free(p);} }
void* sxm_calloc(size_t a,size_t b){ if(__sx_callee==(void*)sxm_calloc&&(argsh(0)||argsh(1))) unsupported("calloc"); __sx_callee=nullptr; __sx_rettag=nullptr; void*p=::calloc(a,b); if(p) __sx_clear(p,a*b); return p; }
void* sxm_realloc(void*o,size_t n){ if(__sx_callee==(void*)sxm_realloc&&argsh(1)) unsupported("realloc"); __sx_callee=nullptr; __sx_rettag=nullptr; void*p=::malloc(n); if(o&&p){ size_t m=std::min(n,malloc_usable_size(o)); memcpy(p,o,m); __sx_memcpy(p,o,m); __sx_clear(o,malloc_usable_size(o)); ::free(o);} return p; }
void* sxm_memcpy(void*d,const void*s,size_t n){ Expr*e=__sx_callee==(void*)sxm_memcpy?argsh(2):nullptr; __sx_callee=nullptr; __sx_rettag=nullptr; if(e) n=__sx_conc(e,n,64,"memcpy"); memcpy(d,s,n); __sx_memcpy(d,(void*)s,n); return d; }
void* sxm_memmove(void*d,const void*s,size_t n){ Expr*e=__sx_callee==(void*)sxm_memmove?argsh(2):nullptr; __sx_callee=nullptr; __sx_rettag=nullptr; if(e) n=__sx_conc(e,n,64,"memmove"); memmove(d,s,n); __sx_memcpy(d,(void*)s,n); return d; }
void* sxm_memset(void*d,int c,size_t n){ bool in=__sx_callee==(void*)sxm_memset; Expr*v=in?argsh(1):nullptr,*e=in?argsh(2):nullptr; __sx_callee=nullptr; __sx_rettag=nullptr; if(e) n=__sx_conc(e,n,64,"memset"); memset(d,c,n); __sx_memset(d,v,n); return d; }
static void onTick(int);
[[noreturn]] static void crashed(const char*why){ if(ending) _exit(0); signal(SIGVTALRM,SIG_IGN); ending=false; string m=string("crash: ")+why; auto*ms=msgStat(m.c_str()); ms->reached++; violation(fT(),{},m.c_str()); leave(); }
void sxm_abort(){ crashed("abort() called"); }
void sxm_exit(int){ crashed("exit() called"); }
}
void* operator new(size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void*p)noexcept{ if(p){ __sx_clear(p,malloc_usable_size(p)); free(p);} }
void operator delete[](void*p)noexcept{ operator delete(p); }
void operator delete(void*p,size_t)noexcept{ operator delete(p); }
void operator delete[](void*p,size_t)noexcept{ operator delete(p); }
namespace std { void __glibcxx_assert_fail(const char*f,int l,const char*fn,const char*c)noexcept{ string b=f?f:""; size_t s=b.rfind('/'); if(s!=string::npos) b=b.substr(s+1); crashed((string("library precondition violated (out-of-range access): ")+(c?c:"?")+" in "+b).c_str()); } }
static void stuck(){ crashed("does not finish"); }
static void onTick(int){ if(ending) return; if(++ticks>=2){ signal(SIGALRM,SIG_DFL); alarm(30); crashed("does not finish"); } }
static void onSig(int s){ if(getenv("SX_BT")){ void*bt[30]; int k=backtrace(bt,30); int fd=open("/tmp/sxbt.txt",O_CREAT|O_APPEND|O_WRONLY,0644); dprintf(fd,"signal %d\n",s); backtrace_symbols_fd(bt,k,fd); close(fd); } if(s==SIGSEGV||s==SIGBUS||s==SIGFPE||s==SIGABRT||s==SIGILL){ signal(s,SIG_DFL); crashed(s==SIGSEGV||s==SIGBUS?"memory fault (signal)":s==SIGFPE?"arithmetic fault (signal)":"abort (signal)"); } }

// ---------------------------------------------------------------- harness API
extern "C" {
static string inName(const char*n){ int k=inCnt[n]++; string s=n; if(k) s+="#"+std::to_string(k); return s; }
static Expr* input(const char*n,const Q&lo,const Q&hi,int kind){ int v=newVar(n,kind!=0); vars[v].input=true; bound(v,&lo,&hi); inputs.push_back({inName(n),kind,v,0}); return eNum(pv(v)); }
double sx_double(const char*n,double lo,double hi){ Proto P((void*)sx_double,0); P.ret(input(n,decQ(lo),decQ(hi),0),(void*)sx_double); return (lo+hi)/2; }
double sx_fresh(const char*n,double lo,double hi){ Proto P((void*)sx_fresh,0); P.ret(input(n,decQ(lo),decQ(hi),0),(void*)sx_fresh); return (lo+hi)/2; }
double sx_angle(const char*n,double lo,double hi){ Proto P((void*)sx_angle,0); Expr*e=input(n,decQ(lo),decQ(hi),0); int v=monos[e->p->t[0].first][0].first; angVars.push_back(v); auto a=atomTrig(e->p->t[0].first,1); vars[v].sinP=a.first; vars[v].cosP=a.second; P.ret(e,(void*)sx_angle); return (lo+hi)/2; }
long sx_int(const char*n,long lo,long hi){ Proto P((void*)sx_int,0); if(lo==hi){ inputs.push_back({inName(n),1,-1,(double)lo}); return lo; } P.ret(input(n,Q(lo),Q(hi),1),(void*)sx_int); return lo; }
long sx_choose(const char*n,long lo,long hi){ Proto P((void*)sx_choose,0); if(lo==hi){ inputs.push_back({inName(n),1,-1,(double)lo}); return lo; } Expr*e=input(n,Q(lo),Q(hi),1); long v=lo; int vid=monos[e->p->t[0].first][0].first; (void)vid; 
  for(;v<hi;v++) if(decide(atom(psub(e->p,pc(Q(v))),EQ0),n,true)) break; if(v==hi) pcAdd(atom(psub(e->p,pc(Q(hi))),EQ0)); return v; }
bool sx_bool(const char*n){ Proto P((void*)sx_bool,0); Expr*e=input(n,Q(0),Q(1),2); P.ret(eBool(atom(psub(e->p,pc(1)),EQ0)),(void*)sx_bool); return false; }
void sx_assume(bool c){ Proto P((void*)sx_assume,1); if(!P.a[0]){ if(!c){ shm->assumed++; leave(); } return; } const Form*f=asBool(P.a[0]); if(f->k==FT) return; int r=satWith(f,false); if(r==UNSAT){ shm->assumed++; leave(); } if(r==UNK) PC.sure=false; pcAdd(f); }
void sx_assert(bool c,const char*msg){ Proto P((void*)sx_assert,1); if(!P.a[0]){ if(c){ auto*m=msgStat(msg); m->reached++; m->norm++; } else { auto*m=msgStat(msg); m->reached++; violation(fT(),{},msg); leave(); } return; } checkAssert(asBool(P.a[0]),msg); }
static void feq(Expr*a,Expr*b,const char*msg,bool le){ auto*m=msgStat(msg); if(a->k==2||b->k==2){ m->reached++; bool ok=a->k==2&&b->k==2&&!std::isnan(a->d)&&a->d==b->d; if(le&&!std::isnan(a->d)&&!std::isnan(b->d)) ok=(a->k==2&&a->d<0)||(b->k==2&&b->d>0); if(ok) m->norm++; else { violation(fT(),{},msg); leave(); } return; }
  const Poly*d=psub(asNum(a),asNum(b)); vector<const Form*> mg; for(Q q:{Q(1),Q(1,10),Q(1,1000),Q(1,100000)}){ const Form*up=atom(psub(pc(q),d),LT0); mg.push_back(le?up:f_or(up,atom(padd(d,pc(q)),LT0))); } checkAssert(atom(d,le?LE0:EQ0),msg,mg); }
void sx_assert_eq(double a,double b,const char*msg){ Proto P((void*)sx_assert_eq,2); feq(ofD(P.a[0],a),ofD(P.a[1],b),msg,false); }
void sx_assert_le(double a,double b,const char*msg){ Proto P((void*)sx_assert_le,2); if(!P.a[0]&&!P.a[1]&&a<=b+1e-9){ auto*m=msgStat(msg); m->reached++; m->norm++; return; } feq(ofD(P.a[0],a),ofD(P.a[1],b),msg,true); }
void sx_assert_angle_eq(double a,double b,const char*msg){ Proto P((void*)sx_assert_angle_eq,2); Expr*x=ofD(P.a[0],a),*y=ofD(P.a[1],b); if(x->k==2||y->k==2){ auto*m=msgStat(msg); m->reached++; violation(fT(),{},msg); leave(); } const Poly*s,*c; ptrig(psub(asNum(x),asNum(y)),s,c); const Form*ok=fand(atom(s,EQ0),atom(psub(c,pc(1)),EQ0)); checkAssert(ok,msg,{atom(psub(c,pc(Q(9,10))),LT0),atom(psub(c,pc(Q(99999,100000))),LT0)}); }
void sx_reach(const char*t){ __sx_callee=nullptr; __sx_rettag=nullptr; int n=shm->ntag; for(int i=0;i<n;i++) if(!strncmp(shm->tags[i],t,79)){ shm->tagc[i]++; return; } lock(); n=shm->ntag; for(int i=0;i<n;i++) if(!strncmp(shm->tags[i],t,79)){ shm->tagc[i]++; unlock(); return; } if(n<64){ strncpy(shm->tags[n],t,79); shm->tagc[n]++; shm->ntag=n+1; } unlock(); }
void sx_fail(const char*msg){ __sx_callee=nullptr; auto*m=msgStat(msg); m->reached++; violation(fT(),{},msg); leave(); }
void sx_option(const char*n,long v){ __sx_callee=nullptr; __sx_rettag=nullptr; if(!strcmp(n,"ite")) gIte=v; else if(!strcmp(n,"timeout_ms")) gTimeout=v; else if(!strcmp(n,"pairlemmas")) gPair=v; }
void sx_unmodelled(const char*w){ unsupported(string("unmodelled library call: ")+(w?w:"")); }
void sx_ignore_path(const char*){ shm->ignored++; leave(); }
bool sx_thorough(){ __sx_callee=nullptr; const char*t=getenv("SX_TIER"); return t&&t[0]=='t'; }
bool sx_is_replay(){ __sx_callee=nullptr; __sx_rettag=nullptr; return false; }
double sx_tol(double){ __sx_callee=nullptr; __sx_rettag=nullptr; return 0; }
bool sx_symbolic(double v){ Proto P((void*)sx_symbolic,1); return P.a[0]!=nullptr; }
long sx_conc(long v){ Proto P((void*)sx_conc,1); if(!P.a[0]) return v; return (long)__sx_conc(P.a[0],v,64,"sx_conc"); }
double sx_ufun(const char*name,int nargs,double a,double b){ Proto P((void*)sx_ufun,4); const Poly*x=asNum(ofD(P.a[2],a)),*y=nargs>1?asNum(ofD(P.a[3],b)):pc(0); static map<string,vector<std::pair<std::pair<const Poly*,const Poly*>,int>>> tab; auto&T=tab[name]; for(auto&e:T) if(e.first.first==x&&e.first.second==y){ P.ret(eNum(pv(e.second)),(void*)sx_ufun); return 0; }
  // semantically equal arguments must give equal results: decide equality with earlier applications
  for(auto&e:T){ if(decide(fand(atom(psub(e.first.first,x),EQ0),atom(psub(e.first.second,y),EQ0)),"ufun")){ P.ret(eNum(pv(e.second)),(void*)sx_ufun); return 0; } }
  Expr*r=input(name,Q(-1000),Q(1000),0); int v=monos[r->p->t[0].first][0].first; T.push_back({{x,y},v}); P.ret(r,(void*)sx_ufun); return 0; }
}
static map<string,sx_fn>&regs(){ static map<string,sx_fn> r; return r; }
SxReg::SxReg(const char*n,sx_fn f){ regs()[n]=f; __sx_callee=nullptr; }

static string jesc(const string&s){ string o; for(char c:s){ if(c=='"'||c=='\\') o+='\\'; if(c=='\n') o+="\\n"; else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }
int main(int argc,char**argv){
  if(argc<2){ for(auto&r:regs()) printf("%s\n",r.first.c_str()); return 0; }
  string h=argv[1]; double budget=argc>2?atof(argv[2]):300; if(argc>3) outDir=argv[3]; int cores=argc>4?atoi(argv[4]):8; if(argc>5) gMaxWitness=atol(argv[5]);
  if(!regs().count(h)){ fprintf(stderr,"no harness %s\n",h.c_str()); return 2; }
  if(getenv("SX_Z3")) z3bin=getenv("SX_Z3"); if(getenv("SX_QLOG")) qlog=fopen(getenv("SX_QLOG"),"a");
  signal(SIGPIPE,SIG_IGN);
  shm=(Shm*)mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)shm,0,sizeof(Shm)); sem_init(&shm->sem,1,cores-1); gT0=now(); shm->deadline=gT0+budget;
  mono({});
  fflush(stdout); pid_t p=fork();
  if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); stack_t ss; ss.ss_sp=malloc(1<<18); ss.ss_size=1<<18; ss.ss_flags=0; sigaltstack(&ss,nullptr); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onSig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGABRT,SIGILL}) sigaction(s,&sa,nullptr);
    { struct sigaction st; memset(&st,0,sizeof st); st.sa_handler=onTick; st.sa_flags=SA_ONSTACK|SA_NODEFER|SA_RESTART; sigaction(SIGVTALRM,&st,nullptr); const char*t=getenv("SX_TIER"); if(t&&t[0]=='t') gHang=60; arm(); }
    const char*ex=nullptr; static string exs;
    try{ __sx_callee=(void*)regs()[h]; memset(__sx_args,0,sizeof __sx_args); regs()[h](); } catch(const std::exception&e){ int st; char*d=abi::__cxa_demangle(typeid(e).name(),0,0,&st); exs=string("uncaught exception ")+(d?d:"?"); ex=exs.c_str(); } catch(...){ ex="uncaught exception (non-std)"; }
    if(ex){ crashed(ex); }
    shm->paths++; long w=shm->witness; 
    if(w<gMaxWitness){ char fn[600]; snprintf(fn,sizeof fn,"%s/wit_%d_%ld.in",outDir.c_str(),getpid(),(long)(now()*1e6)%1000000000); if(getModel(fT(),fn,"path witness",false)) shm->witness++; }
    leave(); }
  int st; waitpid(p,&st,0); bool bad=WIFSIGNALED(st)||WEXITSTATUS(st)!=0; if(bad) shm->crash++;
  // report
  FILE*o=fopen((outDir+"/result.json").c_str(),"w"); if(!o) return 2;
  fprintf(o,"{\"harness\":\"%s\",\"paths\":%ld,\"forks\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"fallback\":%ld,\"cache_hits\":%ld,\"solver_s\":%.3f,\"infeasible\":%ld,\"assumed_away\":%ld,\"unsupported\":%ld,\"timeouts\":%ld,\"engine_crashes\":%ld,\"ignored\":%ld,\"violations\":%ld,\"undecided\":%ld,\"witnesses\":%ld,\"wall_s\":%.3f,",h.c_str(),(long)shm->paths,(long)shm->forks,(long)shm->queries,(long)shm->qsat,(long)shm->qunsat,(long)shm->qunk,(long)shm->qfallback,(long)shm->qcache,shm->solverNs/1e9,(long)shm->infeasible,(long)shm->assumed,(long)shm->unsup,(long)shm->timeouts,(long)shm->crash,(long)shm->ignored,(long)shm->violations,(long)shm->undec,(long)shm->witness,now()-gT0);
  fprintf(o,"\"asserts\":["); for(int i=0;i<shm->nmsg;i++){ auto&m=shm->m[i]; fprintf(o,"%s{\"msg\":\"%s\",\"reached\":%ld,\"by_normalisation\":%ld,\"by_solver\":%ld,\"violated\":%ld,\"undecided\":%ld}",i?",":"",jesc(m.msg).c_str(),(long)m.reached,(long)m.norm,(long)m.solver,(long)m.viol,(long)m.undec); } fprintf(o,"],\"reach\":{"); for(int i=0;i<shm->ntag;i++) fprintf(o,"%s\"%s\":%ld",i?",":"",jesc(shm->tags[i]).c_str(),(long)shm->tagc[i]); fprintf(o,"},\"unsupported_reasons\":["); for(int i=0;i<shm->nunsup&&i<32;i++) fprintf(o,"%s\"%s\"",i?",":"",jesc(shm->unsupMsg[i]).c_str());
  fprintf(o,"],\"functions\":["); set<string> fn; std::map<uint64_t,string> sym; { char self[600]; ssize_t k=readlink("/proc/self/exe",self,599); self[k>0?k:0]=0; FILE*q=popen((string("nm ")+self).c_str(),"r"); char l[4096]; while(q&&fgets(l,sizeof l,q)){ char*e; uint64_t a=strtoull(l,&e,16); if(e==l||strlen(e)<4) continue; string n=e+3; if(!n.empty()&&n.back()=='\n') n.pop_back(); sym[a]=n; } if(q) pclose(q); }
  for(auto&f:shm->fns){ uint64_t a=f; if(!a) continue; auto it=sym.find(a); if(it!=sym.end()){ int s; char*d=abi::__cxa_demangle(it->second.c_str(),0,0,&s); string n=d?d:it->second; free(d); if(n.find("f2c::")==0||n.find(" f2c::")!=string::npos) { if(n.find("std::")==0) continue; fn.insert(n);} } } bool first=true; for(auto&n:fn){ fprintf(o,"%s\"%s\"",first?"":",",jesc(n).c_str()); first=false; } fprintf(o,"]}\n"); fclose(o);
  return 0; }
