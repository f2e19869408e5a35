// symx runtime: shadow expressions, shadow memory, path exploration, Z3 queries.
// Built as a shared library with hidden visibility so that none of its C++
// template instantiations mix with the instrumented ones.
#include <dlfcn.h>
#include <z3.h>
#include <execinfo.h>
#include <locale>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

#define API extern "C" __attribute__((visibility("default")))
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef unsigned __int128 u128;

// ------------------------------------------------------------------ options
static bool optTrace=false; static bool optUninit=false, optVerbose=false, optThorough=false;
static int optJobs=8; static double optTime=600; static long optMaxPaths=2000000; static int optPathSecs=120;
static int optMaxViol=8;

struct E; static std::string show(E*e,int d=5);
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static inline u64 maskw(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline i64 sx64(u64 v, unsigned w){ return w>=64?(i64)v:(i64)(v<<(64-w))>>(64-w); }

// ------------------------------------------------------------------ expressions
enum Op : u8 { CONST, VAR, ADD,SUB,MUL,UDIV,SDIV,UREM,SREM,AND,OR,XOR,SHL,LSHR,ASHR, ZEXT,SEXT,EXTRACT,CONCAT,ITE, EQ,ULT,ULE,SLT,SLE,NOT,
  FADD,FSUB,FMUL,FDIV,FREM,FNEG,FABS,FSQRT,FROUND, FEQ,FLT,FLE,FUNO, FPTOSI,FPTOUI,SITOFP,UITOFP,FPEXT,FPTRUNC, UF, BITOFP_PLACEHOLDER };
struct E;
struct Poly;
struct IV { E* e; i64 lo,hi; int sc; Poly* p=nullptr; IV(E*e_,i64 l,i64 h,int s,Poly*p_=nullptr):e(e_),lo(l),hi(h),sc(s),p(p_){} };   // value == e * 2^-sc exactly, e signed in [lo,hi]; p: the same integer as a polynomial over views
struct BS { std::vector<u64> w; };
struct E { Op op; u8 w; bool uninit, fp, uf; u32 id; u64 ver; E *a,*b,*c; u64 k; u64 cv; u64 lo,hi; i64 slo,shi; IV* iv; BS* sup; Z3_ast z, zf; };
static u32 nextId=1;

struct EHash { size_t operator()(const E*e) const { u64 h=e->op*0x9E3779B97F4A7C15ull+e->w; h=(h^(u64)e->a)*0xff51afd7ed558ccdull; h^=h>>32; h=(h^(u64)e->b)*0xc4ceb9fe1a85ec53ull; h^=h>>29; h=(h^(u64)e->c)*0xff51afd7ed558ccdull; h^=h>>31; h=(h^e->k)*0xc4ceb9fe1a85ec53ull; h^=h>>33; return h; } };
struct EEq { bool operator()(const E*x,const E*y) const { return x->op==y->op&&x->w==y->w&&x->a==y->a&&x->b==y->b&&x->c==y->c&&x->k==y->k; } };
typedef std::unordered_map<E*,E*,EHash,EEq> ETab; // key==value
static ETab* etab;

static std::map<std::vector<u64>,BS*>* bstab;
static BS* bsMake(std::vector<u64> v){ while(!v.empty()&&!v.back()) v.pop_back(); auto it=bstab->find(v); if(it!=bstab->end()) return it->second; BS*b=new BS{v}; (*bstab)[v]=b; return b; }
static BS* bsEmpty; 
static BS* bsUnion(BS*a,BS*b){ if(a==b||b->w.empty()) return a; if(a->w.empty()) return b; std::vector<u64> v=a->w; if(v.size()<b->w.size()) v.resize(b->w.size()); for(size_t i=0;i<b->w.size();++i) v[i]|=b->w[i]; if(v==a->w) return a; if(v==b->w) return b; return bsMake(v); }
static bool bsIntersects(const std::vector<u64>&a,const std::vector<u64>&b){ size_t n=std::min(a.size(),b.size()); for(size_t i=0;i<n;++i) if(a[i]&b[i]) return true; return false; }

static double asD(u64 v){ double d; memcpy(&d,&v,8); return d; }
static float asF(u64 v){ u32 x=v; float f; memcpy(&f,&x,4); return f; }
static u64 ofD(double d){ u64 v; memcpy(&v,&d,8); return v; }
static u64 ofF(float f){ u32 v; memcpy(&v,&f,4); return v; }
static double fpv(u64 v,unsigned w){ return w==64?asD(v):(double)asF(v); }
static u64 fpb(double d,unsigned w){ return w==64?ofD(d):ofF((float)d); }

static std::vector<std::string>* ufNames;
static double libm(const std::string& n,double a,double b,bool f32){
#define L1(x) if(n==#x) return ::x(a); if(n==#x "f") return ::x##f((float)a);
#define L2(x) if(n==#x) return ::x(a,b); if(n==#x "f") return ::x##f((float)a,(float)b);
  L1(sin)L1(cos)L1(tan)L1(asin)L1(acos)L1(atan)L1(exp)L1(log)L1(log10)L1(log2)L1(cbrt)L1(sinh)L1(cosh)L1(tanh) L2(atan2)L2(pow)L2(fmod)L2(hypot)
  (void)f32; abort();
}
static double frnd(double x,int m){ switch(m){case 0:return floor(x);case 1:return ceil(x);case 2:return trunc(x);case 3:return nearbyint(x);default:return round(x);} }

static u64 evalOp(Op op,unsigned w,u64 k,const E*ea,const E*eb,const E*ec,u64 a,u64 b,u64 c){
  unsigned aw=ea?ea->w:0; u64 m=maskw(w);
  switch(op){
    case ADD:return (a+b)&m; case SUB:return (a-b)&m; case MUL:return (a*b)&m;
    case UDIV:return b? (a/b)&m : m; case UREM:return b?(a%b)&m:a;
    case SDIV:{ i64 x=sx64(a,w),y=sx64(b,w); if(!y) return x<0?1:m; if(y==-1) return (u64)(0-(u64)x)&m; return (u64)(x/y)&m; }
    case SREM:{ i64 x=sx64(a,w),y=sx64(b,w); if(!y) return a; if(y==-1) return 0; return (u64)(x%y)&m; }
    case AND:return a&b; case OR:return a|b; case XOR:return a^b;
    case SHL:return b>=w?0:(a<<b)&m; case LSHR:return b>=w?0:(a>>b); case ASHR:{ i64 x=sx64(a,w); return (u64)(x>>(b>=w?w-1:b))&m; }
    case ZEXT:return a; case SEXT:return (u64)sx64(a,aw)&m; case EXTRACT:return (a>>k)&m; case CONCAT:return ((a<<eb->w)|b)&m;
    case ITE:return a?b:c; case EQ:return a==b; case ULT:return a<b; case ULE:return a<=b; case SLT:return sx64(a,aw)<sx64(b,aw); case SLE:return sx64(a,aw)<=sx64(b,aw); case NOT:return !a;
    case FADD: return w==64?ofD(asD(a)+asD(b)):ofF(asF(a)+asF(b)); case FSUB: return w==64?ofD(asD(a)-asD(b)):ofF(asF(a)-asF(b));
    case FMUL: return w==64?ofD(asD(a)*asD(b)):ofF(asF(a)*asF(b)); case FDIV: return w==64?ofD(asD(a)/asD(b)):ofF(asF(a)/asF(b));
    case FREM: return w==64?ofD(fmod(asD(a),asD(b))):ofF(fmodf(asF(a),asF(b)));
    case FNEG: return a^(1ull<<(w-1)); case FABS: return a&~(1ull<<(w-1)); case FSQRT: return w==64?ofD(sqrt(asD(a))):ofF(sqrtf(asF(a)));
    case FROUND: return fpb(frnd(fpv(a,w),k),w);
    case FEQ: return fpv(a,aw)==fpv(b,aw); case FLT: return fpv(a,aw)<fpv(b,aw); case FLE: return fpv(a,aw)<=fpv(b,aw); case FUNO: { double x=fpv(a,aw),y=fpv(b,aw); return x!=x||y!=y; }
    case FPTOSI: { double d=fpv(a,aw); if(!(d>-9.3e18&&d<9.3e18)) return (w==64?0x8000000000000000ull:w==32?0x80000000u:0)&m; if(w<=32){ if(d>2147483647.0||d<=-2147483649.0) return w==32?0x80000000u:(u64)(i64)d&m; } return (u64)(i64)d&m; }
    case FPTOUI: { double d=fpv(a,aw); if(!(d>-1&&d<1.85e19)) return 0; return (u64)d&m; }
    case SITOFP: { i64 x=sx64(a,aw); return w==64?ofD((double)x):ofF((float)x); }
    case UITOFP: return w==64?ofD((double)a):ofF((float)a);
    case FPEXT: return ofD((double)asF(a)); case FPTRUNC: return ofF((float)asD(a));
    case UF: { double r=libm((*ufNames)[k],fpv(a,aw),b||eb?fpv(b,aw):0,w==32); return fpb(r,w); }
    default: abort();
  }
}

static bool srange(E*e,i64&lo,i64&hi);
static u64 rangeVer=1;
static void selfFail(const char*what,E*e);
static void crossRange(E*e){ u64 m=maskw(e->w),H=m>>1; u64 lo=e->lo,hi=e->hi; i64 sl=e->slo,sh=e->shi;
  if(hi<=H){ sl=std::max(sl,(i64)lo); sh=std::min(sh,(i64)hi); } else if(lo>H){ sl=std::max(sl,sx64(lo,e->w)); sh=std::min(sh,sx64(hi,e->w)); }
  if(sl>sh) return; if(sl>=0){ lo=std::max(lo,(u64)sl); hi=std::min(hi,(u64)sh); } else if(sh<0){ lo=std::max(lo,(u64)sl&m); hi=std::min(hi,(u64)sh&m); }
  if(lo>hi) return; e->lo=lo;e->hi=hi;e->slo=sl;e->shi=sh; }
static void calcRange(E*e){ Op op=e->op; unsigned w=e->w; E*a=e->a,*b=e->b,*c=e->c; u64 k=e->k; u64 plo=e->lo,phi=e->hi; (void)k;(void)c;
    u64 m=maskw(w); u64 nlo=0,nhi=m;
    switch(op){
      case ADD: { u128 l=(u128)a->lo+b->lo,h=(u128)a->hi+b->hi; if(h<=m){ nlo=l;nhi=h; } else if(l>m&&h<=(u128)m*2+1){ nlo=(u64)(l&m); nhi=(u64)(h&m);} } break;
      case MUL: { u128 h=(u128)a->hi*b->hi; if(h<=m){ nlo=a->lo*b->lo; nhi=h; } } break;
      case SUB: { __int128 l=(__int128)a->lo-b->hi,h=(__int128)a->hi-b->lo; if(l>=0){ nlo=l;nhi=h; } else if(h<0){ nlo=(u64)l&m; nhi=(u64)h&m; } } break;
      case AND: nhi=std::min(a->hi,b->hi); break;
      case OR: { nlo=std::max(a->lo,b->lo); u64 h=a->hi|b->hi; int n=h?64-__builtin_clzll(h):0; nhi=maskw(n)&m; if(!n) nhi=0; } break;
      case XOR: { u64 h=a->hi|b->hi; int n=h?64-__builtin_clzll(h):0; nhi=n?maskw(n)&m:0; } break;
      case UDIV: if(b->lo){ nlo=a->lo/b->hi; nhi=a->hi/b->lo; } break;
      case UREM: if(b->lo){ nhi=std::min(a->hi,b->hi-1); } break;
      case SHL: if(b->op==CONST&&b->k<w){ if(a->hi<=(m>>b->k)){ nlo=a->lo<<b->k; nhi=a->hi<<b->k; } } break;
      case LSHR: if(b->op==CONST&&b->k<w){ nlo=a->lo>>b->k; nhi=a->hi>>b->k; } break;
      case ZEXT: nlo=a->lo;nhi=a->hi; break;
      case SEXT: if(a->hi<=(maskw(a->w)>>1)){ nlo=a->lo; nhi=a->hi; } else if(a->lo>(maskw(a->w)>>1)){ nlo=(u64)sx64(a->lo,a->w)&m; nhi=(u64)sx64(a->hi,a->w)&m; } break;
      case EXTRACT: if((a->hi>>k)<=m&&true){ if((a->hi>>k)==((a->hi>>k)&m)){ nlo=a->lo>>k; nhi=a->hi>>k; } } break;
      case CONCAT: nlo=(a->lo<<b->w)|b->lo; nhi=(a->hi<<b->w)|b->hi; break;
      case ITE: nlo=std::min(b->lo,c->lo); nhi=std::max(b->hi,c->hi);
        if((a->op==SLT||a->op==SLE)&&w>8){ // |x|: ite(x<0 or 0<x .., x, 0-x)
          auto neg=[&](E*n,E*x){ return n->op==SUB&&n->a->op==CONST&&n->a->k==0&&n->b==x; }; u64 am=maskw(a->a->w); auto z=[&](E*t,bool lt){ return t->op==CONST&&(t->k==0||t->k==(lt?1:am)); }; i64 l,h;
          bool xneg= z(a->b,a->op==SLT); E*x= xneg?a->a:(z(a->a,a->op==SLE)?a->b:nullptr); // xneg: cond says x<0 (x<=0, x<1); otherwise 0<x
          if(x&&(xneg? (neg(b,x)&&c==x):(b==x&&neg(c,x)))&&srange(x,l,h)&&l>-(1ll<<62)){ nlo=0; nhi=std::max<u64>(l<0?-l:l,h<0?-h:h); } }
        break;
      default: break;
    }

  e->lo=std::max(plo,nlo); e->hi=std::min(phi,nhi); if(e->lo>e->hi){ e->lo=plo; e->hi=phi; }
  { typedef __int128 q; q L=-((q)1<<(w-1)),H=((q)1<<(w-1))-1,l=L,h=H; 
    switch(op){
      case ADD: l=(q)a->slo+b->slo; h=(q)a->shi+b->shi; break;
      case SUB: l=(q)a->slo-b->shi; h=(q)a->shi-b->slo; break;
      case MUL: { q t[4]={(q)a->slo*b->slo,(q)a->slo*b->shi,(q)a->shi*b->slo,(q)a->shi*b->shi}; l=h=t[0]; for(q v:t){ if(v<l) l=v; if(v>h) h=v; } } break;
      case SHL: if(b->op==CONST&&b->k<w&&b->k<62){ l=(q)a->slo*((q)1<<b->k); h=(q)a->shi*((q)1<<b->k); } break;
      case ASHR: if(b->op==CONST&&b->k<w){ l=a->slo>>b->k; h=a->shi>>b->k; } break;
      case SDIV: if(b->op==CONST&&sx64(b->k,w)>0){ i64 d=sx64(b->k,w); l=a->slo/d; h=a->shi/d; } break;
      case SREM: if(b->op==CONST&&sx64(b->k,w)>0){ i64 d=sx64(b->k,w); l=a->slo<0?-(d-1):0; h=a->shi>0?d-1:0; if(a->slo>-d&&a->shi<d){ l=a->slo; h=a->shi; } } break;
      case ZEXT: l=a->lo; h=a->hi; break;
      case SEXT: l=a->slo; h=a->shi; break;
      case ITE: l=std::min(b->slo,c->slo); h=std::max(b->shi,c->shi); break;
      case EXTRACT: if(k==0){ l=a->slo; h=a->shi; } else if(k+w==a->w){ l=a->slo>>k; h=a->shi>>k; } break;
      default: break; }
    if(l<L||h>H){ l=L; h=H; }
    i64 sl=std::max<i64>(e->slo,(i64)l),sh=std::min<i64>(e->shi,(i64)h); if(sl<=sh){ e->slo=sl; e->shi=sh; } }
  crossRange(e); e->ver=rangeVer;
  if(e->cv<e->lo||e->cv>e->hi||sx64(e->cv,w)<e->slo||sx64(e->cv,w)>e->shi) selfFail("range excludes the concrete value",e);
}
static void upd(E*e){ if(e->ver==rangeVer||e->op==CONST||e->op==VAR) return; e->ver=rangeVer; if(e->a) upd(e->a); if(e->b) upd(e->b); if(e->c) upd(e->c); calcRange(e); }
static E* raw(Op op,unsigned w,E*a,E*b,E*c,u64 k){
  E t; memset(&t,0,sizeof t); t.op=op;t.w=w;t.a=a;t.b=b;t.c=c;t.k=k;
  auto it=etab->find(&t); if(it!=etab->end()) return it->second;
  E*e=new E(t); e->id=nextId++; e->lo=0;e->hi=maskw(w); e->slo=w>=64?INT64_MIN:-(i64)(1ull<<(w-1)); e->shi=(i64)(maskw(w)>>1); e->sup=bsEmpty;
  if(op==CONST){ e->cv=k; e->lo=e->hi=k; e->slo=e->shi=sx64(k,w); }
  else if(op!=VAR){
    e->cv=evalOp(op,w,k,a,b,c,a?a->cv:0,b?b->cv:0,c?c->cv:0);
    for(E*x:{a,b,c}) if(x){ e->uninit|=x->uninit; e->uf|=x->uf; e->sup=bsUnion(e->sup,x->sup); e->fp|=x->fp; }
    if((op>=FADD&&op<=FPTRUNC)||op==UF) e->fp=true; if(op==UF) e->uf=true;
    calcRange(e);
  }
  (*etab)[e]=e; return e;
}
static E* K(u64 v,unsigned w){ return raw(CONST,w,0,0,0,v&maskw(w)); }
static inline bool isK(E*e){ return e->op==CONST; }
static inline bool isK(E*e,u64 v){ return e->op==CONST&&e->k==v; }

static E* mkNot(E*a); static E* mkEq(E*a,E*b); static E* mkIte(E*c,E*a,E*b); static E* mkExtract(E*a,unsigned lo,unsigned w);
static E* mkBin(Op op,E*a,E*b); static E* mkZext(E*a,unsigned w); static E* mkConcat(E*hi,E*lo);
static E* mkSext(E*a,unsigned w); static E* mkCmp(Op op,E*a,E*b);
static E* mkBin_(Op op,E*a,E*b); static E* mkCmp_(Op op,E*a,E*b); static E* mkEq_(E*a,E*b); static E* mkIte_(E*c,E*a,E*b); static E* mkExtract_(E*a,unsigned lo,unsigned w); static E* mkConcat_(E*hi,E*lo); static E* mkSext_(E*a,unsigned w); static E* mkZext_(E*a,unsigned w);
// every simplification is checked against the concrete evaluator on the current path
static E* chk(E*r,u64 want,const char*w){ if(r->cv!=want) selfFail(w,r); return r; }
static E* mkBin(Op op,E*a,E*b){ return chk(mkBin_(op,a,b),evalOp(op,a->w,0,a,b,0,a->cv,b->cv,0),"binary simplification"); }
static E* mkCmp(Op op,E*a,E*b){ return chk(mkCmp_(op,a,b),evalOp(op,1,0,a,b,0,a->cv,b->cv,0),"compare simplification"); }
static E* mkEq(E*a,E*b){ return chk(mkEq_(a,b),a->cv==b->cv,"equality simplification"); }
static E* mkIte(E*c,E*a,E*b){ return chk(mkIte_(c,a,b),c->cv?a->cv:b->cv,"ite simplification"); }
// taking bits out of nested words is remembered: shared subterms would be walked once per use otherwise
struct XKey { E*a; unsigned lo,w; bool operator==(const XKey&o) const { return a==o.a&&lo==o.lo&&w==o.w; } };
struct XHash { size_t operator()(const XKey&x) const { u64 h=((u64)x.a>>4)*0x9E3779B97F4A7C15ull^((u64)x.lo<<8|x.w)*0xff51afd7ed558ccdull; return h^h>>29; } };
static std::unordered_map<XKey,E*,XHash>* xmemo;
static E* mkExtract(E*a,unsigned lo,unsigned w){
  bool deep=a->op==AND||a->op==OR||a->op==XOR||a->op==ADD||a->op==SUB||a->op==MUL||a->op==CONCAT;
  if(deep){ if(!xmemo) xmemo=new std::unordered_map<XKey,E*,XHash>; auto it=xmemo->find({a,lo,w}); if(it!=xmemo->end()) return it->second; }
  E*r=chk(mkExtract_(a,lo,w),(a->cv>>lo)&maskw(w),"extract simplification"); if(deep) (*xmemo)[{a,lo,w}]=r; return r; }
static E* mkConcat(E*hi,E*lo){ return chk(mkConcat_(hi,lo),(hi->cv<<lo->w)|lo->cv,"concat simplification"); }
static E* mkSext(E*a,unsigned w){ return chk(mkSext_(a,w),(u64)sx64(a->cv,a->w)&maskw(w),"sext simplification"); }
static E* mkZext(E*a,unsigned w){ return chk(mkZext_(a,w),a->cv,"zext simplification"); }

static E* mkSext_(E*a,unsigned w){ if(a->w==w) return a; if(isK(a)) return K((u64)sx64(a->k,a->w),w); if(a->op==SEXT) return mkSext(a->a,w); if(a->op==ZEXT) return mkZext(a->a,w); if(a->hi<=(maskw(a->w)>>1)) return mkZext(a,w);
  if(a->op==ITE&&isK(a->b)&&isK(a->c)) return mkIte(a->a,mkSext(a->b,w),mkSext(a->c,w)); return raw(SEXT,w,a,0,0,0); }
static E* mkZext_(E*a,unsigned w){ if(a->w==w) return a; if(isK(a)) return K(a->k,w); if(a->op==ZEXT) return mkZext(a->a,w); 
  if(a->op==ITE&&isK(a->b)&&isK(a->c)) return mkIte(a->a,mkZext(a->b,w),mkZext(a->c,w)); return raw(ZEXT,w,a,0,0,0); }
static E* mkExtract_(E*a,unsigned lo,unsigned w){
  if(lo==0&&a->w==w) return a; if(isK(a)) return K(a->k>>lo,w);
  switch(a->op){
    case EXTRACT: return mkExtract(a->a,lo+a->k,w);
    case CONCAT: { unsigned bw=a->b->w; if(lo>=bw) return mkExtract(a->a,lo-bw,w); if(lo+w<=bw) return mkExtract(a->b,lo,w); return mkConcat(mkExtract(a->a,0,lo+w-bw),mkExtract(a->b,lo,bw-lo)); }
    case ZEXT: { unsigned aw=a->a->w; if(lo>=aw) return K(0,w); if(lo+w<=aw) return mkExtract(a->a,lo,w); if(lo==0) return mkZext(a->a,w); return mkZext(mkExtract(a->a,lo,aw-lo),w); }
    case SEXT: { unsigned aw=a->a->w; if(lo+w<=aw) return mkExtract(a->a,lo,w); if(lo==0) return mkSext(a->a,w); break; }
    case ITE: if(isK(a->b)&&isK(a->c)) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w)); break;
    case AND: case OR: case XOR: return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
    case ADD: case SUB: case MUL: if(lo==0&&w>=16) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
    case SHL: if(isK(a->b)){ unsigned s=a->b->k; if(lo>=s) return mkExtract(a->a,lo-s,w); if(lo+w<=s) return K(0,w); } break;
    case LSHR: if(isK(a->b)){ unsigned s=a->b->k; if(lo+s+w<=a->w) return mkExtract(a->a,lo+s,w); if(lo+s>=a->w) return K(0,w); } break;
    default: break;
  }
  return raw(EXTRACT,w,a,0,0,lo);
}
static E* rx(E*a,unsigned lo,unsigned w){ if(lo==0&&w==a->w) return a; if(a->op==ADD||a->op==SUB||a->op==MUL) return raw(EXTRACT,w,a,0,0,lo); return mkExtract(a,lo,w); }
static E* mkConcat_(E*hi,E*lo){
  unsigned w=hi->w+lo->w; if(isK(hi)&&isK(lo)) return K((hi->k<<lo->w)|lo->k,w);
  if(isK(hi,0)) return mkZext(lo,w);
  if(hi->op==EXTRACT&&lo->op==EXTRACT&&hi->a==lo->a&&hi->k==lo->k+lo->w) return rx(hi->a,lo->k,w);
  // (extract k of x) over (zext/whole low part of x)
  if(hi->op==EXTRACT&&hi->a==lo&&hi->k==0) {}
  if(lo->op==CONCAT&&hi->op==EXTRACT&&lo->a->op==EXTRACT&&hi->a==lo->a->a&&hi->k==lo->a->k+lo->a->w) return mkConcat(rx(hi->a,lo->a->k,hi->w+lo->a->w),lo->b);
  if(lo->op==CONCAT&&isK(hi)&&isK(lo->a)) return mkConcat(K((hi->k<<lo->a->w)|lo->a->k,hi->w+lo->a->w),lo->b);
  return raw(CONCAT,w,hi,lo,0,0);
}
static E* mkNot(E*a){ if(isK(a)) return K(!a->k,1); if(a->op==NOT) return a->a; return raw(NOT,1,a,0,0,0); }
static E* mkIte_(E*c,E*a,E*b){
  if(isK(c)) return c->k?a:b; if(a==b) return a; if(c->op==NOT) return mkIte(c->a,b,a);
  if(a->w==1){ if(isK(a,1)&&isK(b,0)) return c; if(isK(a,0)&&isK(b,1)) return mkNot(c); if(isK(b,0)) return mkBin(AND,c,a); if(isK(a,1)) return mkBin(OR,c,b); if(isK(a,0)) return mkBin(AND,mkNot(c),b); if(isK(b,1)) return mkBin(OR,mkNot(c),a); }
  if(b->op==ITE&&b->b==a) return mkIte(mkBin(OR,c,b->a),a,b->c);
  E* r=raw(ITE,a->w,c,a,b,0);
  if(!r->iv&&a->iv&&b->iv&&a->iv->sc==b->iv->sc){ unsigned w=std::max(a->iv->e->w,b->iv->e->w); r->iv=new IV{mkIte(c,mkSext(a->iv->e,w),mkSext(b->iv->e,w)),std::min(a->iv->lo,b->iv->lo),std::max(a->iv->hi,b->iv->hi),a->iv->sc}; }
  return r;
}
static E* mkEq_(E*a,E*b){
  upd(a); upd(b); if(a->op==SEXT&&a->a->hi<=(maskw(a->a->w)>>1)) a=mkZext(a->a,a->w); if(b->op==SEXT&&b->a->hi<=(maskw(b->a->w)>>1)) b=mkZext(b->a,b->w);
  if(a==b&&!a->fp) return K(1,1); if(a==b) return K(1,1);
  if(isK(a)&&isK(b)) return K(a->k==b->k,1);
  if(isK(a)) std::swap(a,b); else if(!isK(b)&&a->id>b->id) std::swap(a,b);
  if(a->lo>b->hi||b->lo>a->hi||a->slo>b->shi||b->slo>a->shi) return K(0,1);
  if(isK(b)){
    if(a->w==1) return b->k?a:mkNot(a);
    switch(a->op){
      case ZEXT: return (b->k>>a->a->w)?K(0,1):mkEq(a->a,K(b->k,a->a->w));
      case SEXT: { E*t=K(b->k,a->a->w); return mkSext(t,a->w)==b?mkEq(a->a,t):K(0,1); }
      case ADD: if(isK(a->b)) return mkEq(a->a,K(b->k-a->b->k,a->w)); break;
      case XOR: if(isK(a->b)) return mkEq(a->a,K(b->k^a->b->k,a->w)); break;
      case SUB: if(isK(b,0)) return mkEq(a->a,a->b); if(isK(a->a)) return mkEq(a->b,K(a->a->k-b->k,a->w)); break;
      case ITE: { bool kb=isK(a->b),kc=isK(a->c); if(kb||kc){ return mkIte(a->a,mkEq(a->b,b),mkEq(a->c,b)); } break; }
      case CONCAT: return mkBin(AND,mkEq(a->a,K(b->k>>a->b->w,a->a->w)),mkEq(a->b,K(b->k,a->b->w)));
      case OR: if(isK(b,0)) return mkBin(AND,mkEq(a->a,b),mkEq(a->b,b)); break;
      default: break;
    }
  } else {
    if((a->op==ZEXT&&b->op==ZEXT)||(a->op==SEXT&&b->op==SEXT)) if(a->a->w==b->a->w) return mkEq(a->a,b->a);
    if(a->op==ADD&&b->op==ADD&&isK(a->b)&&isK(b->b)&&a->b==b->b) return mkEq(a->a,b->a);
    if(a->op==CONCAT&&b->op==CONCAT&&a->a->w==b->a->w) return mkBin(AND,mkEq(a->a,b->a),mkEq(a->b,b->b));
  }
  return raw(EQ,1,a,b,0,0);
}
static E* mkCmp_(Op op,E*a,E*b){ // ULT ULE SLT SLE
  upd(a); upd(b); if(a->op==SEXT&&a->a->hi<=(maskw(a->a->w)>>1)) a=mkZext(a->a,a->w); if(b->op==SEXT&&b->a->hi<=(maskw(b->a->w)>>1)) b=mkZext(b->a,b->w);
  if(a==b) return K(op==ULE||op==SLE,1);
  if(isK(a)&&isK(b)) return K(evalOp(op,1,0,a,b,0,a->k,b->k,0),1);
  unsigned w=a->w; u64 h=maskw(w)>>1;
  if(op==SLT||op==SLE){
    if(op==SLT){ if(a->shi<b->slo) return K(1,1); if(a->slo>=b->shi) return K(0,1); } else { if(a->shi<=b->slo) return K(1,1); if(a->slo>b->shi) return K(0,1); }
    if(a->op==SEXT&&(b->op==SEXT&&b->a->w==a->a->w)) return mkCmp(op,a->a,b->a);
    if(a->op==SEXT&&isK(b)){ E*t=K(b->k,a->a->w); if(mkSext(t,w)==b) return mkCmp(op,a->a,t); return K(sx64(b->k,w)>0,1); }
    if(b->op==SEXT&&isK(a)){ E*t=K(a->k,b->a->w); if(mkSext(t,w)==a) return mkCmp(op,t,b->a); return K(sx64(a->k,w)<0,1); }
    bool an=a->hi<=h,bn=b->hi<=h,aneg=a->lo>h,bneg=b->lo>h;
    if(an&&bn) op= op==SLT?ULT:ULE; else if(aneg&&bneg) op= op==SLT?ULT:ULE; else if(an&&bneg) return K(0,1); else if(aneg&&bn) return K(1,1);
    else return (a->op==ITE&&isK(a->b)&&isK(a->c)&&isK(b))?mkIte(a->a,mkCmp(op,a->b,b),mkCmp(op,a->c,b)):raw(op,1,a,b,0,0);
  }
  if(op==ULT){ if(a->hi<b->lo) return K(1,1); if(a->lo>=b->hi) return K(0,1); if(isK(b,1)) return mkEq(a,K(0,w)); if(isK(a,0)) return mkNot(mkEq(b,a)); }
  else { if(a->hi<=b->lo) return K(1,1); if(a->lo>b->hi) return K(0,1); if(isK(b,0)) return mkEq(a,b); }
  if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mkCmp(op,a->a,b->a);
  if(a->op==ZEXT&&isK(b)) return mkCmp(op,a->a,K(b->k,a->a->w)); // range checks above exclude overflow
  if(b->op==ZEXT&&isK(a)) return mkCmp(op,K(a->k,b->a->w),b->a);
  if(a->op==ITE&&isK(a->b)&&isK(a->c)&&isK(b)) return mkIte(a->a,mkCmp(op,a->b,b),mkCmp(op,a->c,b));
  return raw(op,1,a,b,0,0);
}
static E* narrow(E*a,unsigned n){ if(isK(a)) return K(a->k,n); if(a->w==n) return a; if(a->op==ZEXT){ if(a->a->w<=n) return mkZext(a->a,n); return narrow(a->a,n); } if(a->op==EXTRACT) return mkExtract(a,0,n); return raw(EXTRACT,n,a,0,0,0); }
static E* stripZ(E*e){ for(;;){ if(e->op==ZEXT) e=e->a; else if(e->op==EXTRACT&&e->k==0&&e->a->hi<=maskw(e->w)) e=e->a; else return e; } }
static E* divRem(E*x,E*r){ // (q/k)*k + q%k == q
  x=stripZ(x); r=stripZ(r); if(x->op!=MUL||r->op!=UREM||!isK(x->b)||!isK(r->b)||x->b->k!=r->b->k) return nullptr; E*d=stripZ(x->a); if(d->op!=UDIV||!isK(d->b)||d->b->k!=x->b->k) return nullptr;
  E*q=stripZ(d->a); if(q!=stripZ(r->a)) return nullptr; return q; }
static E* mkBin_(Op op,E*a,E*b){
  unsigned w=a->w; u64 m=maskw(w); upd(a); upd(b);
  if(a->op==SEXT&&a->a->hi<=(maskw(a->a->w)>>1)) a=mkZext(a->a,w); if(b->op==SEXT&&b->a->hi<=(maskw(b->a->w)>>1)) b=mkZext(b->a,w);
  if(isK(a)&&isK(b)) return K(evalOp(op,w,0,a,b,0,a->k,b->k,0),w);
  bool comm=op==ADD||op==MUL||op==AND||op==OR||op==XOR;
  if(comm){ if(isK(a)) std::swap(a,b); else if(!isK(b)&&a->id>b->id) std::swap(a,b); }
  if(op==SUB&&isK(b)) return mkBin(ADD,a,K(0-b->k,w));
  switch(op){
    case ADD: if(isK(b,0)) return a; if(isK(b)&&a->op==ADD&&isK(a->b)) return mkBin(ADD,a->a,K(a->b->k+b->k,w));
      if(!isK(b)&&a->op==ADD&&isK(a->b)) return mkBin(ADD,mkBin(ADD,a->a,b),a->b); if(!isK(b)&&b->op==ADD&&isK(b->b)) return mkBin(ADD,mkBin(ADD,a,b->a),b->b);
      if(!isK(b)){ E*q=divRem(a,b); if(!q) q=divRem(b,a); if(q&&q->hi<=m) return q->w>=w?mkExtract(q,0,w):mkZext(q,w); }
      if(b->op==SUB&&b->b==a) return b->a; if(a->op==SUB&&a->b==b) return a->a;
      if(isK(b)&&a->op==ITE&&isK(a->b)&&isK(a->c)) return mkIte(a->a,mkBin(ADD,a->b,b),mkBin(ADD,a->c,b));
      break;
    case SUB: if(a==b) return K(0,w); if(b->op==SUB&&b->a==a) return b->b; { E*mu=stripZ(b); if(mu->op==MUL&&isK(mu->b)){ E*d=stripZ(mu->a); if(d->op==UDIV&&isK(d->b)&&d->b->k==mu->b->k&&stripZ(d->a)==stripZ(a)) return mkBin(UREM,a,K(mu->b->k,w)); } } if(a->op==ADD&&isK(a->b)&&b->op==ADD&&isK(b->b)) return mkBin(ADD,mkBin(SUB,a->a,b->a),K(a->b->k-b->b->k,w));
      if(a->op==ADD&&isK(a->b)) return mkBin(ADD,mkBin(SUB,a->a,b),a->b);
      if(b->op==ADD&&isK(b->b)) return mkBin(ADD,mkBin(SUB,a,b->a),K(0-b->b->k,w));
      if(a->op==ADD&&a->a==b) return a->b; if(a->op==ADD&&a->b==b) return a->a; break;
    case MUL: if(isK(b,0)) return b; if(isK(b,1)) return a; if(isK(b)&&(b->k&(b->k-1))==0) return mkBin(SHL,a,K(__builtin_ctzll(b->k),w)); break;
    case UDIV: if(isK(b,1)) return a; if(isK(b)&&b->k&&(b->k&(b->k-1))==0) return mkBin(LSHR,a,K(__builtin_ctzll(b->k),w)); if(b->lo>a->hi) return K(0,w); 
      if(a->op==ZEXT&&isK(b)&&b->k<=maskw(a->a->w)) return mkZext(mkBin(UDIV,a->a,K(b->k,a->a->w)),w); break;
    case UREM: if(isK(b,1)) return K(0,w); if(isK(b)&&b->k&&(b->k&(b->k-1))==0) return mkBin(AND,a,K(b->k-1,w)); if(b->lo>a->hi) return a;
      if(a->op==ZEXT&&isK(b)&&b->k<=maskw(a->a->w)) return mkZext(mkBin(UREM,a->a,K(b->k,a->a->w)),w); break;
    case SDIV: if(isK(b,1)) return a; if(a->hi<=(m>>1)&&b->hi<=(m>>1)) return mkBin(UDIV,a,b); break;
    case SREM: if(a->hi<=(m>>1)&&b->hi<=(m>>1)) return mkBin(UREM,a,b); break;
    case AND: if(isK(b,0)) return b; if(isK(b,m)) return a; if(a==b) return a; if(isK(b)&&a->op==AND&&isK(a->b)) return mkBin(AND,a->a,K(a->b->k&b->k,w));
      if(w==1){ if(a->op==NOT&&a->a==b) return K(0,1); if(b->op==NOT&&b->a==a) return K(0,1); }
      if(isK(b)){ u64 v=b->k; if((v&(v+1))==0){ unsigned n=__builtin_popcountll(v); if(a->hi<=v) return a; return mkZext(mkExtract(a,0,n),w); } 
        if(a->op==ITE&&isK(a->b)&&isK(a->c)) return mkIte(a->a,mkBin(AND,a->b,b),mkBin(AND,a->c,b)); 
        if(a->op==ZEXT&&a->a->w<w) return mkZext(mkBin(AND,a->a,K(v,a->a->w)),w); }
      break;
    case OR: if(isK(b,0)) return a; if(isK(b,m)) return b; if(a==b) return a; if(w==1){ if(a->op==NOT&&a->a==b) return K(1,1); if(b->op==NOT&&b->a==a) return K(1,1); }
      { // disjoint (x<<s) | zext(y): concat
        auto tryc=[&](E*x,E*y)->E*{ if(x->op==SHL&&isK(x->b)){ unsigned s=x->b->k; if(s<w&&y->hi<=maskw(s)) return mkConcat(mkExtract(x->a,0,w-s),mkExtract(y,0,s)); }
          if(x->op==CONCAT&&isK(x->b,0)&&y->hi<=maskw(x->b->w)) return mkConcat(x->a,mkExtract(y,0,x->b->w)); return nullptr; };
        if(E*r=tryc(a,b)) return r; if(E*r=tryc(b,a)) return r; }
      break;
    case XOR: if(isK(b,0)) return a; if(a==b) return K(0,w); if(w==1&&isK(b,1)) return mkNot(a); if(isK(b)&&a->op==XOR&&isK(a->b)) return mkBin(XOR,a->a,K(a->b->k^b->k,w)); break;
    case SHL: if(isK(b)){ if(b->k==0) return a; if(b->k>=w) return K(0,w); if(a->op==SHL&&isK(a->b)) return mkBin(SHL,a->a,K(a->b->k+b->k,w)); } if(isK(a,0)) return a; break;
    case LSHR: if(isK(b)){ if(b->k==0) return a; if(b->k>=w) return K(0,w); return mkZext(mkExtract(a,b->k,w-b->k),w); } if(isK(a,0)) return a; break;
    case ASHR: if(isK(b)&&b->k==0) return a; if(a->hi<=(m>>1)) return mkBin(LSHR,a,b); if(isK(b)&&b->k<w) return mkSext(mkExtract(a,b->k,w-b->k),w); break;
    default: break;
  }
  if(op==UDIV||op==UREM||op==MUL){ // compute at the width the value ranges need
    u128 h= op==MUL?(u128)a->hi*b->hi:(u128)std::max(a->hi,b->hi); unsigned n=1; while(n<64&&(h>>n)) n++; 
    if(op==MUL) n=std::max<unsigned>(n,1); if(n+4<=w&&!(h>>n)) return mkZext(raw(op,n,narrow(a,n),narrow(b,n),0,0),w); }
  return raw(op,w,a,b,0,0);
}

// ---- floating point with the exact dyadic-integer view
static int bitsFor(i64 lo,i64 hi){ int n=1; while(n<63&&(lo<-(1ll<<(n-1))||hi>(1ll<<(n-1))-1)) n++; return n; }
static E* fitIV(E*e,i64 lo,i64 hi){ unsigned w=bitsFor(lo,hi); if(e->w>w) return mkExtract(e,0,w); return mkSext(e,w); }
static bool okRange(i64 lo,i64 hi,unsigned w){ i64 L= w==64?(1ll<<53):(1ll<<24); return lo>=-L&&hi<=L; }
static IV* ivOf(E*e){
  if(e->iv){ if(fpv(e->cv,e->w)!=ldexp((double)sx64(e->iv->e->cv,e->iv->e->w),-e->iv->sc)) selfFail("integer view",e); return e->iv; }
  if(isK(e)){ double d=fpv(e->k,e->w); if(!(d==d)||std::isinf(d)) return nullptr; if(d==0){ return e->iv=new IV{K(0,1),0,0,0}; }
    int ex; double m=frexp(d,&ex); i64 v=(i64)ldexp(m,53); int sc=53-ex; while(!(v&1)){ v>>=1; sc--; }
    if(sc<0){ if(-sc>50) return nullptr; double t=ldexp((double)v,-sc); if(fabs(t)>9e15) return nullptr; v=(i64)t; sc=0; }
    if(sc>40) return nullptr; int n=bitsFor(v,v); return e->iv=new IV{K((u64)v,n),v,v,sc}; }
  return nullptr;
}
// polynomials over integer views, in normal form: identities between differently associated sums and products are decided without the solver
struct Poly { std::map<std::vector<E*>,i64> t; };   // monomial (sorted by id) -> coefficient
static const size_t polyMax=300;
static Poly* polyOf(IV*v){ if(v->p) return v->p; Poly*p=new Poly; if(isK(v->e)){ i64 k=sx64(v->e->k,v->e->w); if(k) p->t[{}]=k; } else p->t[{v->e}]=1; return v->p=p; }
static Poly* polyAdd(Poly*a,i64 ka,Poly*b,i64 kb){ if(!a||!b||a->t.size()+b->t.size()>polyMax) return nullptr; Poly*r=new Poly; auto acc=[&](Poly*x,i64 k){ for(auto&m:x->t){ i64 c; if(__builtin_mul_overflow(m.second,k,&c)) return false; i64&d=r->t[m.first]; if(__builtin_add_overflow(d,c,&d)) return false; if(!d) r->t.erase(m.first); } return true; }; if(!acc(a,ka)||!acc(b,kb)){ delete r; return nullptr; } return r; }
static Poly* polyMul(Poly*a,Poly*b){ if(!a||!b||a->t.size()*b->t.size()>polyMax) return nullptr; Poly*r=new Poly; for(auto&m:a->t) for(auto&n:b->t){ i64 c; std::vector<E*> k=m.first; k.insert(k.end(),n.first.begin(),n.first.end()); std::sort(k.begin(),k.end(),[](E*x,E*y){ return x->id<y->id; }); if(k.size()>12||__builtin_mul_overflow(m.second,n.second,&c)){ delete r; return nullptr; } i64&d=r->t[k]; if(__builtin_add_overflow(d,c,&d)){ delete r; return nullptr; } if(!d) r->t.erase(k); } return r; }
// a view for a polynomial of degree one: canonical expression and the range of the terms
static E* fitIV(E*e,i64 lo,i64 hi);
static void canonIV(IV*v){ Poly*p=v->p;
  if(p&&v->sc>0&&!p->t.empty()){ int g=v->sc; for(auto&m:p->t) g=std::min(g,__builtin_ctzll((u64)m.second)); if(g>0){ for(auto&m:p->t) m.second>>=g; v->e=mkBin(ASHR,v->e,K((u64)g,v->e->w)); v->lo>>=g; v->hi>>=g; v->sc-=g; } } // the coarsest scale
  if(!p||p->t.size()>10) return; typedef __int128 q; q lo=0,hi=0; q wide=0;
  for(auto&m:p->t){ if(m.first.size()>1) return; if(m.first.empty()){ lo+=m.second; hi+=m.second; continue; } E*a=m.first[0]; upd(a); q x=(q)a->slo*m.second,y=(q)a->shi*m.second; if(x>y) std::swap(x,y); lo+=x; hi+=y; wide=std::max({wide,x<0?-x:x,y<0?-y:y}); }
  q L=(q)1<<60; if(lo<-L||hi>L||wide>L) return; if(lo>v->lo) v->lo=(i64)lo; if(hi<v->hi) v->hi=(i64)hi; if(v->lo>v->hi) return;
  i64 al=-(i64)wide,ah=(i64)wide; al=std::min(al,(i64)lo); ah=std::max(ah,(i64)hi); unsigned n=std::min(62,bitsFor(al,ah)+4); for(auto&m:p->t) if(!m.first.empty()) n=std::max<unsigned>(n,m.first[0]->w); if(n>63) return;
  E*e=nullptr; i64 k=0; for(auto&m:p->t){ if(m.first.empty()){ k=m.second; continue; } E*a=mkSext(m.first[0],n); i64 c=m.second; E*t=c==1||c==-1?a:mkBin(MUL,a,K((u64)(c<0?-c:c),n)); if(!e) e= c<0?mkBin(SUB,K(0,n),t):t; else e=mkBin(c<0?SUB:ADD,e,t); }
  if(!e) e=K((u64)k,n); else if(k) e=mkBin(ADD,e,K((u64)k,n));
  v->e=fitIV(e,v->lo,v->hi); }
// the polynomial of a difference a-b in units of the finer scale, if it is constant
static bool constDiff(IV*a,IV*b,i64&d){ int sc=std::max(a->sc,b->sc); int da=sc-a->sc,db=sc-b->sc; if(da>45||db>45) return false; Poly*p=polyAdd(polyOf(a),1ll<<da,polyOf(b),-(1ll<<db)); if(!p) return false; bool r=p->t.empty()||(p->t.size()==1&&p->t.begin()->first.empty()); if(r) d=p->t.empty()?0:p->t.begin()->second; delete p; return r; }
static bool alignIV(IV*a,IV*b,E*&x,E*&y,i64&al,i64&ah,i64&bl,i64&bh,int&sc){
  sc=std::max(a->sc,b->sc); int da=sc-a->sc,db=sc-b->sc; if(da>45||db>45) return false;
  auto ok=[&](i64 v,int d){ return (d==0)||(v<=(1ll<<(60-d))&&v>=-(1ll<<(60-d))); };
  if(!ok(a->lo,da)||!ok(a->hi,da)||!ok(b->lo,db)||!ok(b->hi,db)) return false;
  al=a->lo*(1ll<<da);ah=a->hi*(1ll<<da);bl=b->lo*(1ll<<db);bh=b->hi*(1ll<<db);
  auto sh=[&](E*e,i64 l,i64 h,int d){ E*t=mkSext(e,std::max<unsigned>(e->w,bitsFor(l,h))); return d?mkBin(SHL,t,K(d,t->w)):t; };
  x=sh(a->e,al,ah,da); y=sh(b->e,bl,bh,db); return true;
}
static E* mkFBin(Op op,E*a,E*b){
  unsigned w=a->w;
  if(isK(a)&&isK(b)) return K(evalOp(op,w,0,a,b,0,a->k,b->k,0),w);
  u64 one=fpb(1.0,w);
  if(op==FMUL){ if(isK(a,one)) return b; if(isK(b,one)) return a; if(a->id>b->id) std::swap(a,b); }
  if(op==FADD&&a->id>b->id) std::swap(a,b);
  if(op==FDIV&&isK(b,one)) return a;
  if(op==FSUB&&isK(b,0)) return a;             // x - (+0) == x for every x
  if(op==FADD&&isK(a,fpb(-0.0,w))) return b; if(op==FADD&&isK(b,fpb(-0.0,w))) return a;
  // division by a power of two is an exact scaling
  IV*x=ivOf(a),*y=ivOf(b);
  if(op==FDIV&&isK(b)){ double d=fpv(b->k,w); int ex; if(d!=0&&std::isfinite(d)&&fabs(frexp(d,&ex))==0.5&&ex>-40&&ex<40) return mkFBin(FMUL,a,K(fpb(1.0/d,w),w)); }
  // the quotient of two views one of which is a constant multiple of the other
  if(op==FDIV&&x&&y&&(y->lo>0||y->hi<0)){ Poly*p=polyOf(x),*q=polyOf(y); if(p&&q&&!p->t.empty()&&p->t.size()==q->t.size()){ i64 c=p->t.begin()->second,d=q->t.begin()->second; bool same=true; auto j=q->t.begin(); for(auto i=p->t.begin();same&&i!=p->t.end();++i,++j) same= i->first==j->first&&(__int128)i->second*d==(__int128)j->second*c; i64 L=w==32?1<<24:1ll<<53; if(same&&c>-L&&c<L&&d>-L&&d<L&&abs(x->sc-y->sc)<60){ double n=ldexp((double)c,y->sc-x->sc); double v=w==32?(double)((float)n/(float)(double)d):n/(double)d; return K(fpb(v,w),w); } } }
  E*r=raw(op,w,a,b,0,0);
  if(!r->iv&&x&&y){
    if(op==FADD||op==FSUB){ E*p,*q; i64 al,ah,bl,bh; int sc; if(alignIV(x,y,p,q,al,ah,bl,bh,sc)){ i64 lo=op==FADD?al+bl:al-bh,hi=op==FADD?ah+bh:ah-bl;
        if(okRange(lo,hi,w)&&okRange(al,ah,w)&&okRange(bl,bh,w)){ unsigned n=std::max<unsigned>({(unsigned)bitsFor(lo,hi),p->w,q->w}); r->iv=new IV{fitIV(mkBin(op==FADD?ADD:SUB,mkSext(p,n),mkSext(q,n)),lo,hi),lo,hi,sc,polyAdd(polyOf(x),1ll<<(sc-x->sc),polyOf(y),(op==FADD?1:-1)*(1ll<<(sc-y->sc)))}; canonIV(r->iv); } } }
    else if(op==FMUL){ __int128 c[4]={(__int128)x->lo*y->lo,(__int128)x->lo*y->hi,(__int128)x->hi*y->lo,(__int128)x->hi*y->hi}; __int128 lo=c[0],hi=c[0]; for(auto v:c){ if(v<lo)lo=v; if(v>hi)hi=v; }
      __int128 L=(__int128)1<<53; if(lo>=-L&&hi<=L&&okRange(lo,hi,w)&&x->sc+y->sc<=60){ unsigned n=bitsFor(lo,hi); n=std::max(n,std::max<unsigned>(x->e->w,y->e->w)); r->iv=new IV{fitIV(mkBin(MUL,mkSext(x->e,n),mkSext(y->e,n)),lo,hi),(i64)lo,(i64)hi,x->sc+y->sc,polyMul(polyOf(x),polyOf(y))}; canonIV(r->iv); } }
  }
  // a value that the normal form shows to be one nonzero constant
  if(r->iv&&r->iv->p&&r->iv->p->t.size()==1&&r->iv->p->t.begin()->first.empty()&&r->iv->sc<=60) return K(fpb(ldexp((double)r->iv->p->t.begin()->second,-r->iv->sc),w),w);
  return r;
}
static E* mkFNeg(E*a){ if(isK(a)) return K(a->k^(1ull<<(a->w-1)),a->w); if(a->op==FNEG) return a->a; E*r=raw(FNEG,a->w,a,0,0,0); if(!r->iv) if(IV*x=ivOf(a)){ i64 lo=-x->hi,hi=-x->lo; unsigned n=std::max<unsigned>(bitsFor(lo,hi),x->e->w); r->iv=new IV{fitIV(mkBin(SUB,K(0,n),mkSext(x->e,n)),lo,hi),lo,hi,x->sc,polyMul(polyOf(x),new Poly{{{{},-1}}})}; canonIV(r->iv); } return r; }
static E* mkFAbs(E*a){ if(isK(a)) return K(a->k&~(1ull<<(a->w-1)),a->w); E*r=raw(FABS,a->w,a,0,0,0); if(!r->iv) if(IV*x=ivOf(a)){ i64 hi=std::max(x->hi,-x->lo); unsigned n=std::max<unsigned>(bitsFor(-hi,hi),x->e->w); E*t=mkSext(x->e,n); r->iv=new IV{mkIte(mkCmp(SLT,t,K(0,n)),mkBin(SUB,K(0,n),t),t),0,hi,x->sc}; } return r; }
// a bound on the size of a value that is certainly finite: |value| < 2^result; 9999 when nothing is known
static std::unordered_map<E*,int>* fmagMemo;
static int fmag(E*e){
  const int no=9999; int lim=e->w==64?1000:e->w==32?110:0; if(!lim) return no;
  if(e->op==CONST){ double d=fpv(e->k,e->w); if(!std::isfinite(d)) return no; if(d==0) return -900; int x; frexp(d,&x); return x; }
  if(!(e->op>=FADD&&e->op<=FPTRUNC)&&e->op!=ITE) return no;
  if(!fmagMemo) fmagMemo=new std::unordered_map<E*,int>; auto it=fmagMemo->find(e); if(it!=fmagMemo->end()) return it->second;
  int m=no,x,y;
  switch(e->op){
    case SITOFP: case UITOFP: m=(int)e->a->w+1; break;
    case FNEG: case FABS: case FPEXT: case FPTRUNC: m=fmag(e->a)+(e->op==FPTRUNC?1:0); break;
    case FADD: case FSUB: x=fmag(e->a); y=fmag(e->b); m=std::max(x,y)+1; break;
    case FMUL: x=fmag(e->a); y=fmag(e->b); m=(x>=no||y>=no)?no:x+y+1; break;
    case FDIV: x=fmag(e->a); if(isK(e->b)){ double d=fpv(e->b->k,e->w); int q; if(d!=0&&std::isfinite(d)&&x<no){ frexp(d,&q); m=x-q+3; } } break;
    case ITE: m=std::max(fmag(e->b),fmag(e->c)); break;
    default: break; }
  if(m<-900) m=-900; if(m>lim) m=no; (*fmagMemo)[e]=m; return m; }
static E* mkFCmp(Op op,E*a,E*b){ // FEQ FLT FLE FUNO
  if(isK(a)&&isK(b)) return K(evalOp(op,1,0,a,b,0,a->k,b->k,0),1);
  IV*x=ivOf(a),*y=ivOf(b);
  auto cls=[&](E*e)->int{ if(isK(e)){ double d=fpv(e->k,e->w); if(d!=d) return 3; if(std::isinf(d)) return d>0?1:2; } return 0; };
  if(op==FUNO){ int ca=cls(a),cb=cls(b); if(ca==3||cb==3) return K(1,1); bool an=x||isK(a)||fmag(a)<9999,bn=y||isK(b)||fmag(b)<9999; if(an&&bn) return K(0,1); if(an) return mkFCmp(FUNO,b,b); if(bn&&a!=b) return raw(FUNO,1,a,a,0,0); return raw(FUNO,1,a,b,0,0); }
  if(x||y){ int ca=cls(a),cb=cls(b); if(ca==3||cb==3) return K(0,1); if(x&&cb){ if(op==FEQ) return K(0,1); return K(cb==1,1); } if(y&&ca){ if(op==FEQ) return K(0,1); return K(ca==2,1); } }
  if(x&&y){ i64 d; if(constDiff(x,y,d)) return K(op==FEQ?d==0:op==FLT?d<0:d<=0,1); }
  if(x&&y){ E*p,*q; i64 al,ah,bl,bh; int sc; if(alignIV(x,y,p,q,al,ah,bl,bh,sc)){
      if(op==FEQ){ if(al>bh||bl>ah) return K(0,1); unsigned n=std::max(p->w,q->w); return mkEq(mkSext(p,n),mkSext(q,n)); }
      if(op==FLT){ if(ah<bl) return K(1,1); if(al>=bh) return K(0,1); } else { if(ah<=bl) return K(1,1); if(al>bh) return K(0,1); }
      unsigned n=std::max(p->w,q->w); return mkCmp(op==FLT?SLT:SLE,mkSext(p,n),mkSext(q,n)); } }
  // a view against a constant that has none: round the constant to the grid of the view
  if((x&&!y&&isK(b))||(y&&!x&&isK(a))){ IV*v=x?x:y; double D=ldexp(fpv((x?b:a)->k,a->w),v->sc);
    if(op==FEQ){ if(D!=std::floor(D)||D<(double)v->lo||D>(double)v->hi) return K(0,1); }
    else { // lower: view on the smaller side
      bool small=x!=nullptr; double t= small? (op==FLT?std::ceil(D)-1:std::floor(D)) : (op==FLT?std::floor(D)+1:std::ceil(D)); // e<=t or e>=t
      if(std::isinf(D)||fabs(t)>1e17){ return K((small?(D>0):(D<0))?1:0,1); }
      i64 T=(i64)t; if(small){ if(v->hi<=T) return K(1,1); if(v->lo>T) return K(0,1); } else { if(v->lo>=T) return K(1,1); if(v->hi<T) return K(0,1); }
      unsigned n=std::max<unsigned>(v->e->w,bitsFor(T,T)); E*ev=mkSext(v->e,n),*k=K((u64)T,n); return small?mkCmp(SLE,ev,k):mkCmp(SLE,k,ev); } }
  if(op==FEQ&&a->id>b->id) std::swap(a,b);
  if(op==FEQ&&a==b) return mkNot(mkFCmp(FUNO,a,a));
  return raw(op,1,a,b,0,0);
}
static bool srange(E*e,i64&lo,i64&hi){ upd(e); lo=e->slo; hi=e->shi; return true; }
static E* mkSiToFp(E*a,unsigned w){ if(isK(a)) return K(evalOp(SITOFP,w,0,a,0,0,a->k,0,0),w); E*r=raw(SITOFP,w,a,0,0,0); if(!r->iv){ i64 lo,hi; if(srange(a,lo,hi)&&okRange(lo,hi,w)) r->iv=new IV{fitIV(a,lo,hi),lo,hi,0}; } return r; }
static E* mkUiToFp(E*a,unsigned w){ if(isK(a)) return K(evalOp(UITOFP,w,0,a,0,0,a->k,0,0),w); E*r=raw(UITOFP,w,a,0,0,0); if(!r->iv&&a->hi<=(w==64?(1ull<<53):(1ull<<24))){ r->iv=new IV{fitIV(mkZext(a,std::min(64,a->w+1)),a->lo,a->hi),(i64)a->lo,(i64)a->hi,0}; } return r; }
static E* mkFpToI(bool sg,E*a,unsigned w){ if(isK(a)) return K(evalOp(sg?FPTOSI:FPTOUI,w,0,a,0,0,a->k,0,0),w);
  if(IV*x=ivOf(a)){ // exact truncation toward zero when it fits
    E*e=x->e; i64 lo=x->lo,hi=x->hi; if(x->sc){ unsigned n=bitsFor(lo-(1ll<<x->sc),hi+(1ll<<x->sc)); n=std::max<unsigned>(n,e->w); e=mkSext(e,n); E*adj=mkIte(mkCmp(SLT,e,K(0,n)),K((1ull<<x->sc)-1,n),K(0,n)); e=mkBin(ASHR,mkBin(ADD,e,adj),K(x->sc,n)); lo/=(1ll<<x->sc); hi/=(1ll<<x->sc); }
    i64 L= sg? -(i64)(maskw(w)>>1)-1 : 0; i64 H= sg? (i64)(maskw(w)>>1) : (w>=63?INT64_MAX:(i64)maskw(w));
    if(lo>=L&&hi<=H){ return e->w>=w?mkExtract(e,0,w):mkSext(e,w); } }
  return raw(sg?FPTOSI:FPTOUI,w,a,0,0,0); }
static E* mkFRound(int mode,E*a){ unsigned w=a->w; if(isK(a)) return K(evalOp(FROUND,w,mode,a,0,0,a->k,0,0),w); E*r=raw(FROUND,w,a,0,0,mode);
  if(!r->iv) if(IV*x=ivOf(a)){ if(x->sc==0) r->iv=x; else if(mode<=1){ i64 one=1ll<<x->sc; unsigned n=std::max<unsigned>(bitsFor(x->lo-one,x->hi+one),x->e->w); E*e=mkSext(x->e,n); if(mode==1) e=mkBin(ADD,e,K(one-1,n)); e=mkBin(ASHR,e,K(x->sc,n)); i64 lo=(x->lo+(mode==1?one-1:0))>>x->sc,hi=(x->hi+(mode==1?one-1:0))>>x->sc; r->iv=new IV{fitIV(e,lo,hi),lo,hi,0}; } }
  return r; }
static E* mkFConv(Op op,E*a,unsigned w){ if(isK(a)) return K(evalOp(op,w,0,a,0,0,a->k,0,0),w); E*r=raw(op,w,a,0,0,0); if(!r->iv) if(IV*x=ivOf(a)) if(okRange(x->lo,x->hi,w)) r->iv=x; return r; }

// ------------------------------------------------------------------ evaluation under an assignment
struct VarInfo { unsigned w; std::string name; E* e; bool isUninit; };
static std::vector<VarInfo>* vars;
static u64 evalUnder(E*e,const std::vector<u64>&as,std::unordered_map<E*,u64>&memo){
  if(e->op==CONST) return e->k; if(e->op==VAR) return e->k<as.size()?as[e->k]:e->cv;
  auto it=memo.find(e); if(it!=memo.end()) return it->second;
  u64 a=0,b=0,c=0;
  if(e->op==ITE){ a=evalUnder(e->a,as,memo); u64 r=evalUnder(a?e->b:e->c,as,memo); memo[e]=r; return r; }
  if(e->a)a=evalUnder(e->a,as,memo); if(e->b)b=evalUnder(e->b,as,memo); if(e->c)c=evalUnder(e->c,as,memo);
  u64 r=evalOp(e->op,e->w,e->k,e->a,e->b,e->c,a,b,c); memo[e]=r; return r;
}
// ------------------------------------------------------------------ child state
struct Item { u32 prefix=0; u64 hash=0; std::vector<u64> excl; std::vector<u64> vals, par; };
static Item cur; static u32 ndec=0; static u64 dhash=14695981039346656037ull;
static std::vector<E*>* pc;
static int childFd=-1; static bool inChild=false; static volatile bool inSolver=false;
struct Stats { u64 branchQ=0,assertQ=0,sat=0,unsat=0,decs=0,asserts=0,concAsserts=0,fpQ=0,trivial=0; double solver=0,maxQ=0; u64 memchk=0; };
static Stats st;

static void wr(const void*p,size_t n){ const char*c=(const char*)p; while(n){ ssize_t k=::write(childFd,c,n); if(k<0){ if(errno==EINTR) continue; _exit(79);} c+=k;n-=k; } }
struct Msg { std::string s; void u(u64 v){ s.append((char*)&v,8); } void str(const std::string&t){ u(t.size()); s+=t; } void vec(const std::vector<u64>&v){ u(v.size()); s.append((char*)v.data(),v.size()*8);} void send(char tag){ u64 n=s.size(); std::string h(1,tag); h.append((char*)&n,8); h+=s; wr(h.data(),h.size()); } };
static std::vector<u64> curVals(){ std::vector<u64> v; for(auto&x:*vars) v.push_back(x.e->cv); return v; }
static std::string vecText(const std::vector<u64>&v){ std::string t; for(u64 x:v) t+=std::to_string(x)+","; return t; }
static std::vector<u64> curVals();
static void sendItem(u32 prefix,u64 hash,const std::vector<u64>&excl,const std::vector<u64>&vals){ Msg m; m.u(prefix); m.u(hash); m.vec(excl); m.vec(vals); m.vec(curVals()); m.send('I'); }
static void sendViol(const char*kind,const std::string&msg,const std::vector<u64>&vals){ Msg m; m.str(kind); m.str(msg); m.vec(vals); u64 n=vars->size(); m.u(n); for(auto&v:*vars){ m.str(v.name); m.u(v.w);} m.send('V'); }
static void sendErr(const std::string&msg){ Msg m; m.str(msg); m.vec(curVals()); m.send('E'); }
static void sendEnd(){ Msg m; m.u(st.branchQ);m.u(st.assertQ);m.u(st.sat);m.u(st.unsat);m.u(st.decs);m.u(st.asserts);m.u(st.concAsserts);m.u(st.fpQ);m.u((u64)(st.solver*1e6));m.u((u64)(st.maxQ*1e6)); m.u(ndec); m.u(etab->size()); m.u(st.memchk); m.u(st.trivial); m.send('S'); }
static const char* curSample(){ return ""; }
[[noreturn]] static void finish(int code){ (void)curSample; sendEnd(); _exit(code); }
[[noreturn]] static void fatal(const std::string&msg){ if(optTrace){ void*bt[40]; int n=backtrace(bt,40); backtrace_symbols_fd(bt,n,2); } if(!inChild){ fprintf(stderr,"symx: %s\n",msg.c_str()); _exit(70);} sendErr(msg); finish(0); }

// ------------------------------------------------------------------ Z3
static Z3_context zc; static Z3_solver zsBV=0, zsFP=0;
static Z3_sort bvs(unsigned w){ return Z3_mk_bv_sort(zc,w); }
static Z3_ast zx(E*e); static Z3_ast zfp(E*e);
static Z3_sort fps(unsigned w){ return w==64?Z3_mk_fpa_sort_64(zc):Z3_mk_fpa_sort_32(zc); }
static Z3_ast zbool(E*e){ // width-1 expression as Bool
  switch(e->op){
    case EQ: return Z3_mk_eq(zc,zx(e->a),zx(e->b)); case ULT: return Z3_mk_bvult(zc,zx(e->a),zx(e->b)); case ULE: return Z3_mk_bvule(zc,zx(e->a),zx(e->b));
    case SLT: return Z3_mk_bvslt(zc,zx(e->a),zx(e->b)); case SLE: return Z3_mk_bvsle(zc,zx(e->a),zx(e->b)); case NOT: return Z3_mk_not(zc,zbool(e->a));
    case AND: { Z3_ast v[2]={zbool(e->a),zbool(e->b)}; return Z3_mk_and(zc,2,v); } case OR: { Z3_ast v[2]={zbool(e->a),zbool(e->b)}; return Z3_mk_or(zc,2,v); }
    case FEQ: return Z3_mk_fpa_eq(zc,zfp(e->a),zfp(e->b)); case FLT: return Z3_mk_fpa_lt(zc,zfp(e->a),zfp(e->b)); case FLE: return Z3_mk_fpa_leq(zc,zfp(e->a),zfp(e->b));
    case FUNO: { Z3_ast v[2]={Z3_mk_fpa_is_nan(zc,zfp(e->a)),Z3_mk_fpa_is_nan(zc,zfp(e->b))}; return Z3_mk_or(zc,2,v); }
    default: return Z3_mk_eq(zc,zx(e),Z3_mk_unsigned_int64(zc,1,bvs(1)));
  }
}
static Z3_ast zrm(){ return Z3_mk_fpa_rne(zc); }
static Z3_ast zfp(E*e){
  if(e->zf) return e->zf; Z3_ast r; unsigned w=e->w;
  switch(e->op){
    case FADD: r=Z3_mk_fpa_add(zc,zrm(),zfp(e->a),zfp(e->b)); break; case FSUB: r=Z3_mk_fpa_sub(zc,zrm(),zfp(e->a),zfp(e->b)); break;
    case FMUL: r=Z3_mk_fpa_mul(zc,zrm(),zfp(e->a),zfp(e->b)); break; case FDIV: r=Z3_mk_fpa_div(zc,zrm(),zfp(e->a),zfp(e->b)); break;
    case FNEG: r=Z3_mk_fpa_neg(zc,zfp(e->a)); break; case FABS: r=Z3_mk_fpa_abs(zc,zfp(e->a)); break; case FSQRT: r=Z3_mk_fpa_sqrt(zc,zrm(),zfp(e->a)); break;
    case FROUND: { Z3_ast m= e->k==0?Z3_mk_fpa_rtn(zc):e->k==1?Z3_mk_fpa_rtp(zc):e->k==2?Z3_mk_fpa_rtz(zc):e->k==3?Z3_mk_fpa_rne(zc):Z3_mk_fpa_rna(zc); r=Z3_mk_fpa_round_to_integral(zc,m,zfp(e->a)); } break;
    case SITOFP: r=Z3_mk_fpa_to_fp_signed(zc,zrm(),zx(e->a),fps(w)); break; case UITOFP: r=Z3_mk_fpa_to_fp_unsigned(zc,zrm(),zx(e->a),fps(w)); break;
    case FPEXT: case FPTRUNC: r=Z3_mk_fpa_to_fp_float(zc,zrm(),zfp(e->a),fps(w)); break;
    case ITE: r=Z3_mk_ite(zc,zbool(e->a),zfp(e->b),zfp(e->c)); break;
    default: r=Z3_mk_fpa_to_fp_bv(zc,zx(e),fps(w)); break;
  }
  return e->zf=r;
}
static Z3_ast zx(E*e){
  if(e->z) return e->z; Z3_ast r; unsigned w=e->w;
  switch(e->op){
    case CONST: r=Z3_mk_unsigned_int64(zc,e->k,bvs(w)); break;
    case VAR: { char n[32]; snprintf(n,32,"v%llu",(unsigned long long)e->k); r=Z3_mk_const(zc,Z3_mk_string_symbol(zc,n),bvs(w)); } break;
    case ADD: if(w==1){} r=Z3_mk_bvadd(zc,zx(e->a),zx(e->b)); break; case SUB: r=Z3_mk_bvsub(zc,zx(e->a),zx(e->b)); break; case MUL: r=Z3_mk_bvmul(zc,zx(e->a),zx(e->b)); break;
    case UDIV: r=Z3_mk_bvudiv(zc,zx(e->a),zx(e->b)); break; case SDIV: r=Z3_mk_bvsdiv(zc,zx(e->a),zx(e->b)); break; case UREM: r=Z3_mk_bvurem(zc,zx(e->a),zx(e->b)); break; case SREM: r=Z3_mk_bvsrem(zc,zx(e->a),zx(e->b)); break;
    case AND: if(w==1) goto boolc; r=Z3_mk_bvand(zc,zx(e->a),zx(e->b)); break; case OR: if(w==1) goto boolc; r=Z3_mk_bvor(zc,zx(e->a),zx(e->b)); break; case XOR: r=Z3_mk_bvxor(zc,zx(e->a),zx(e->b)); break;
    case SHL: r=Z3_mk_bvshl(zc,zx(e->a),zx(e->b)); break; case LSHR: r=Z3_mk_bvlshr(zc,zx(e->a),zx(e->b)); break; case ASHR: r=Z3_mk_bvashr(zc,zx(e->a),zx(e->b)); break;
    case ZEXT: r=Z3_mk_zero_ext(zc,w-e->a->w,zx(e->a)); break; case SEXT: r=Z3_mk_sign_ext(zc,w-e->a->w,zx(e->a)); break;
    case EXTRACT: r=Z3_mk_extract(zc,e->k+w-1,e->k,zx(e->a)); break; case CONCAT: r=Z3_mk_concat(zc,zx(e->a),zx(e->b)); break;
    case ITE: r=Z3_mk_ite(zc,zbool(e->a),zx(e->b),zx(e->c)); break;
    case EQ: case ULT: case ULE: case SLT: case SLE: case NOT: case FEQ: case FLT: case FLE: case FUNO: boolc:
      r=Z3_mk_ite(zc,zbool(e),Z3_mk_unsigned_int64(zc,1,bvs(1)),Z3_mk_unsigned_int64(zc,0,bvs(1))); break;
    case FPTOSI: r=Z3_mk_fpa_to_sbv(zc,Z3_mk_fpa_rtz(zc),zfp(e->a),w); break; case FPTOUI: r=Z3_mk_fpa_to_ubv(zc,Z3_mk_fpa_rtz(zc),zfp(e->a),w); break;
    case UF: case FREM: { std::string n= e->op==FREM?"frem":(*ufNames)[e->k]; n+=std::to_string(w); Z3_sort d[2]={bvs(e->a->w),bvs(e->a->w)}; Z3_func_decl f=Z3_mk_func_decl(zc,Z3_mk_string_symbol(zc,n.c_str()),e->b?2:1,d,bvs(w)); Z3_ast av[2]={zx(e->a),e->b?zx(e->b):0}; r=Z3_mk_app(zc,f,e->b?2:1,av); } break;
    default: r=Z3_mk_fpa_to_ieee_bv(zc,zfp(e)); break;
  }
  return e->z=r;
}
static void collectUF(E*e,std::set<E*>&seen,std::vector<E*>&out){ if(!e->uf||!seen.insert(e).second) return; if(e->op==UF||e->op==FREM) out.push_back(e); for(E*x:{e->a,e->b,e->c}) if(x) collectUF(x,seen,out); }
static void zerr(Z3_context c,Z3_error_code e){ fatal(std::string("z3 error: ")+Z3_get_error_msg(c,e)); }
static void zinit(){ Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); zc=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(zc,zerr); }
// 1 sat, 0 unsat
struct ClassicLocale { std::locale old; ClassicLocale():old(std::locale::global(std::locale::classic())){} ~ClassicLocale(){ std::locale::global(old); } };
static int query(E*q,std::vector<u64>&model,bool isAssert){ ClassicLocale cl; /* the solver's own streams must not run instrumented facets */
  if(isK(q)){ st.trivial++; if(q->k){ model=curVals(); } return q->k?1:0; }
  // independence slice
  std::vector<u64> sup=q->sup->w; std::vector<E*> sl; std::vector<char> used(pc->size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pc->size();++i) if(!used[i]&&bsIntersects((*pc)[i]->sup->w,sup)){ used[i]=1; ch=true; auto&b=(*pc)[i]->sup->w; if(sup.size()<b.size()) sup.resize(b.size()); for(size_t j=0;j<b.size();++j) sup[j]|=b[j]; } }
  bool fp=q->fp; bool uf=q->uf; for(size_t i=0;i<pc->size();++i) if(used[i]){ sl.push_back((*pc)[i]); fp|=(*pc)[i]->fp; uf|=(*pc)[i]->uf; }
  sl.push_back(q);
  double t0=now(); inSolver=true;
  Z3_solver s;
  if(fp){ st.fpQ++; if(!zsFP){ zsFP=Z3_mk_solver(zc); Z3_solver_inc_ref(zc,zsFP);} Z3_tactic t=0; if(!uf){ t=Z3_mk_tactic(zc,"qffpbv"); Z3_tactic_inc_ref(zc,t); s=Z3_mk_solver_from_tactic(zc,t); } else s=Z3_mk_solver(zc); Z3_solver_inc_ref(zc,s); }
  else { if(!zsBV){ zsBV=Z3_mk_solver_for_logic(zc,Z3_mk_string_symbol(zc,"QF_BV")); Z3_solver_inc_ref(zc,zsBV);} s=zsBV; Z3_solver_reset(zc,s); }
  for(E*l:sl) Z3_solver_assert(zc,s,zbool(l));
  int res=-1;
  for(int round=0;round<40;++round){
    Z3_lbool r=Z3_solver_check(zc,s);
    if(r==Z3_L_UNDEF){ inSolver=false; fatal(std::string("solver unknown: ")+Z3_solver_get_reason_unknown(zc,s)); }
    if(r==Z3_L_FALSE){ res=0; break; }
    Z3_model m=Z3_solver_get_model(zc,s); Z3_model_inc_ref(zc,m);
    model=curVals();
    for(size_t i=0;i<vars->size();++i) if(i/64<sup.size()&&(sup[i/64]>>(i%64)&1)){ Z3_ast v; if(Z3_model_eval(zc,m,zx((*vars)[i].e),true,&v)){ u64 x; if(Z3_get_numeral_uint64(zc,v,&x)) model[i]=x; } }
    Z3_model_dec_ref(zc,m);
    // every model is validated by the concrete evaluator
    std::unordered_map<E*,u64> memo; bool ok=true; for(E*l:sl) if(!evalUnder(l,model,memo)){ ok=false; break; }
    if(ok){ res=1; break; }
    if(!uf){ inSolver=false; fatal("model validation failed (solver model does not satisfy the encoding)"); }
    // instantiate the uninterpreted functions at the model's arguments and ask again
    std::set<E*> seen; std::vector<E*> ufs; for(E*l:sl) collectUF(l,seen,ufs);
    for(E*u:ufs){ u64 a=evalUnder(u->a,model,memo),b=u->b?evalUnder(u->b,model,memo):0; u64 v=evalUnder(u,model,memo);
      Z3_ast ante=Z3_mk_eq(zc,zx(u->a),Z3_mk_unsigned_int64(zc,a,bvs(u->a->w))); if(u->b){ Z3_ast t[2]={ante,Z3_mk_eq(zc,zx(u->b),Z3_mk_unsigned_int64(zc,b,bvs(u->b->w)))}; ante=Z3_mk_and(zc,2,t); }
      Z3_solver_assert(zc,s,Z3_mk_implies(zc,ante,Z3_mk_eq(zc,zx(u),Z3_mk_unsigned_int64(zc,v,bvs(u->w))))); }
  }
  if(fp) Z3_solver_dec_ref(zc,s);
  inSolver=false; double dt=now()-t0; st.solver+=dt; if(dt>st.maxQ) st.maxQ=dt; if(optTrace){ fprintf(stderr,"query %.3fs r=%d assert=%d slice=%zu %s\n",dt,res,isAssert,sl.size(),show(q,12).c_str()); if(dt>0.03) for(E*l:sl) fprintf(stderr,"    & %s\n",show(l,6).c_str()); }
  if(res<0) fatal("uninterpreted function refinement did not converge");
  (isAssert?st.assertQ:st.branchQ)++; (res?st.sat:st.unsat)++;
  return res;
}

// ------------------------------------------------------------------ decisions
// A literal assumed on this path narrows the value ranges used by later simplifications.
static void setS(E*e,i64 lo,i64 hi,int d=0);
static void setRange(E*e,u64 lo,u64 hi,int d=0);
static void down(E*e,int d){ u64 m=maskw(e->w); u64 nl=e->lo,nh=e->hi; typedef __int128 q; q L=-((q)1<<(e->w-1)),H=((q)1<<(e->w-1))-1;
  switch(e->op){
    case ADD: if(isK(e->b)){ E*a=e->a; u64 l=(nl-e->b->k)&m,h=(nh-e->b->k)&m; if(l<=h) setRange(a,l,h,d+1); else { bool hp=a->hi>=l,lp=a->lo<=h; if(hp&&!lp) setRange(a,l,m,d+1); else if(lp&&!hp) setRange(a,0,h,d+1); }
        i64 k=e->b->slo; if((q)a->slo+k>=L&&(q)a->shi+k<=H){ q sl=(q)e->slo-k,sh=(q)e->shi-k; setS(a,(i64)std::max(sl,L),(i64)std::min(sh,H),d+1); } } break;
    case SUB: if(isK(e->a)){ E*b=e->b; u64 l=(e->a->k-nh)&m,h=(e->a->k-nl)&m; if(l<=h) setRange(b,l,h,d+1); i64 k=e->a->slo; if((q)k-b->shi>=L&&(q)k-b->slo<=H){ q sl=(q)k-e->shi,sh=(q)k-e->slo; setS(b,(i64)std::max(sl,L),(i64)std::min(sh,H),d+1); } } break;
    case ZEXT: if(nl<=maskw(e->a->w)) setRange(e->a,nl,std::min(nh,maskw(e->a->w)),d+1); break;
    case SEXT: { i64 al=e->a->w>=64?INT64_MIN:-(i64)(1ull<<(e->a->w-1)),ah=(i64)(maskw(e->a->w)>>1); if(e->slo<=ah&&e->shi>=al) setS(e->a,std::max(e->slo,al),std::min(e->shi,ah),d+1); } break;
    case EXTRACT: if(e->k==0&&e->a->hi<=m) setRange(e->a,nl,nh,d+1); break;
    default: break;
  } }
static void setRange(E*e,u64 lo,u64 hi,int d){
  if(lo>hi||d>8||isK(e)) return; upd(e); u64 nl=std::max(lo,e->lo),nh=std::min(hi,e->hi); if(nl>nh||(nl==e->lo&&nh==e->hi)) return;
  e->lo=nl; e->hi=nh; crossRange(e); ++rangeVer; down(e,d); }
static void setS(E*e,i64 lo,i64 hi,int d){
  if(lo>hi||d>8||isK(e)) return; upd(e); i64 nl=std::max(lo,e->slo),nh=std::min(hi,e->shi); if(nl>nh||(nl==e->slo&&nh==e->shi)) return;
  e->slo=nl; e->shi=nh; crossRange(e); ++rangeVer; down(e,d); }
static void refine(E*l){
  bool pos=true; if(l->op==NOT){ pos=false; l=l->a; } E*a=l->a,*b=l->b;
  switch(l->op){
    case AND: if(pos&&l->w==1){ refine(a); refine(b);} break;
    case OR: if(!pos&&l->w==1){ refine(mkNot(a)); refine(mkNot(b)); } break;
    case EQ: if(isK(b)){ if(pos) setRange(a,b->k,b->k); else { if(a->lo==b->k&&a->lo<a->hi) setRange(a,a->lo+1,a->hi); else if(a->hi==b->k&&a->lo<a->hi) setRange(a,a->lo,a->hi-1); if(a->slo==b->slo&&a->slo<a->shi) setS(a,a->slo+1,a->shi); else if(a->shi==b->slo&&a->slo<a->shi) setS(a,a->slo,a->shi-1); } } break;
    case ULT: case ULE: { bool strict=l->op==ULT; E*x=a,*y=b; if(!pos){ x=b;y=a; strict=!strict; } // x < y or x <= y
      if(!strict||y->hi>0) setRange(x,0,strict?y->hi-1:y->hi); if(!strict||x->lo<~0ull) setRange(y,strict?x->lo+1:x->lo,maskw(y->w)); } break;
    case SLT: case SLE: { bool strict=l->op==SLT; E*x=a,*y=b; if(!pos){ x=b;y=a; strict=!strict; }
      if(!strict||y->shi>INT64_MIN) setS(x,x->slo,strict?y->shi-1:y->shi); if(!strict||x->slo<INT64_MAX) setS(y,strict?x->slo+1:x->slo,y->shi); } break;
    default: break;
  }
}
static void pushLit(E*l){ pc->push_back(l); refine(l); }
static void mix(u64 v){ dhash=(dhash^v)*1099511628211ull; dhash^=dhash>>29; }
static u64 mixed(u64 h,u64 v){ h=(h^v)*1099511628211ull; h^=h>>29; return h; }
static void selfFail(const char*what,E*e){ fatal(std::string("internal: unsound ")+what+" "+show(e,4)); }
static void assumeLit(E*l){ if(isK(l)){ if(!l->k) fatal("internal: contradictory path condition"); return; } pushLit(l); }
static bool uninitMatters(E*c);
static std::string show(E*e,int d){ static const char*n[]={"const","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","zext","sext","extract","concat","ite","eq","ult","ule","slt","sle","not","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","fround","feq","flt","fle","funo","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc","uf"};
  if(e->op==CONST) return std::to_string(e->k); if(e->op==VAR) return "v"+std::to_string(e->k); if(d<=0) return "..."; std::string s=std::string("(")+n[e->op]; if(e->op==EXTRACT||e->op==ZEXT||e->op==SEXT) s+=std::to_string(e->k)+":"+std::to_string(e->w); for(E*x:{e->a,e->b,e->c}) if(x) s+=" "+show(x,d-1); return s+")"; }
static void decide(E*cond,u64 site,bool noflip=false){ // cond is 1 bit; its concrete value is cond->cv
  if(isK(cond)) return;
  if(cond->uninit&&uninitMatters(cond)){ sendViol("uninit","a branch depends on uninitialised memory",curVals()); finish(0); }
  if(cond->uninit) return;
  st.decs++; if(optTrace) fprintf(stderr,"dec %u h=%llx site %llx -> %d  %s\n",ndec,(unsigned long long)dhash,(unsigned long long)site,(int)cond->cv,show(cond).c_str());
  bool v=cond->cv; E*lit=v?cond:mkNot(cond);
  u32 i=ndec++; u64 hBefore=dhash; mix(site*2+v);
  if(i+1<cur.prefix){ pushLit(lit); return; }
  if(i+1==cur.prefix){ if(dhash!=cur.hash) fatal("divergence: replayed path differs from the solver's prediction at decision "+std::to_string(i)+" (predicted by "+vecText(cur.par)+")"); pushLit(lit); return; }
  if(noflip){ pushLit(lit); return; }
  std::vector<u64> m; int r=query(mkNot(lit),m,false);
  if(r) sendItem(ndec,mixed(hBefore,site*2+!v),{},m);
  pushLit(lit);
}
static void pinVal(E*e,u64 site){
  if(isK(e)) return;
  if(e->uninit){ if(uninitMatters(e)){ sendViol("uninit","an address, size or callee depends on uninitialised memory",curVals()); finish(0);} return; }
  st.decs++; u64 v=e->cv; E*eq=mkEq(e,K(v,e->w)); if(isK(eq)) return;
  if(optTrace) fprintf(stderr,"pin %u h=%llx site %llx -> %llu  %s\n",ndec,(unsigned long long)dhash,(unsigned long long)site,(unsigned long long)v,show(e).c_str());
  u32 i=ndec++; u64 hb=dhash; mix(site*2+1); u64 hAfter=mixed(hb,site*2+1);
  std::vector<u64> excl; bool query_=true;
  if(i+1<cur.prefix) query_=false; else if(i+1==cur.prefix){ if(dhash!=cur.hash) fatal("divergence at a concretisation"); excl=cur.excl; }
  mix(v); 
  if(query_){ E*ne=K(1,1); for(u64 x:excl) ne=mkBin(AND,ne,mkNot(mkEq(e,K(x,e->w)))); ne=mkBin(AND,ne,mkNot(eq)); std::vector<u64> m; if(query(ne,m,false)){ excl.push_back(v); sendItem(ndec,hAfter,excl,m); } }
  pushLit(eq);
}
static bool uninitMatters(E*c){ // does the value change with the uninitialised bytes alone?
  // syntactic dependence is confirmed semantically: two copies of the uninitialised variables
  if(c->w!=1) return true; // conservative for addresses
  std::vector<u64> m; 
  // fix inputs to the current path; the flip must be reachable by varying only uninit vars under the current inputs
  std::vector<u64> as=curVals(); E*q= c->cv?mkNot(c):c; 
  for(size_t i=0;i<vars->size();++i) if(!(*vars)[i].isUninit){ u64 b=i/64; if(b<c->sup->w.size()&&(c->sup->w[b]>>(i%64)&1)) q=mkBin(AND,q,mkEq((*vars)[i].e,K(as[i],(*vars)[i].w))); }
  bool u=false; size_t n=pc->size(); (void)n; 
  std::vector<E*> save; save.swap(*pc); int r=query(q,m,true); save.swap(*pc); u=r;
  return u;
}

// ------------------------------------------------------------------ shadow memory
struct Page { E* b[4096]; u32 n; };
static E* const UNINIT=(E*)1;
static std::unordered_map<u64,Page*>* pages; static u64 lastPg=~0ull; static Page* lastP=nullptr;
static inline Page* pageOf(u64 a,bool create){ u64 p=a>>12; if(p==lastPg&&(lastP||!create)) return lastP; auto it=pages->find(p); Page*r=nullptr; if(it!=pages->end()) r=it->second; else if(create){ r=(Page*)calloc(1,sizeof(Page)); (*pages)[p]=r; } lastPg=p; lastP=r; return r; }
static E* freshUninit(u64 addr);
static inline E* getB(u64 a){ Page*p=pageOf(a,false); if(!p) return nullptr; E*e=p->b[a&4095]; if(!e) return nullptr; if(e==UNINIT) return (p->b[a&4095]=freshUninit(a)); if(e->cv!=*(u8*)a){ if(optTrace) fprintf(stderr,"drop stale %llx %s\n",(unsigned long long)a,show(e).c_str()); p->b[a&4095]=nullptr; return nullptr; } return e; }
static inline void setB(u64 a,E*e){ Page*p=pageOf(a,e!=nullptr); if(!p) return; if(e&&e!=UNINIT&&isK(e)) e=nullptr; p->b[a&4095]=e; }
static void clearR(u64 a,u64 n){ while(n){ Page*p=pageOf(a,false); u64 k=std::min<u64>(n,4096-(a&4095)); if(p) memset(&p->b[a&4095],0,k*sizeof(E*)); a+=k;n-=k; } }
static void uninitR(u64 a,u64 n){ for(u64 i=0;i<n;++i){ Page*p=pageOf(a+i,true); p->b[(a+i)&4095]=UNINIT; } }
static E* freshUninit(u64 addr){ u64 id=vars->size(); E*e=raw(VAR,8,0,0,0,id); e->cv=*(u8*)addr; e->uninit=true; std::vector<u64> b(id/64+1); b[id/64]|=1ull<<(id%64); e->sup=bsMake(b); vars->push_back({8,"uninit",e,true}); return e; }
// heap arena with redzones
static u8* arena=nullptr; static u8* arenaMap=nullptr; static const u64 ARENA=8ull<<30; static u64 arenaPos=64;
static std::map<u64,u64>* heapObjs; static std::map<u64,std::pair<u64,int>>* globals; static std::vector<std::pair<u64,u64>>* allocas;
static std::vector<std::pair<u64,u64>>* extObjs;
static inline bool inArena(u64 a){ return a-(u64)arena<ARENA; }
static void arenaInit(){ if(arena) return; arena=(u8*)mmap((void*)0x600000000000ull,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); arenaMap=(u8*)mmap(0,ARENA/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
static void memViolation(const char*what,u64 a,u64 n){ char b[200]; snprintf(b,200,"%s (access of %llu bytes)",what,(unsigned long long)n); (void)a; if(!inChild){ fprintf(stderr,"symx: %s outside exploration\n",b); _exit(70);} sendViol("memory",b,curVals()); finish(0); }
static inline void checkAcc(u64 a,u64 n){ if(!inArena(a)) { if(a<4096) memViolation("null pointer access",a,n); return; } st.memchk++; u64 e=a+n; u64 o=a-(u64)arena; while(a<e){ u8 s=arenaMap[o>>3]; u64 gEnd=(a&~7ull)+8; u64 upto=std::min(e,gEnd); if(s==0xFF) memViolation("use of freed heap memory",a,n); if(s==0||(upto-(a&~7ull))>s) memViolation("heap access out of bounds",a,n); o+=upto-a; a=upto; } }
static void initTables(){ static bool done=false; if(done) return; done=true; etab=new ETab; etab->reserve(1<<14); bstab=new std::map<std::vector<u64>,BS*>; bsEmpty=bsMake({}); vars=new std::vector<VarInfo>; pc=new std::vector<E*>; pages=new std::unordered_map<u64,Page*>; heapObjs=new std::map<u64,u64>; globals=new std::map<u64,std::pair<u64,int>>; allocas=new std::vector<std::pair<u64,u64>>; extObjs=new std::vector<std::pair<u64,u64>>; ufNames=new std::vector<std::string>; arenaInit(); }
static bool objectOf(u64 a,u64&base,u64&size){
  if(inArena(a)){ auto it=heapObjs->upper_bound(a); if(it==heapObjs->begin()) return false; --it; if(a<it->first+std::max<u64>(it->second,1)){ base=it->first;size=it->second; return true; } return false; }
  auto it=globals->upper_bound(a); if(it!=globals->begin()){ --it; if(a<it->first+it->second.first){ base=it->first; size=it->second.first; return true; } }
  for(auto&p:*extObjs) if(a>=p.first&&a<p.first+p.second){ base=p.first;size=p.second; return true; }
  for(size_t i=allocas->size();i-->0;) if(a>=(*allocas)[i].first&&a<(*allocas)[i].first+(*allocas)[i].second){ base=(*allocas)[i].first;size=(*allocas)[i].second; return true; }
  return false;
}
static E* loadRaw(u64 a,unsigned n){ // little endian, null if fully concrete
  E*bs[8]; bool any=false; for(unsigned i=0;i<n;++i){ bs[i]=getB(a+i); any|=bs[i]!=nullptr; } if(!any) return nullptr;
  E*r=nullptr; for(unsigned i=0;i<n;++i){ E*x=bs[i]?bs[i]:K(*(u8*)(a+i),8); r=r?mkConcat(x,r):x; } return r;
}
struct FuncRec { const char*name,*file; u32 line,seen; void*next; };

static u64 iEnterCount=0;
// ------------------------------------------------------------------ instrumentation entry points
#define VIS __attribute__((visibility("default")))
extern "C" { VIS void* __sx_callee=nullptr; VIS u32 __sx_slots=0; VIS void* __sx_args[256]={0}; VIS void* __sx_ret[64]={0}; }
// A call that reached instrumented code through an uninstrumented function: what that function was given must not be symbolic.
static void*nativeFn[256]; static u32 nNativeFn=0;
static bool isNativeFn(void*f){ for(u32 i=0;i<nNativeFn;++i) if(nativeFn[i]==f) return true; return false; }
static void bypassed(void*callee);
API bool __sx_enter(void*self,FuncRec*r){ bool v=__sx_callee==self; if(!v&&__sx_callee) bypassed(__sx_callee); __sx_callee=nullptr; if(!r->seen){ r->seen=1; if(inChild){ Msg m; m.u((u64)r); m.send('F'); } } ++iEnterCount; return v; }
API void __sx_frame(void*fa){ initTables(); while(!allocas->empty()&&allocas->back().first<(u64)fa) allocas->pop_back(); }
API void __sx_alloca(void*p,u64 n){ initTables(); allocas->push_back({(u64)p,n}); if(optUninit&&inChild) uninitR((u64)p,n); else clearR((u64)p,n); }
API void __sx_clear(void*p,u64 n){ initTables(); 
  // lifetime.start: size taken from the registered alloca
  for(size_t i=allocas->size();i-->0;) if((*allocas)[i].first==(u64)p){ n=(*allocas)[i].second; break; }
  if(optUninit&&inChild) uninitR((u64)p,n); else clearR((u64)p,n); }
API void __sx_global(void*p,u64 n,u32 c){ initTables(); (*globals)[(u64)p]={n,(int)c}; }
API void __sx_byval(void*dst,void*src,u64 n){ if(!src||src==dst) return; for(u64 i=0;i<n;++i){ E*e=getB((u64)src+i); setB((u64)dst+i,e); } }
static E* sh(E*e,u64 v,unsigned w){ return e?e:K(v,w); }
static const Op OPS[13]={ADD,SUB,MUL,UDIV,SDIV,UREM,SREM,AND,OR,XOR,SHL,LSHR,ASHR};
static E* nz(E*e){ return e&&isK(e)?nullptr:e; }
API E* __sx_bin(u32 op,u32 w,E*a,u64 av,E*b,u64 bv){
  if(!a&&!b) return nullptr; E*x=sh(a,av,w),*y=sh(b,bv,w);
  if(op<13){
    if(op>=3&&op<=6&&b){ E*c=mkNot(mkEq(y,K(0,w))); decide(c,0x1234567ull+op); if(!c->cv){ sendViol("trap","integer division by zero",curVals()); finish(0);} }
    return nz(mkBin(OPS[op],x,y)); }
  if(op>=20&&op<=24){ static const Op fo[5]={FADD,FSUB,FMUL,FDIV,FREM}; if(op==24){ return nz(raw(FREM,w,x,y,0,0)); } return nz(mkFBin(fo[op-20],x,y)); }
  fatal("unknown binary op");
}
API E* __sx_fneg(u32 w,E*a){ (void)w; return a?nz(mkFNeg(a)):nullptr; }
API E* __sx_cmp(u32 p,u32 w,E*a,u64 av,E*b,u64 bv){
  if(!a&&!b) return nullptr; E*x=sh(a,av,w),*y=sh(b,bv,w); E*r;
  if(p>=100) switch(p-100){ case 0:r=mkEq(x,y);break; case 1:r=mkNot(mkEq(x,y));break; case 2:r=mkCmp(ULT,y,x);break; case 3:r=mkCmp(ULE,y,x);break; case 4:r=mkCmp(ULT,x,y);break; case 5:r=mkCmp(ULE,x,y);break;
    case 6:r=mkCmp(SLT,y,x);break; case 7:r=mkCmp(SLE,y,x);break; case 8:r=mkCmp(SLT,x,y);break; default:r=mkCmp(SLE,x,y); }
  else { auto uno=[&]{ return mkFCmp(FUNO,x,y); };
    switch(p){ case 0:r=K(0,1);break; case 1:r=mkFCmp(FEQ,x,y);break; case 2:r=mkFCmp(FLT,y,x);break; case 3:r=mkFCmp(FLE,y,x);break; case 4:r=mkFCmp(FLT,x,y);break; case 5:r=mkFCmp(FLE,x,y);break;
      case 6:r=mkBin(AND,mkNot(mkFCmp(FEQ,x,y)),mkNot(uno()));break; case 7:r=mkNot(uno());break; case 8:r=uno();break; case 9:r=mkBin(OR,mkFCmp(FEQ,x,y),uno());break;
      case 10:r=mkNot(mkFCmp(FLE,x,y));break; case 11:r=mkNot(mkFCmp(FLT,x,y));break; case 12:r=mkNot(mkFCmp(FLE,y,x));break; case 13:r=mkNot(mkFCmp(FLT,y,x));break; case 14:r=mkNot(mkFCmp(FEQ,x,y));break; default:r=K(1,1); } }
  return nz(r);
}
API E* __sx_cast(u32 op,E*a,u32 sw,u32 dw){
  if(!a) return nullptr; (void)sw; E*r;
  switch(op){ case 0:r=mkZext(a,dw);break; case 1:r=mkSext(a,dw);break; case 2:r=mkExtract(a,0,dw);break; case 4:r=mkFpToI(true,a,dw);break; case 5:r=mkFpToI(false,a,dw);break; case 6:r=mkSiToFp(a,dw);break; case 7:r=mkUiToFp(a,dw);break; case 8:r=mkFConv(FPEXT,a,dw);break; case 9:r=mkFConv(FPTRUNC,a,dw);break; default: fatal("unknown cast"); }
  return nz(r);
}
API E* __sx_gep(E*acc,u64 accv,E*idx,i64 iv,u32 iw,u64 scale){
  E*base=sh(acc,accv,64); E*i= idx? (iw<64?mkSext(idx,64):(iw>64?mkExtract(idx,0,64):idx)) : K((u64)iv,64);
  return nz(mkBin(ADD,base,mkBin(MUL,i,K(scale,64))));
}
API E* __sx_ite(E*c,bool cv,E*a,u64 av,E*b,u64 bv,u32 w){ if(!c) return cv?a:b; return nz(mkIte(c,sh(a,av,w),sh(b,bv,w))); }
API E* __sx_concat(E*h,u64 hv,u32 hw,E*l,u64 lv,u32 lw){ if(!h&&!l) return nullptr; return nz(mkConcat(sh(h,hv,hw),sh(l,lv,lw))); }
API E* __sx_extract(E*a,u32 lo,u32 w){ return a?nz(mkExtract(a,lo,w)):nullptr; }
API void __sx_branch(E*c,bool v,u64 site){ if(!c) return; if(!inChild) return; if((bool)c->cv!=v) fatal("internal: shadow of a branch condition disagrees with the machine"); decide(c,site); }
API void __sx_pin(E*e,u64 v,u64 site){ if(!e) return; if(e->w<64) v&=maskw(e->w); if(e->cv!=v) fatal("internal: shadow value disagrees with the machine (pin)"); pinVal(e,site); }
API void __sx_switch(E*e,u64 v,u32 w,const u64*t,u32 n,u32 dflt,u64 site){
  if(!e) return; if(e->cv!=(v&maskw(w))) fatal("internal: shadow value disagrees with the machine (switch)");
  // group by destination, in order of first appearance
  std::vector<u32> ids; std::map<u32,E*> g; for(u32 i=0;i<n;++i){ u32 d=t[2*i+1]; if(d==dflt) continue; E*c=mkEq(e,K(t[2*i],w)); auto it=g.find(d); if(it==g.end()){ g[d]=c; ids.push_back(d);} else it->second=mkBin(OR,it->second,c); }
  for(u32 d:ids){ E*c=g[d]; decide(c,site*64+d+1); if(c->cv) return; }
}
static unsigned tz(E*e){ if(isK(e)) return e->k?__builtin_ctzll(e->k):64; switch(e->op){ case SHL: if(isK(e->b)) return std::min<u64>(64,tz(e->a)+e->b->k); return tz(e->a); case MUL: return std::min<unsigned>(64,tz(e->a)+tz(e->b)); case ADD: case SUB: return std::min(tz(e->a),tz(e->b)); case ZEXT: case SEXT: return tz(e->a); case ITE: return std::min(tz(e->b),tz(e->c)); case CONCAT: { unsigned l=tz(e->b); return l>=e->b->w?e->b->w+tz(e->a):l; } default: return 0; } }
static E* tableTree(E*ad,const std::vector<std::pair<u64,E*>>&v,size_t i,size_t j){ if(j-i==1) return v[i].second;
  { bool c=true; unsigned w=v[i].second->w; for(size_t k=i;k<j&&c;++k) c=isK(v[k].second)&&v[k].second->k==((v[i].second->k+(v[k].first-v[i].first))&maskw(w))&&v[k].first-v[i].first==k-i; if(c) return mkBin(ADD,mkExtract(mkBin(SUB,ad,K(v[i].first,64)),0,w),v[i].second); } size_t m=(i+j)/2; E*l=tableTree(ad,v,i,m),*r=tableTree(ad,v,m,j); if(l==r) return l; return mkIte(mkCmp(ULT,ad,K(v[m].first,64)),l,r); }
// Multiway decision: which object (address range) a symbolic address falls in.
static void decideRange(E*ad,u64 lo,u64 hi,u64 site){
  st.decs++; E*in=mkBin(AND,mkCmp(ULE,K(lo,64),ad),mkCmp(ULE,ad,K(hi,64))); if(isK(in)) return;
  if(optTrace) fprintf(stderr,"obj %u site %llx -> %llx..%llx %s\n",ndec,(unsigned long long)site,(unsigned long long)lo,(unsigned long long)hi,show(ad).c_str());
  u32 i=ndec++; mix(site*2+1); u64 hAfter=dhash; std::vector<u64> excl; bool q=true;
  if(i+1<cur.prefix) q=false; else if(i+1==cur.prefix){ if(dhash!=cur.hash) fatal("divergence at an object decision"); excl=cur.excl; }
  mix(lo);
  if(q){ E*ne=mkNot(in); for(size_t k=0;k+1<excl.size();k+=2) ne=mkBin(AND,ne,mkNot(mkBin(AND,mkCmp(ULE,K(excl[k],64),ad),mkCmp(ULE,ad,K(excl[k+1],64))))); std::vector<u64> m; if(query(ne,m,false)){ excl.push_back(lo); excl.push_back(hi); sendItem(ndec,hAfter,excl,m); } }
  pushLit(in);
}
// returns true if a symbolic table load was built in out
static bool symAddrLoad(E*ad,u64 a,unsigned n,u64 site,E*&out){
  u64 base,size; bool found=objectOf(a,base,size)&&size>=n&&a<=base+size-n;
  if(!found){ decideRange(ad,a,a,site^0xABCDull); return false; }
  u64 last=base+size-n;
  if(!(ad->lo>=base&&ad->hi<=last)) decideRange(ad,base,last,site^0xABCDull);
  u64 lo=std::max(base,ad->lo),hi=std::min(last,ad->hi);
  unsigned stride=1; unsigned z=tz(mkBin(SUB,ad,K(a,64))); if(z>0&&z<12) stride=1u<<z; else if(z>=12) stride=4096;
  std::vector<std::pair<u64,E*>> v; u64 first=lo; if(stride>1){ u64 r=(a-lo)%stride; first=lo+r; }
  if((hi-first)/stride>1100) return false;
  for(u64 p=first;p<=hi;p+=stride){ E*x=loadRaw(p,n); if(!x){ u64 t=0; memcpy(&t,(void*)p,n); x=K(t,n*8);} v.push_back({p,x}); }
  if(v.empty()) return false; out=tableTree(ad,v,0,v.size()); return true;
}
API E* __sx_load(void*p,u32 n,u32 w,E*as,u64 site){
  u64 a=(u64)p; 
  if(as&&inChild){ if(as->cv!=a) fatal("internal: address shadow disagrees with the machine (load)"); 
    checkAcc(a,n);
    E*o; if(w&&n<=8&&!as->uninit&&symAddrLoad(as,a,n,site,o)){ if(w<n*8) o=mkExtract(o,0,w); return nz(o); }
    pinVal(as,site); }
  checkAcc(a,n);
  if(n>8||!w){ for(u32 i=0;i<n;++i){ E*e=getB(a+i); if(e) fatal("unsupported: wide or exotic-typed load of symbolic memory"); } return nullptr; }
  if(!pageOf(a,false)&&!pageOf(a+n-1,false)) return nullptr;
  E*e=loadRaw(a,n); if(!e) return nullptr; if(w<n*8) e=mkExtract(e,0,w); return nz(e);
}
static E* byteOf(E*v,unsigned i){ if(v->w>8&&(v->op==ADD||v->op==SUB||v->op==MUL||v->op==UDIV||v->op==UREM)) return raw(EXTRACT,8,v,0,0,i*8); return mkExtract(v,i*8,8); }
API void __sx_store(void*p,u32 n,u32 w,E*as,E*v,u64 site){
  u64 a=(u64)p; if(as&&inChild){ if(as->cv!=a) fatal("internal: address shadow disagrees with the machine (store)"); checkAcc(a,n); pinVal(as,site); }
  checkAcc(a,n);
  if(!v){ clearR(a,n); return; }
  if(w<n*8) v=mkZext(v,n*8);
  for(u32 i=0;i<n;++i) setB(a+i,byteOf(v,i));
}
static void copyShadow(u64 d,u64 s,u64 n){ if(d==s||!n) return; if(d<s||d>=s+n){ for(u64 i=0;i<n;++i){ Page*p=pageOf(s+i,false); E*e=p?p->b[(s+i)&4095]:nullptr; if(e&&e!=UNINIT&&e->cv!=*(u8*)(s+i)) e=nullptr; setB(d+i,e);} } else for(u64 i=n;i-->0;){ Page*p=pageOf(s+i,false); E*e=p?p->b[(s+i)&4095]:nullptr; if(e&&e!=UNINIT&&e->cv!=*(u8*)(s+i)) e=nullptr; setB(d+i,e);} }
API void __sx_copyshadow(void*d,void*s,u64 n){ if(!n) return; checkAcc((u64)d,n); checkAcc((u64)s,n); copyShadow((u64)d,(u64)s,n); }
API void __sx_setshadow(void*d,E*v,u64 n){ if(!n) return; checkAcc((u64)d,n); if(!v){ clearR((u64)d,n); return; } v=mkExtract(v,0,8); for(u64 i=0;i<n;++i) setB((u64)d+i,v); }
API void __sx_unsup(E*e,const char*what){ if(e) fatal(std::string("unsupported on symbolic data: ")+what); }
API void __sx_trap(u32 k){ if(!inChild) abort(); char b[64]; snprintf(b,64,"undefined behaviour trap (sanitizer check %u)",k); sendViol("trap",b,curVals()); finish(0); }
API E* __sx_libm(const char*n,u32 w,E*a,u64 av,E*b,u64 bv){
  if(!a&&!b) return nullptr; std::string nm=n; E*x=sh(a,av,w); E*y=nullptr;
  auto base=nm; if(w==32&&base.back()=='f') base.pop_back();
  if(base=="sqrt") return nz(isK(x)?K(evalOp(FSQRT,w,0,x,0,0,x->k,0,0),w):raw(FSQRT,w,x,0,0,0)); if(base=="fabs") return nz(mkFAbs(x));
  if(base=="floor") return nz(mkFRound(0,x)); if(base=="ceil") return nz(mkFRound(1,x)); if(base=="trunc") return nz(mkFRound(2,x)); if(base=="rint"||base=="nearbyint") return nz(mkFRound(3,x)); if(base=="round") return nz(mkFRound(4,x));
  static const std::set<std::string> two={"atan2","pow","fmod","hypot"}; if(base=="fmin"||base=="fmax"){ y=sh(b,bv,w); E*xn=mkFCmp(FUNO,x,x),*yn=mkFCmp(FUNO,y,y); E*c= base=="fmin"?mkFCmp(FLT,x,y):mkFCmp(FLT,y,x); return nz(mkIte(xn,y,mkIte(yn,x,mkIte(c,x,y)))); }
  if(two.count(base)) y=sh(b,bv,w);
  u64 id=0; for(;id<ufNames->size();++id) if((*ufNames)[id]==nm) break; if(id==ufNames->size()) ufNames->push_back(nm);
  return raw(UF,w,x,y,0,id);
}
static E* E1(E*a){ return a; }
API E* __sx_intr(u32 op,u32 w,E*a,u64 av,E*b,u64 bv,E*c,u64 cv){
  if(!a&&!b&&!c) return nullptr; E*x=sh(a,av,w),*y; E*r=nullptr; (void)E1;
  switch(op){
    case 1: y=sh(b,bv,w); r=mkIte(mkCmp(SLT,y,x),x,y); break; case 2: y=sh(b,bv,w); r=mkIte(mkCmp(SLT,x,y),x,y); break; case 3: y=sh(b,bv,w); r=mkIte(mkCmp(ULT,y,x),x,y); break; case 4: y=sh(b,bv,w); r=mkIte(mkCmp(ULT,x,y),x,y); break;
    case 5: r=mkIte(mkCmp(SLT,x,K(0,w)),mkBin(SUB,K(0,w),x),x); break;
    case 6: { r=nullptr; for(unsigned i=0;i<w;i+=8){ E*t=mkExtract(x,i,8); r=r?mkConcat(r,t):t; } } break;
    case 7: { r=K(0,w); for(unsigned i=0;i<w;++i) r=mkBin(ADD,r,mkZext(mkExtract(x,i,1),w)); } break;
    case 8: { r=K(w,w); for(unsigned i=0;i<w;++i) r=mkIte(mkExtract(x,i,1),K(w-1-i,w),r); } break;
    case 9: { r=K(w,w); for(unsigned i=w;i-->0;) r=mkIte(mkExtract(x,i,1),K(i,w),r); } break;
    case 10: case 11: { y=sh(b,bv,w); E*s=sh(c,cv,w); if(!isK(s)){ s=mkBin(UREM,s,K(w,w)); E*is=mkBin(SUB,K(w,w),s); E*f= op==10?mkBin(OR,mkBin(SHL,x,s),mkBin(LSHR,y,is)):mkBin(OR,mkBin(SHL,x,is),mkBin(LSHR,y,s)); r=mkIte(mkEq(s,K(0,w)),op==10?x:y,f); break; }
      unsigned k=s->k%w; if(op==11) k= k? w-k:0; else if(!k){ r=x; break; } if(op==11&&!k){ r=y; break; } r=mkConcat(mkExtract(x,0,w-k),mkExtract(y,w-k,k)); } break;
    case 12: y=sh(b,bv,w); r=mkIte(mkCmp(ULT,x,y),K(0,w),mkBin(SUB,x,y)); break;
    case 13: y=sh(b,bv,w); r=mkBin(ADD,x,y); r=mkIte(mkCmp(ULT,r,x),K(~0ull,w),r); break;
    case 20: r=mkFAbs(x); break; case 21: r=isK(x)?K(evalOp(FSQRT,w,0,x,0,0,x->k,0,0),w):raw(FSQRT,w,x,0,0,0); break; case 22: r=mkFRound(0,x); break; case 23: r=mkFRound(1,x); break; case 24: r=mkFRound(2,x); break; case 25: r=mkFRound(3,x); break; case 26: r=mkFRound(4,x); break;
    case 27: y=sh(b,bv,w); r=mkConcat(mkExtract(y,w-1,1),mkExtract(x,0,w-1)); break;
    case 28: return __sx_libm("fmin",w,a,av,b,bv); case 29: return __sx_libm("fmax",w,a,av,b,bv);
    case 30: r=mkFBin(FADD,mkFBin(FMUL,x,sh(b,bv,w)),sh(c,cv,w)); break;
    case 40: case 41: r=mkBin(ADD,x,sh(b,bv,w)); break; case 42: case 43: r=mkBin(SUB,x,sh(b,bv,w)); break; case 44: case 45: r=mkBin(MUL,x,sh(b,bv,w)); break;
    case 141: y=sh(b,bv,w); r=mkCmp(ULT,mkBin(ADD,x,y),x); break; case 143: y=sh(b,bv,w); r=mkCmp(ULT,x,y); break;
    case 140: case 142: { y=sh(b,bv,w); if(w>=64) { E*s= op==140?mkBin(ADD,x,y):mkBin(SUB,x,y); E*sx=mkExtract(x,w-1,1),*sy=mkExtract(y,w-1,1),*ss=mkExtract(s,w-1,1); if(op==142) sy=mkNot(sy); r=mkBin(AND,mkEq(sx,sy),mkNot(mkEq(sx,ss))); } else { E*s= mkBin(op==140?ADD:SUB,mkSext(x,w+1),mkSext(y,w+1)); r=mkNot(mkEq(mkExtract(s,w,1),mkExtract(s,w-1,1))); } } break;
    case 145: case 144: { y=sh(b,bv,w); if(w<=32){ bool sg=op==144; E*s=mkBin(MUL,sg?mkSext(x,2*w):mkZext(x,2*w),sg?mkSext(y,2*w):mkZext(y,2*w)); r= sg?mkNot(mkEq(mkSext(mkExtract(s,0,w),2*w),s)):mkNot(mkEq(mkExtract(s,w,w),K(0,w))); }
        else if(op==145){ u128 h=(u128)x->hi*y->hi; if(h<=maskw(w)) r=K(0,1); else { E*q=mkBin(UDIV,mkBin(MUL,x,y),mkIte(mkEq(x,K(0,w)),K(1,w),x)); r=mkBin(AND,mkNot(mkEq(x,K(0,w))),mkNot(mkEq(q,y))); } }
        else { i64 al,ah,bl,bh; bool ok=false; if(srange(x,al,ah)&&srange(y,bl,bh)){ __int128 m1=std::max<__int128>(ah,-(__int128)al),m2=std::max<__int128>(bh,-(__int128)bl); if(m1*m2<((__int128)1<<63)) ok=true; } if(ok) r=K(0,1); else fatal("unsupported: 64 bit smul.with.overflow on symbolic data"); } } break;
    default: fatal("unsupported intrinsic on symbolic data");
  }
  return nz(r);
}
static bool hasSym(u64 a,u64 n){ for(u64 i=0;i<n;++i){ Page*p=pageOf(a+i,false); if(!p) { u64 k=4096-((a+i)&4095); i+=k-1; continue; } E*e=p->b[(a+i)&4095]; if(e&&e!=UNINIT&&e->cv==*(u8*)(a+i)) return true; } return false; }
static const char* const NATIVE_OK[]={ "_ZSt29_Rb_tree","_ZSt18_Rb_tree","_ZSt28_Rb_tree","_ZSt20_Rb_tree","_ZNSt8__detail15_List_node_base","_ZNSt8ios_base","_ZNSt6locale","_ZNKSt6locale","__cxa_","_Unwind","_ZNSt9basic_iosIcSt11char_traitsIcEE","_ZNSt12__basic_fileIcE","_ZNSt15__exception_ptr","_ZSt9has_facet","__dynamic_cast","_ZNSt16__numpunct_cache","_ZNSt14__shared_count","pthread_","_ZNKSt8__detail20_Prime_rehash_policy","_ZNKSt5ctypeIcE","_ZNSt9exception","_ZNSt13runtime_error","_ZNSt11logic_error","_ZSt17__verify_grouping","_ZNSt8bad_cast","_ZNSt10bad_typeid", "_ZNKSt9type_info","_ZN9__gnu_cxx","_ZNSt5ctypeIcE", "abort","exit","_Exit","_ZSt9terminatev","__errno_location","_ZSt17current_exception","_ZNSt9type_info","_ZNSt7codecvt","_ZNKSt7codecvt","__assert_fail", nullptr };
static void nativeArgs(void*callee,u32 slots,const char*nm){
  // scalar arguments with a small range are enumerated (one path per value); the call has seen the value of this path
  bool any=false; for(u32 i=0;i<slots&&i<256;++i){ E*e=(E*)__sx_args[i]; if(e&&e!=UNINIT&&!isK(e)){ i64 l,h; if(e->w<=8||e->hi-e->lo<=300||(srange(e,l,h)&&h-l<=300)) pinVal(e,0x1C0+i); else any=true; } }
  if(any){ Dl_info d; if(!nm&&dladdr(callee,&d)) nm=d.dli_sname; fatal(std::string("symbolic argument passed to uninstrumented function ")+(nm?nm:"(indirect)")); }
}
static void bypassed(void*callee){
  __sx_callee=nullptr; if(!inChild) return;
  if(!isNativeFn(callee)&&nNativeFn<256) nativeFn[nNativeFn++]=callee;
  nativeArgs(callee,__sx_slots,nullptr);
}
API void __sx_after(void*callee,u32 slots,const char*name,void*p0,void*p1,void*p2,void*p3,void*p4,void*p5){
  const char*nm=name; 
  if(__sx_callee==callee){ __sx_callee=nullptr; if(!inChild) return; nativeArgs(callee,slots,nm); }
  else if(!nNativeFn||!inChild||!isNativeFn(callee)) return;
  Dl_info di; if(!nm&&dladdr(callee,&di)) nm=di.dli_sname;
  if(nm){ for(auto p=NATIVE_OK;*p;++p) if(!strncmp(nm,*p,strlen(*p))) return; }
  void*ps[6]={p0,p1,p2,p3,p4,p5};
  for(void*p:ps) if(p&&(u64)p>4096){ u64 n=64,base,size; if(objectOf((u64)p,base,size)) n=std::min<u64>(base+size-(u64)p,4096); if(hasSym((u64)p,n)) fatal(std::string("symbolic memory passed to uninstrumented function ")+(nm?nm:"(indirect)")); }
}

// ------------------------------------------------------------------ models of library functions
static E* argE(int i){ return (E*)__sx_args[i]; }
struct CallArgs { E*a[4]; CallArgs(void*self){ bool v=__sx_callee==self; __sx_callee=nullptr; for(int i=0;i<4;++i) a[i]=v?(E*)__sx_args[i]:nullptr; __sx_ret[0]=nullptr; } };
#define ARGS(f) CallArgs A((void*)f)
extern "C" void __libc_free(void*); extern "C" void* __libc_realloc(void*,size_t);
API void* __sx_malloc(size_t n){ initTables(); ARGS(__sx_malloc); if(A.a[0]) { 
    // allocation size: enumerate, but an unbounded size is a finding of its own
    pinVal(A.a[0],0x77); }
  if(n>(1ull<<30)) { if(inChild) fatal("allocation of more than 1 GiB"); }
  u64 al=(n+15)&~15ull; if(arenaPos+al+64>ARENA) fatal("arena exhausted"); u8*p=arena+arenaPos; arenaPos+=al+32; u64 o=p-arena; for(u64 i=0;i<n;i+=8) arenaMap[(o+i)>>3]=std::min<u64>(8,n-i); (*heapObjs)[(u64)p]=n; memset(p,0xA5,std::min<size_t>(n,1<<16)); if(optUninit&&inChild) uninitR((u64)p,n); return p; }
API void __sx_free(void*p){ ARGS(__sx_free); if(A.a[0]) pinVal(A.a[0],0x78); if(!p) return; if(!inArena((u64)p)){ __libc_free(p); return; } auto it=heapObjs->find((u64)p); if(it==heapObjs->end()) memViolation("free of a pointer that is not a live heap block",(u64)p,0); u64 n=it->second; u64 o=(u64)p-(u64)arena; for(u64 i=0;i<n;i+=8) arenaMap[(o+i)>>3]=0xFF; clearR((u64)p,n); heapObjs->erase(it); }
API void* __sx_calloc(size_t a,size_t b){ ARGS(__sx_calloc); for(int i=0;i<2;++i) if(A.a[i]) pinVal(A.a[i],0x79+i); void*p=__sx_malloc(a*b); memset(p,0,a*b); clearR((u64)p,a*b); return p; }
API void* __sx_realloc(void*p,size_t n){ ARGS(__sx_realloc); if(A.a[1]) pinVal(A.a[1],0x7b); if(!p) return __sx_malloc(n); auto it=heapObjs->find((u64)p); if(it==heapObjs->end()) return __libc_realloc(p,n); u64 old=it->second; void*q=__sx_malloc(n); u64 k=std::min<u64>(old,n); memcpy(q,p,k); copyShadow((u64)q,(u64)p,k); __sx_free(p); return q; }
// native libraries may release blocks that instrumented code allocated
extern "C" void __libc_free(void*); extern "C" void* __libc_realloc(void*,size_t);
API void free(void*p){ if(arena&&inArena((u64)p)){ void*c=__sx_callee; __sx_callee=nullptr; __sx_free(p); __sx_callee=c; return; } __libc_free(p); }
API void* realloc(void*p,size_t n){ if(arena&&inArena((u64)p)){ void*c=__sx_callee; __sx_callee=nullptr; void*q=__sx_realloc(p,n); __sx_callee=c; return q; } return __libc_realloc(p,n); }
static void pinArgs(CallArgs&A,int n,u64 site){ for(int i=0;i<n;++i) if(A.a[i]) pinVal(A.a[i],site+i); }
API void* __sx_memcpy(void*d,const void*s,size_t n){ ARGS(__sx_memcpy); pinArgs(A,3,0x100); if(n){ checkAcc((u64)d,n); checkAcc((u64)s,n); copyShadow((u64)d,(u64)s,n); memmove(d,s,n);} return d; }
API void* __sx_memmove(void*d,const void*s,size_t n){ ARGS(__sx_memmove); pinArgs(A,3,0x110); if(n){ checkAcc((u64)d,n); checkAcc((u64)s,n); copyShadow((u64)d,(u64)s,n); memmove(d,s,n);} return d; }
API void* __sx_memset(void*d,int c,size_t n){ ARGS(__sx_memset); if(A.a[0]) pinVal(A.a[0],0x120); if(A.a[2]) pinVal(A.a[2],0x121); if(n){ checkAcc((u64)d,n); memset(d,c,n); if(A.a[1]){ E*v=mkExtract(A.a[1],0,8); for(u64 i=0;i<n;++i) setB((u64)d+i,v);} else clearR((u64)d,n);} return d; }
static E* byteE(u64 a){ E*e=getB(a); return e?e:K(*(u8*)a,8); }
API int __sx_memcmp(const void*p,const void*q,size_t n){ ARGS(__sx_memcmp); pinArgs(A,3,0x130); if(!n) return 0; checkAcc((u64)p,n); checkAcc((u64)q,n);
  bool any=false; E*r=K(0,32); int first=-1; for(size_t i=n;i-->0;){ E*a=byteE((u64)p+i),*b=byteE((u64)q+i); E*eq=mkEq(a,b); if(!isK(eq)||!isK(r)) any=true; r=mkIte(eq,r,mkIte(mkCmp(ULT,a,b),K((u64)-1,32),K(1,32))); }
  (void)first; (void)any; if(!isK(r)) __sx_ret[0]=r; return (int)r->cv; }
API int __sx_bcmp(const void*p,const void*q,size_t n){ ARGS(__sx_bcmp); pinArgs(A,3,0x140); if(!n) return 0; checkAcc((u64)p,n); checkAcc((u64)q,n);
  E*c=K(1,1); for(size_t i=0;i<n;++i) c=mkBin(AND,c,mkEq(byteE((u64)p+i),byteE((u64)q+i))); E*r=mkIte(c,K(0,32),K(1,32)); if(!isK(r)) __sx_ret[0]=r; return (int)r->cv; }
// first index i in [0,n) with cond(i); decided with one branch on existence, result a (possibly symbolic) pointer
API void* __sx_memchr(const void*s,int c,size_t n){ ARGS(__sx_memchr); if(A.a[0]) pinVal(A.a[0],0x150); if(A.a[2]) pinVal(A.a[2],0x152); 
  E*ce=mkExtract(A.a[1]?A.a[1]:K((u32)c,32),0,8);
  bool sym=false; for(size_t i=0;i<n;++i){ checkAcc((u64)s+i,1); E*eq=mkEq(byteE((u64)s+i),ce); if(isK(eq)){ if(eq->k){ return (void*)((u8*)s+i); } continue; } sym=true; break; }
  if(!sym) return nullptr;
  if(isK(ce)){ // search for a constant in symbolic text: the position is decided by branching
    for(size_t i=0;i<n;++i){ E*eq=mkEq(byteE((u64)s+i),ce); decide(eq,0x153); if(eq->cv) return (void*)((u8*)s+i); } return nullptr; }
  { bool aff=n>0&&n<=200; for(size_t i=0;i<n&&aff;++i){ E*t=byteE((u64)s+i); aff=isK(t)&&t->k==((u8*)s)[0]+i; }
    if(aff){ E*off=mkBin(SUB,ce,K(((u8*)s)[0],8)); E*in=mkCmp(ULT,off,K(n,8)); decide(in,0x154); if(!in->cv) return nullptr; E*pos=mkBin(ADD,mkZext(off,64),K((u64)s,64)); if(!isK(pos)) __sx_ret[0]=pos; return (void*)pos->cv; } }
  E*any=K(0,1); E*pos=K((u64)s,64); for(size_t i=n;i-->0;){ E*eq=mkEq(byteE((u64)s+i),ce); any=mkBin(OR,any,eq); pos=mkIte(eq,K((u64)s+i,64),pos); }
  decide(any,0x154); if(!any->cv) return nullptr; if(!isK(pos)) __sx_ret[0]=pos; return (void*)pos->cv; }
API char* __sx_strchr(const char*s,int c){ ARGS(__sx_strchr); if(A.a[0]) pinVal(A.a[0],0x160);
  E*ce=mkExtract(A.a[1]?A.a[1]:K((u32)c,32),0,8);
  // length of s must be concrete first
  size_t n=0; bool symText=false; for(;;++n){ checkAcc((u64)s+n,1); E*b=byteE((u64)s+n); if(!isK(b)) symText=true; if(symText||isK(ce)){ E*eq=mkEq(b,ce); if(!isK(eq)) decide(eq,0x161); if(eq->cv&&(symText||isK(ce))) { return (char*)s+n; } E*z=mkEq(b,K(0,8)); if(!isK(z)) decide(z,0x162); if(z->cv) return nullptr; } else if(b->cv==0) break; }
  E*any=K(0,1); E*pos=K((u64)s,64); for(size_t i=n+1;i-->0;){ E*eq=mkEq(byteE((u64)s+i),ce); any=mkBin(OR,any,eq); pos=mkIte(eq,K((u64)s+i,64),pos); }
  decide(any,0x163); if(!any->cv) return nullptr; if(!isK(pos)) __sx_ret[0]=pos; return (char*)pos->cv; }
API size_t __sx_strlen(const char*s){ ARGS(__sx_strlen); if(A.a[0]) pinVal(A.a[0],0x170); size_t n=0; for(;;++n){ checkAcc((u64)s+n,1); E*b=getB((u64)s+n); if(b){ E*z=mkEq(b,K(0,8)); decide(z,0x171); } if(!s[n]) return n; } }
// character classification in the "C" locale, as expressions
static E* rng(E*c,int lo,int hi){ return mkBin(AND,mkCmp(ULE,K(lo,c->w),c),mkCmp(ULE,c,K(hi,c->w))); }
#define CT(name,expr) API int __sx_##name(int ch){ ARGS(__sx_##name); if(!A.a[0]) return ::name(ch)!=0; E*c=A.a[0]; E*t=(expr); E*r=mkZext(t,32); if(!isK(r)) __sx_ret[0]=r; return (int)r->cv; }
#include <ctype.h>
CT(isalpha,mkBin(OR,rng(c,'A','Z'),rng(c,'a','z'))) CT(isdigit,rng(c,'0','9')) CT(isalnum,mkBin(OR,rng(c,'0','9'),mkBin(OR,rng(c,'A','Z'),rng(c,'a','z'))))
CT(isspace,mkBin(OR,mkEq(c,K(' ',32)),rng(c,9,13))) CT(isupper,rng(c,'A','Z')) CT(islower,rng(c,'a','z')) CT(isxdigit,mkBin(OR,rng(c,'0','9'),mkBin(OR,rng(c,'A','F'),rng(c,'a','f'))))
CT(iscntrl,mkBin(OR,rng(c,0,31),mkEq(c,K(127,32)))) CT(isprint,rng(c,32,126)) CT(isgraph,rng(c,33,126)) CT(ispunct,mkBin(AND,rng(c,33,126),mkNot(mkBin(OR,rng(c,'0','9'),mkBin(OR,rng(c,'A','Z'),rng(c,'a','z'))))))
API int __sx_toupper(int ch){ ARGS(__sx_toupper); if(!A.a[0]) return ::toupper(ch); E*c=A.a[0]; E*r=mkIte(rng(c,'a','z'),mkBin(ADD,c,K((u64)-32,32)),c); __sx_ret[0]=nz(r); return (int)r->cv; }
API int __sx_tolower(int ch){ ARGS(__sx_tolower); if(!A.a[0]) return ::tolower(ch); E*c=A.a[0]; E*r=mkIte(rng(c,'A','Z'),mkBin(ADD,c,K(32,32)),c); __sx_ret[0]=nz(r); return (int)r->cv; }
// files
struct FKey { u64 d,i; bool operator<(const FKey&o) const { return d<o.d||(d==o.d&&i<o.i); } };
static std::map<FKey,std::vector<E*>>* files;
extern "C" long _ZNSt12__basic_fileIcE6xsgetnEPcl(void*,char*,long); extern "C" long _ZNSt12__basic_fileIcE6xsputnEPKcl(void*,const char*,long); extern "C" long _ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l(void*,const char*,long,const char*,long); extern "C" int _ZNSt12__basic_fileIcE2fdEv(void*);
API long __sx_bf_xsgetn(void*f,char*b,long n){ ARGS(__sx_bf_xsgetn); long k=_ZNSt12__basic_fileIcE6xsgetnEPcl(f,b,n); if(k<=0) return k; clearR((u64)b,k); if(!files) return k; int fd=_ZNSt12__basic_fileIcE2fdEv(f); struct stat sb; if(fstat(fd,&sb)) return k; auto it=files->find({(u64)sb.st_dev,(u64)sb.st_ino}); if(it==files->end()) return k; long pos=lseek(fd,0,SEEK_CUR)-k; for(long i=0;i<k;++i) if(pos+i<(long)it->second.size()) setB((u64)b+i,it->second[pos+i]); return k; }
static void noteWrite(int fd,long pos,const char*s,long n){ bool sym=hasSym((u64)s,n); struct stat sb; if(fstat(fd,&sb)) return; FKey k{(u64)sb.st_dev,(u64)sb.st_ino}; if(!files) files=new std::map<FKey,std::vector<E*>>; auto it=files->find(k); if(!sym&&it==files->end()) return; auto&v=(*files)[k]; if((long)v.size()<pos+n) v.resize(pos+n); for(long i=0;i<n;++i) v[pos+i]=getB((u64)s+i); }
API long __sx_bf_xsputn(void*f,const char*s,long n){ ARGS(__sx_bf_xsputn); int fd=_ZNSt12__basic_fileIcE2fdEv(f); long pos=lseek(fd,0,SEEK_CUR); long k=_ZNSt12__basic_fileIcE6xsputnEPKcl(f,s,n); if(k>0&&pos>=0) noteWrite(fd,pos,s,k); return k; }
API long __sx_bf_xsputn_2(void*f,const char*s,long n,const char*t,long m){ ARGS(__sx_bf_xsputn_2); int fd=_ZNSt12__basic_fileIcE2fdEv(f); long pos=lseek(fd,0,SEEK_CUR); long k=_ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l(f,s,n,t,m); if(k>0&&pos>=0){ noteWrite(fd,pos,s,std::min(k,n)); if(k>n) noteWrite(fd,pos+n,t,k-n);} return k; }
API size_t __sx_fread(void*b,size_t z,size_t n,FILE*f){ ARGS(__sx_fread); for(int i=0;i<4;++i) if(A.a[i]) pinVal(A.a[i],0x1f0+i); long pos=ftell(f); size_t k=::fread(b,z,n,f); long got=pos>=0?ftell(f)-pos:(long)(k*z); if(got<=0) return k; clearR((u64)b,got); if(!files) return k; struct stat sb; if(pos<0||fstat(fileno(f),&sb)) return k; auto it=files->find({(u64)sb.st_dev,(u64)sb.st_ino}); if(it==files->end()) return k; for(long i=0;i<got;++i) if(pos+i<(long)it->second.size()) setB((u64)b+i,it->second[pos+i]); return k; }
API size_t __sx_fwrite(const void*b,size_t z,size_t n,FILE*f){ ARGS(__sx_fwrite); for(int i=0;i<4;++i) if(A.a[i]) pinVal(A.a[i],0x1f4+i); bool sym=hasSym((u64)b,z*n); long pos=ftell(f); if(sym&&pos<0) fatal("symbolic data written to a stream"); size_t k=::fwrite(b,z,n,f); if(k&&pos>=0) noteWrite(fileno(f),pos,(const char*)b,k*z); return k; }
// std::istream >> floating point: the text is a C string; symbolic text is enumerated byte by byte
extern "C" double strtod(const char*,char**) noexcept; 
// sign of a zero: valid where the value of e is zero
static E* isZero(E*e); static E* negZ(E*e,int d=0);
static E* isZero(E*e){ if(isK(e)) return K(fpv(e->k,e->w)==0,1); if(IV*v=ivOf(e)) return mkEq(v->e,K(0,v->e->w)); return mkFCmp(FEQ,e,K(0,e->w)); }
static E* isNeg(E*e,int d){ if(isK(e)) return K((e->k>>(e->w-1))&1,1); IV*v=ivOf(e); if(!v) fatal("sign of a zero whose operands are no integers"); E*n=mkCmp(SLT,v->e,K(0,v->e->w)); if(v->lo>0||v->hi<0) return n; return mkBin(OR,n,mkBin(AND,isZero(e),negZ(e,d+1))); }
static E* negZ(E*e,int d){ if(d>200) fatal("sign of a zero too deep"); if(isK(e)) return K((e->k>>(e->w-1))&1,1);
  switch(e->op){ case SITOFP: case UITOFP: return K(0,1); case FPEXT: case FPTRUNC: return negZ(e->a,d+1); case FABS: return K(0,1);
    case FNEG: return mkNot(isNeg(e->a,d+1));
    case FADD: return mkBin(AND,mkBin(AND,isZero(e->a),isZero(e->b)),mkBin(AND,isNeg(e->a,d+1),isNeg(e->b,d+1)));
    case FSUB: return mkBin(AND,mkBin(AND,isZero(e->a),isZero(e->b)),mkBin(AND,isNeg(e->a,d+1),mkNot(isNeg(e->b,d+1))));
    case FMUL: return mkBin(XOR,isNeg(e->a,d+1),isNeg(e->b,d+1));
    case ITE: return mkIte(e->a,negZ(e->b,d+1),negZ(e->c,d+1));
    default: fatal("sign of a zero of unsupported form"); } return nullptr; }
// printing of floating point numbers ("%.*g") that are multiples of a small power of two; text printed this way is read back as the number itself
static std::map<std::vector<E*>,E*>* printed;
#include <cstdarg>
API int __sx_convert_from_v(void*loc,char*out,int size,const char*fmt,...){
  bool v=__sx_callee==(void*)__sx_convert_from_v; __sx_callee=nullptr; E*a[8]; for(int i=0;i<8;++i) a[i]=v?(E*)__sx_args[i]:nullptr; __sx_ret[0]=nullptr; (void)loc;
  va_list ap; va_start(ap,fmt); int nx=0; { for(const char*q=fmt;*q;++q) if(*q=='%'){ ++q; while(*q&&!isalpha((u8)*q)){ if(*q=='*') ++nx; ++q; } ++nx; if(!*q) break; } }
  bool sym=false; for(int i=0;i<4+nx&&i<8;++i) if(a[i]&&!isK(a[i])) sym=true;
  int r=vsnprintf(out,size,fmt,ap); va_end(ap); clearR((u64)out,std::max(0,std::min(size,r+1)));
  if(!sym||!inChild) return r;
  for(int i=0;i<4;++i) if(a[i]) pinVal(a[i],0x1e0+i);
  bool star=nx==2; if(star&&a[4]) pinVal(a[4],0x1e4); E*x=a[star?5:4]; if(!x||isK(x)) return r;
  if(strcmp(fmt,"%.*g")&&strcmp(fmt,"%g")) { if(x->w<=64) pinVal(x,0x1e5); return r; }
  va_start(ap,fmt); int prec=star?va_arg(ap,int):6; va_end(ap); if(prec==0) prec=1;
  IV*iv=ivOf(x); if(!iv||iv->sc>6){ pinVal(x,0x1e6); return r; }
  E*e=iv->e; unsigned w=e->w+1; e=mkSext(e,w); E*neg=mkCmp(SLT,e,K(0,w)); if(!isK(neg)) decide(neg,0x1e7); bool isneg=neg->cv;
  E*m=isneg?mkBin(SUB,K(0,w),e):e; E*ip=m; std::string frac;
  if(iv->sc){ unsigned sc=iv->sc; E*f=mkExtract(mkSext(m,std::max(w,sc+1)),0,sc); if(!isK(f)) pinVal(f,0x1e8); u64 fv=f->cv; while(fv&&frac.size()<20){ fv*=10; frac+=char('0'+(fv>>sc)); fv&=(1ull<<sc)-1; } ip=w>sc?mkBin(LSHR,m,K(sc,w)):K(0,w); }
  E*z=mkEq(ip,K(0,w)); if(!isK(z)) decide(z,0x1e9); bool minus=isneg;
  std::vector<E*> t;
  if(z->cv){ if(frac.empty()){ E*nz_=negZ(x); if(!isK(nz_)) decide(nz_,0x1ea); minus=nz_->cv; } t.push_back(K('0',8)); size_t lead=0; while(lead<frac.size()&&frac[lead]=='0') ++lead; if((int)(frac.size()-lead)>prec) fatal("printed number needs more digits than the precision"); }
  else { unsigned nd=1; u64 p=10; for(;;++nd,p*=10){ if(w<64&&(p>>w)) break; E*lt=mkCmp(ULT,ip,K(p,w)); if(!isK(lt)) decide(lt,0x1eb); if(lt->cv) break; if(nd>18) break; }
    if((int)(nd+frac.size())>prec) fatal("printed number needs more digits than the precision");
    u64 d=1; for(unsigned i=1;i<nd;++i) d*=10; for(unsigned i=0;i<nd;++i,d/=10){ E*q=d>1?mkBin(UDIV,ip,K(d,w)):ip; if(i) q=mkBin(UREM,q,w<4?q:K(10,w)); E*c=w>=8?mkExtract(q,0,8):mkZext(q,8); t.push_back(mkBin(ADD,K('0',8),c)); } }
  if(!frac.empty()){ t.push_back(K('.',8)); for(char c:frac) t.push_back(K((u8)c,8)); }
  if(minus) t.insert(t.begin(),K('-',8));
  if((int)t.size()!=r) fatal("model of printing disagrees with the C library (length)");
  for(size_t i=0;i<t.size();++i){ if((int)i>=size-1) break; if((char)t[i]->cv!=out[i]) fatal("model of printing disagrees with the C library"); setB((u64)out+i,t[i]); }
  bool any=false; for(E*b:t) if(!isK(b)) any=true; if(any){ if(!printed) printed=new std::map<std::vector<E*>,E*>; (*printed)[t]=x; }
  return r; }
static bool readPrinted(const char*s,bool f32,void*out){ size_t n=strlen(s); std::vector<E*> t; bool any=false; for(size_t i=0;i<n;++i){ E*b=byteE((u64)s+i); t.push_back(b); if(!isK(b)) any=true; } if(!any) return false;
  E*x=nullptr; if(printed){ auto it=printed->find(t); if(it!=printed->end()) x=it->second; }
  if(!x){ size_t i=n&&isK(t[0])&&(t[0]->k=='-'||t[0]->k=='+')?1:0; bool neg=i&&t[0]->k=='-'; if(n-i<1||n-i>9||(f32&&n-i>7)) return false; E*v=K(0,40); for(size_t j=i;j<n;++j){ upd(t[j]); if(t[j]->lo<'0'||t[j]->hi>'9') return false; v=mkBin(ADD,mkBin(MUL,v,K(10,40)),mkBin(SUB,mkZext(t[j],40),K('0',40))); }
    E*q=isK(v)?nullptr:v; if(!q) return false; if(neg){ E*zz=mkEq(v,K(0,40)); if(!isK(zz)) decide(zz,0x1ec); if(zz->cv) return false; v=mkBin(SUB,K(0,40),v); } x=mkSiToFp(v,64); }
  double c=strtod(s,nullptr); if(fpv(x->cv,x->w)!=c) fatal("reading a printed number back disagrees with the C library");
  if(f32){ E*y= x->op==FPEXT&&x->a->w==32?x->a:x->w==32?x:mkFConv(FPTRUNC,x,32); float fv=(float)c; memcpy(out,&fv,4); for(int i=0;i<4;++i) setB((u64)out+i,byteOf(y,i)); }
  else { E*y=x->w==64?x:mkFConv(FPEXT,x,64); memcpy(out,&c,8); for(int i=0;i<8;++i) setB((u64)out+i,byteOf(y,i)); }
  return true; }
static void convTo(const char*s,bool f32,void*out,int*err){
  if(inChild&&readPrinted(s,f32,out)) return;
  size_t n=strlen(s); for(size_t i=0;i<=n;++i) if(E*b=getB((u64)s+i)) pinVal(b,0x180);
  char*e; if(!f32){ double v=strtod(s,&e); double r=v; if(e==s||*e){ r=0; *err=4; } else if(std::isinf(v)){ r=v>0?1.7976931348623157e308:-1.7976931348623157e308; *err=4; } clearR((u64)out,8); memcpy(out,&r,8); }
  else { float v=strtof(s,&e); float r=v; if(e==s||*e){ r=0; *err=4; } else if(std::isinf(v)){ r=v>0?3.40282347e38f:-3.40282347e38f; *err=4; } clearR((u64)out,4); memcpy(out,&r,4); }
}
API void __sx_convert_to_d(const char*s,double*v,int*err,void*){ ARGS(__sx_convert_to_d); convTo(s,false,v,err); clearR((u64)err,4); }
API void __sx_convert_to_f(const char*s,float*v,int*err,void*){ ARGS(__sx_convert_to_f); convTo(s,true,v,err); clearR((u64)err,4); }
API size_t __sx_hash_bytes(const void*p,size_t n,size_t seed){ ARGS(__sx_hash_bytes); pinArgs(A,3,0x190); for(size_t i=0;i<n;++i) if(E*b=getB((u64)p+i)) pinVal(b,0x191); u64 h=seed^1469598103934665603ull; for(size_t i=0;i<n;++i) h=(h^((u8*)p)[i])*1099511628211ull; return h; }

// ------------------------------------------------------------------ harness API
static std::map<std::string,std::pair<int,int>>* params; static std::string* scratch; static std::map<std::string,u64>* reached;
static E* newVar(const char*name,unsigned w){ if(!inChild) fatal("symbolic input requested outside exploration"); u64 id=vars->size(); E*e=raw(VAR,w,0,0,0,id); e->cv=(id<cur.vals.size()?cur.vals[id]:0)&maskw(w); std::vector<u64> b(id/64+1); b[id/64]|=1ull<<(id%64); e->sup=bsMake(b); vars->push_back({w,name,e,false}); return e; }
API u64 sx_var(const char*name,unsigned w){ ARGS(sx_var); E*e=newVar(name,w); E*r=mkZext(e,64); __sx_ret[0]=r; return r->cv; }
API i64 sx_range(const char*name,i64 lo,i64 hi){ ARGS(sx_range); u64 span=(u64)(hi-lo); if(!span) return lo; unsigned w=64-__builtin_clzll(span); E*e=newVar(name,w); if(span!=maskw(w)){ E*c=mkCmp(ULE,e,K(span,w)); e->hi=maskw(w); if(!c->cv){ fatal("internal: range constraint violated by an assignment"); } if(!isK(c)) pushLit(c); }
  E*r=mkBin(ADD,mkZext(e,64),K((u64)lo,64)); __sx_ret[0]=r; return (i64)r->cv; }
API void sx_bytes(void*p,size_t n,const char*name){ ARGS(sx_bytes); checkAcc((u64)p,n); for(size_t i=0;i<n;++i){ char b[80]; snprintf(b,80,"%s[%zu]",name,i); E*e=newVar(b,8); ((u8*)p)[i]=e->cv; setB((u64)p+i,e); } }
API void sx_assume(bool c){ ARGS(sx_assume); E*e=A.a[0]; if(!e){ if(!c) finish(0); return; } e=e->w>1?mkNot(mkEq(e,K(0,e->w))):e; decide(e,0xA55Eull,e->cv!=0); if(!e->cv) finish(0); }
API void sx_assert_(bool c,const char*msg){ ARGS(sx_assert_); E*e=A.a[0]; if(!e){ if(ndec>=cur.prefix) st.concAsserts++; if(!c){ sendViol("assert",msg,curVals()); finish(0);} return; }
  e=e->w>1?mkNot(mkEq(e,K(0,e->w))):e; if(e->uninit&&uninitMatters(e)){ sendViol("uninit",std::string("asserted value depends on uninitialised memory: ")+msg,curVals()); finish(0); } 
  if(isK(e)){ st.concAsserts++; if(!e->k){ sendViol("assert",msg,curVals()); finish(0);} return; }
  if(ndec>=cur.prefix){ st.asserts++; std::vector<u64> m; if(!e->cv){ sendViol("assert",msg,curVals()); finish(0); } if(query(mkNot(e),m,true)){ sendViol("assert",msg,m); } }
  if(!e->cv) finish(0); pushLit(e); }
API void sx_fail(const char*msg){ ARGS(sx_fail); sendViol("assert",msg,curVals()); finish(0); }
API void sx_reach(const char*l){ ARGS(sx_reach); if(reached&&(*reached)[l]++==0) { Msg m; m.str(l); m.vec(curVals()); m.send('R'); } }
API int sx_is_symbolic(){ __sx_callee=nullptr; return 1; } API int sx_thorough(){ __sx_callee=nullptr; return optThorough; }
API int sx_param(const char*n,int q,int t){ __sx_callee=nullptr; int v=optThorough?t:q; if(inChild&&!(*params).count(n)){ (*params)[n]={v,0}; Msg m; m.str(n); m.u((u64)(i64)v); m.send('P'); } return v; }
API void sx_known(const char*id){ ARGS(sx_known); Msg m; m.str(id); m.vec(curVals()); m.send('K'); finish(0); }
API void sx_file(const char*path,const void*buf,size_t n){ ARGS(sx_file); int fd=open(path,O_CREAT|O_TRUNC|O_RDWR,0600); if(fd<0) fatal(std::string("cannot create ")+path); size_t o=0; while(o<n){ ssize_t k=write(fd,(char*)buf+o,n-o); if(k<=0) fatal("write"); o+=k; } struct stat sb; fstat(fd,&sb); close(fd); if(!files) files=new std::map<FKey,std::vector<E*>>; auto&v=(*files)[{(u64)sb.st_dev,(u64)sb.st_ino}]; v.clear(); for(size_t i=0;i<n;++i) v.push_back(getB((u64)buf+i)); }
API void sx_object(const void*p,size_t n){ ARGS(sx_object); extObjs->push_back({(u64)p,n}); }
API void sx_note(const char*s){ ARGS(sx_note); if(optVerbose) fprintf(stderr,"note: %s\n",s); }
API const char* sx_scratch(){ __sx_callee=nullptr; return scratch->c_str(); }
API double sx_free_double(const char*name){ ARGS(sx_free_double); E*e=newVar(name,64); __sx_ret[0]=e; return asD(e->cv); }
API u64 sx_concretize(u64 v){ ARGS(sx_concretize); if(A.a[0]) pinVal(A.a[0],0x1A0); return v; }

// ------------------------------------------------------------------ driver
static void onAlarm(int){ sendErr(inSolver?"time limit inside the solver":"HANG"); _exit(inSolver?77:78); }
static struct sigaction oldsa[65];
static void onCrash(int sig){ if(inSolver){ sendErr("crash inside the solver"); _exit(77); } signal(sig,SIG_DFL); raise(sig); }
static void crashHandlers(){ static char stk[65536]; stack_t ss; ss.ss_sp=stk; ss.ss_size=sizeof stk; ss.ss_flags=0; sigaltstack(&ss,nullptr); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onCrash; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGABRT,SIGFPE,SIGILL}) sigaction(s,&sa,&oldsa[s]); }
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
struct Rd { const std::string&s; size_t p; u64 u(){ u64 v; memcpy(&v,s.data()+p,8); p+=8; return v; } std::string str(){ u64 n=u(); std::string r=s.substr(p,n); p+=n; return r; } std::vector<u64> vec(){ u64 n=u(); std::vector<u64> v(n); memcpy(v.data(),s.data()+p,n*8); p+=n*8; return v; } };
static void removeTree(const std::string&d){ std::string c="exec /bin/rm -rf -- '"+d+"'"; if(d.find("/sx-")!=std::string::npos){ int r=system(c.c_str()); (void)r; } }

API void sx_run(void(*mainFn)(void)){
  initTables(); if(getenv("SX_JOBS")) optJobs=atoi(getenv("SX_JOBS")); if(getenv("SX_TIME")) optTime=atof(getenv("SX_TIME")); if(getenv("SX_UNINIT")) optUninit=atoi(getenv("SX_UNINIT")); if(getenv("SX_VERBOSE")) optVerbose=true; if(getenv("SX_MAXPATHS")) optMaxPaths=atol(getenv("SX_MAXPATHS"));
  if(getenv("SX_PATHSECS")) optPathSecs=atoi(getenv("SX_PATHSECS")); if(getenv("SX_MAXVIOL")) optMaxViol=atoi(getenv("SX_MAXVIOL"));
  optThorough=getenv("VERIF_TIER")&&!strcmp(getenv("VERIF_TIER"),"thorough"); const char*out=getenv("SX_OUT");
  params=new std::map<std::string,std::pair<int,int>>; reached=new std::map<std::string,u64>; scratch=new std::string;
  char sb[256]; snprintf(sb,256,"%s/sx-XXXXXX",getenv("SX_TMP")?getenv("SX_TMP"):"/dev/shm"); if(!mkdtemp(sb)){ fprintf(stderr,"mkdtemp failed\n"); _exit(70);} std::string root=sb;
  if(getenv("SX_TRACE")) optTrace=true;
  zinit(); signal(SIGPIPE,SIG_IGN);
  std::vector<Item> work; work.emplace_back(); bool one=false; if(const char*o=getenv("SX_ONE")){ one=true; char*p=(char*)o; while(*p){ work[0].vals.push_back(strtoull(p,&p,10)); while(*p&&!isdigit(*p)) p++; } }
  struct Kid { pid_t pid; int fd; std::string buf; Item it; int slot; bool ended; }; std::vector<Kid> kids; std::vector<bool> slots(optJobs,false); for(int i=0;i<optJobs;++i) mkdir((root+"/"+std::to_string(i)).c_str(),0700);
  double t0=now(); u64 paths=0,maxDec=0,maxNodes=0; Stats T; double maxQ=0; std::vector<std::string> viol,errs; std::map<std::string,int> errCount; std::map<std::string,std::vector<u64>> reachM,knownM; std::map<std::string,i64> parM; std::set<FuncRec*> funcs; std::map<std::string,int> vseen; bool stop=false; std::string why; std::vector<std::string> samples;
  auto vecj=[](const std::vector<u64>&v){ std::string s="["; for(size_t i=0;i<v.size();++i){ if(i) s+=","; s+=std::to_string(v[i]); } return s+"]"; };
  auto addViol=[&](const std::string&kind,const std::string&msg,const std::vector<u64>&vals,const std::string&names){ if(vseen[kind+msg]++<3&&(int)viol.size()<optMaxViol*3){ viol.push_back("{\"kind\":\""+kind+"\",\"msg\":\""+jesc(msg)+"\",\"vals\":"+vecj(vals)+",\"names\":["+names+"]}"); if(optVerbose) fprintf(stderr,"VIOL %s %s\n",kind.c_str(),msg.c_str()); } if((int)vseen.size()>=optMaxViol){ stop=true; why="violations"; } };
  auto handle=[&](Kid&k,char tag,const std::string&body){ Rd r{body,0};
    switch(tag){
      case 'I': { if(one) break; Item it; it.prefix=r.u(); it.hash=r.u(); it.excl=r.vec(); it.vals=r.vec(); it.par=r.vec(); work.push_back(std::move(it)); } break;
      case 'V': { std::string kd=r.str(),m=r.str(); auto v=r.vec(); u64 n=r.u(); std::string nm; for(u64 i=0;i<n;++i){ std::string s=r.str(); u64 w=r.u(); if(i) nm+=","; nm+="\""+jesc(s)+":"+std::to_string(w)+"\""; } addViol(kd,m,v,nm); } break;
      case 'E': { std::string m=r.str(); auto v=r.vec(); if(m=="HANG"){ addViol("hang","path did not terminate within the time limit",v,""); break; } if(errCount[m]++==0){ errs.push_back(m+" vals="+vecj(v)); if(optVerbose) fprintf(stderr,"ERR %s\n",m.c_str()); } if(errCount.size()>5||errCount[m]>20){ stop=true; why="errors"; } } break;
      case 'S': { T.branchQ+=r.u();T.assertQ+=r.u();T.sat+=r.u();T.unsat+=r.u();T.decs+=r.u();T.asserts+=r.u();T.concAsserts+=r.u();T.fpQ+=r.u();T.solver+=r.u()*1e-6;maxQ=std::max(maxQ,r.u()*1e-6); maxDec=std::max<u64>(maxDec,r.u()); maxNodes=std::max<u64>(maxNodes,r.u()); T.memchk+=r.u(); T.trivial+=r.u(); k.ended=true; if(samples.size()<4&&paths%7==0) samples.push_back(vecj(k.it.vals)); } break;
      case 'F': { FuncRec*f=(FuncRec*)r.u(); f->seen=1; funcs.insert(f); } break;
      case 'R': { std::string l=r.str(); if(!reachM.count(l)) reachM[l]=r.vec(); (*reached)[l]=1; } break;
      case 'K': { std::string l=r.str(); if(!knownM.count(l)) knownM[l]=r.vec(); } break;
      case 'P': { std::string l=r.str(); parM[l]=(i64)r.u(); (*params)[l]={0,0}; } break;
    } };
  auto drain=[&](Kid&k){ size_t p=0; while(k.buf.size()-p>=9){ u64 n; memcpy(&n,k.buf.data()+p+1,8); if(k.buf.size()-p-9<n) break; handle(k,k.buf[p],k.buf.substr(p+9,n)); p+=9+n; } k.buf.erase(0,p); };
  double lastRep=t0,firstV=0;
  while((!work.empty()&&!stop)||!kids.empty()){
    if(now()-t0>optTime&&!stop){ stop=true; why="time budget"; } if(!viol.empty()&&!stop){ if(!firstV) firstV=now(); else if(now()-firstV>60){ stop=true; why="violations"; } } if((long)paths>optMaxPaths&&!stop){ stop=true; why="path budget"; }
    if(optVerbose&&now()-lastRep>5){ lastRep=now(); fprintf(stderr,"[%.0fs] paths=%llu work=%zu q=%llu solver=%.1f viol=%zu err=%zu\n",now()-t0,(unsigned long long)paths,work.size(),(unsigned long long)(T.branchQ+T.assertQ),T.solver,viol.size(),errs.size()); }
    if(stop){ for(auto&k:kids) kill(k.pid,SIGKILL); }
    while(!stop&&!work.empty()&&(int)kids.size()<optJobs){
      Item it=std::move(work.back()); work.pop_back(); int fds[2]; if(pipe(fds)){ perror("pipe"); _exit(70);} int slot=0; while(slots[slot]) slot++; slots[slot]=true;
      fcntl(fds[1],F_SETPIPE_SZ,1<<20);
      fflush(stdout); fflush(stderr); pid_t pid=fork(); if(pid<0){ perror("fork"); _exit(70);} 
      if(pid==0){ close(fds[0]); for(auto&k:kids) close(k.fd); childFd=fds[1]; inChild=true; cur=std::move(it); *scratch=root+"/"+std::to_string(slot); { std::function<void(const std::string&)> clean=[&](const std::string&d){ if(DIR*dp=opendir(d.c_str())){ while(dirent*de=readdir(dp)){ std::string nm=de->d_name; if(nm=="."||nm=="..") continue; std::string q=d+"/"+nm; struct stat sb2; if(lstat(q.c_str(),&sb2)) continue; if(S_ISDIR(sb2.st_mode)){ clean(q); rmdir(q.c_str()); } else unlink(q.c_str()); } closedir(dp); } }; clean(*scratch); } if(chdir(scratch->c_str())){}
        crashHandlers(); signal(SIGALRM,onAlarm); alarm(optPathSecs); struct rlimit rl; rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
        if(!optVerbose){ int n=open("/dev/null",O_RDWR); dup2(n,0); dup2(n,1); dup2(n,2); }
        int code=0; bool threw=false; std::string what;
        try{ mainFn(); }catch(std::exception&e){ threw=true; what=e.what(); } catch(...){ threw=true; std::type_info*t=abi::__cxa_current_exception_type(); what=t?t->name():"?"; }
        if(threw){ sendViol("exception",std::string("uncaught exception: ")+what.substr(0,200),curVals()); }
        if(cur.prefix>ndec) fatal("divergence: path ended before its predicted prefix");
        finish(code); }
      close(fds[1]); paths++; kids.push_back({pid,fds[0],"",std::move(it),slot,false}); 
    }
    std::vector<pollfd> pf; for(auto&k:kids) pf.push_back({k.fd,POLLIN,0}); if(pf.empty()) continue; poll(pf.data(),pf.size(),200);
    for(size_t i=kids.size();i-->0;){ if(!pf[i].revents) continue; char b[65536]; ssize_t n=read(kids[i].fd,b,sizeof b); if(n>0){ kids[i].buf.append(b,n); drain(kids[i]); continue; } if(n<0&&errno==EINTR) continue;
      close(kids[i].fd); int stt=0; waitpid(kids[i].pid,&stt,0); slots[kids[i].slot]=false;
      if(!stop){ if(WIFSIGNALED(stt)){ char m[100]; snprintf(m,100,"process died with signal %d (%s)",WTERMSIG(stt),strsignal(WTERMSIG(stt))); if(WTERMSIG(stt)==SIGKILL) errs.push_back("path killed (memory?)"); else addViol("crash",m,kids[i].it.vals,""); } else if(!kids[i].ended&&WEXITSTATUS(stt)==114) errs.push_back("solver internal failure"); else if(!kids[i].ended&&WEXITSTATUS(stt)!=77&&WEXITSTATUS(stt)!=78){ addViol("crash","path ended the process (exit "+std::to_string(WEXITSTATUS(stt))+")",kids[i].it.vals,""); } }
      kids.erase(kids.begin()+i); }
  }
  removeTree(root);
  bool complete=work.empty()&&!stop; double wall=now()-t0;
  std::string j="{\"complete\":"; j+=complete?"true":"false"; j+=",\"why\":\""+jesc(why)+"\",\"paths\":"+std::to_string(paths)+",\"pending\":"+std::to_string(work.size())+",\"decisions\":"+std::to_string(T.decs)+",\"branch_queries\":"+std::to_string(T.branchQ)+",\"assert_queries\":"+std::to_string(T.assertQ)+",\"sat\":"+std::to_string(T.sat)+",\"unsat\":"+std::to_string(T.unsat)+",\"fp_queries\":"+std::to_string(T.fpQ)+",\"symbolic_asserts\":"+std::to_string(T.asserts)+",\"path_asserts\":"+std::to_string(T.concAsserts)+",\"memory_checks\":"+std::to_string(T.memchk);
  char nb[200]; snprintf(nb,200,",\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"max_decisions\":%llu,\"max_nodes\":%llu",T.solver,maxQ,wall,(unsigned long long)maxDec,(unsigned long long)maxNodes); j+=nb;
  auto list=[&](const std::vector<std::string>&v,bool q){ std::string s="["; for(size_t i=0;i<v.size();++i){ if(i) s+=","; s+=q?"\""+jesc(v[i])+"\"":v[i]; } return s+"]"; };
  j+=",\"violations\":"+list(viol,false)+",\"errors\":"+list(errs,true)+",\"reached\":{"; bool f=true; for(auto&p:reachM){ if(!f) j+=","; f=false; j+="\""+jesc(p.first)+"\":"+vecj(p.second); } j+="},\"known\":{"; f=true; for(auto&p:knownM){ if(!f) j+=","; f=false; j+="\""+jesc(p.first)+"\":"+vecj(p.second); } j+="},\"params\":{"; f=true; for(auto&p:parM){ if(!f) j+=","; f=false; j+="\""+jesc(p.first)+"\":"+std::to_string(p.second); } j+="},\"samples\":"+list(samples,false)+",\"functions\":["; f=true;
  for(auto*r:funcs){ if(!f) j+=","; f=false; j+="{\"n\":\""+jesc(r->name)+"\",\"f\":\""+jesc(r->file)+"\",\"l\":"+std::to_string(r->line)+"}"; } j+="]}\n";
  if(out){ FILE*fo=fopen(out,"w"); fwrite(j.data(),1,j.size(),fo); fclose(fo); } else fwrite(j.data(),1,j.size(),stdout);
  fflush(stdout); _exit(0);
}
