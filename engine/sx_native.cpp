// Native (uninstrumented) implementation of the harness interface: replays one
// assignment found by the solver against the real code.
//   SX_VALS=v0,v1,...  values of the symbolic inputs in order of creation
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
static std::vector<uint64_t> vals; static size_t pos=0; static std::string scratch;
static uint64_t next(unsigned w){ uint64_t v=pos<vals.size()?vals[pos]:0; ++pos; return w>=64?v:v&((1ull<<w)-1); }
static void viol(const char*k,const char*m){ printf("SX-REPLAY-VIOLATION %s: %s\n",k,m); fflush(stdout); _exit(3); }
extern "C" {
uint64_t sx_var(const char*,unsigned w){ return next(w); }
int64_t sx_range(const char*,int64_t lo,int64_t hi){ uint64_t span=(uint64_t)(hi-lo); if(!span) return lo; unsigned w=64-__builtin_clzll(span); uint64_t v=next(w); if(v>span) v=0; return (int64_t)((uint64_t)lo+v); }
void sx_bytes(void*p,size_t n,const char*){ for(size_t i=0;i<n;++i) ((unsigned char*)p)[i]=(unsigned char)next(8); }
void sx_assume(bool c){ if(!c){ printf("SX-REPLAY-ASSUME\n"); fflush(stdout); _exit(0);} }
void sx_assert_(bool c,const char*m){ if(!c) viol("assert",m); }
void sx_fail(const char*m){ viol("assert",m); }
void sx_reach(const char*l){ if(getenv("SX_SHOWREACH")) printf("SX-REACH %s\n",l); }
int sx_is_symbolic(void){ return 0; }
int sx_thorough(void){ const char*t=getenv("VERIF_TIER"); return t&&!strcmp(t,"thorough"); }
int sx_param(const char*,int q,int t){ return sx_thorough()?t:q; }
void sx_known(const char*id){ printf("SX-REPLAY-KNOWN %s\n",id); fflush(stdout); _exit(4); }
void sx_file(const char*path,const void*b,size_t n){ FILE*f=fopen(path,"wb"); if(!f) abort(); if(n&&fwrite(b,1,n,f)!=n) abort(); fclose(f); }
void sx_object(const void*,size_t){}
void sx_note(const char*s){ printf("note: %s\n",s); }
const char* sx_scratch(void){ return scratch.c_str(); }
double sx_free_double(const char*){ uint64_t v=next(64); double d; memcpy(&d,&v,8); return d; }
uint64_t sx_concretize(uint64_t v){ return v; }
}
int main(){
  const char*s=getenv("SX_VALS"); while(s&&*s){ char*e; vals.push_back(strtoull(s,&e,10)); s=*e?e+1:e; }
  char b[4096]; if(getcwd(b,sizeof b)) scratch=b; alarm(20);
  try{ sx_main(); }catch(std::exception&e){ viol("exception",e.what()); }catch(...){ std::type_info*t=abi::__cxa_current_exception_type(); viol("exception",t?t->name():"?"); }
  printf("SX-REPLAY-OK\n"); fflush(stdout); _exit(0);
}
