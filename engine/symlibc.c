/* Instrumented models of libc string routines: plain C, compiled with the pass,
   so that symbolic text is handled like any other code. */
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>
extern void* __sx_malloc(size_t);
typedef unsigned char u;
#define D(c) ((c)>='A'&&(c)<='Z'?(c)+32:(c))
char* __sx_strdup(const char*s){ size_t n=0; while(s[n]) ++n; char*r=(char*)__sx_malloc(n+1); for(size_t i=0;i<=n;++i) r[i]=s[i]; return r; }
void* __sx_memrchr(const void*s,int c,size_t n){ const u*p=(const u*)s; while(n--) if(p[n]==(u)c) return (void*)(p+n); return 0; }
size_t __sx_strnlen(const char*s,size_t n){ size_t i=0; while(i<n&&s[i]) ++i; return i; }
int __sx_strcmp(const char*a,const char*b){ for(;;++a,++b){ if(*a!=*b) return (u)*a<(u)*b?-1:1; if(!*a) return 0; } }
int __sx_strcoll(const char*a,const char*b){ return __sx_strcmp(a,b); }
int __sx_strncmp(const char*a,const char*b,size_t n){ for(;n;++a,++b,--n){ if(*a!=*b) return (u)*a<(u)*b?-1:1; if(!*a) return 0; } return 0; }
int __sx_strcasecmp(const char*a,const char*b){ for(;;++a,++b){ int x=D((u)*a),y=D((u)*b); if(x!=y) return x<y?-1:1; if(!*a) return 0; } }
int __sx_strncasecmp(const char*a,const char*b,size_t n){ for(;n;++a,++b,--n){ int x=D((u)*a),y=D((u)*b); if(x!=y) return x<y?-1:1; if(!*a) return 0; } return 0; }
char* __sx_strcpy(char*d,const char*s){ char*r=d; while((*d=*s)){ ++d;++s; } return r; }
char* __sx_stpcpy(char*d,const char*s){ while((*d=*s)){ ++d;++s; } return d; }
char* __sx_strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];++i) d[i]=s[i]; for(;i<n;++i) d[i]=0; return d; }
char* __sx_strcat(char*d,const char*s){ char*r=d; while(*d) ++d; while((*d=*s)){ ++d;++s; } return r; }
char* __sx_strncat(char*d,const char*s,size_t n){ char*r=d; while(*d) ++d; while(n--&&*s) *d++=*s++; *d=0; return r; }
char* __sx_strrchr(const char*s,int c){ const char*r=0; for(;;++s){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* __sx_strstr(const char*h,const char*n){ for(;;++h){ size_t i=0; while(n[i]&&h[i]==n[i]) ++i; if(!n[i]) return (char*)h; if(!*h) return 0; } }
static int in(char c,const char*s){ for(;*s;++s) if(*s==c) return 1; return 0; }
char* __sx_strpbrk(const char*s,const char*a){ for(;*s;++s) if(in(*s,a)) return (char*)s; return 0; }
size_t __sx_strspn(const char*s,const char*a){ size_t n=0; while(s[n]&&in(s[n],a)) ++n; return n; }
size_t __sx_strcspn(const char*s,const char*a){ size_t n=0; while(s[n]&&!in(s[n],a)) ++n; return n; }
static unsigned long long conv(const char*s,char**e,int base,unsigned long long pmax,unsigned long long nmax,int uns){
  const char*p=s; int neg=0; while(*p==' '||(*p>=9&&*p<=13)) ++p;
  if(*p=='-'){ neg=1; ++p; } else if(*p=='+') ++p;
  if((base==0||base==16)&&*p=='0'&&(p[1]=='x'||p[1]=='X')){ int c=p[2]; if((c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F')){ p+=2; base=16; } }
  if(base==0) base=*p=='0'?8:10;
  unsigned long long v=0,lim=neg&&!uns?nmax:pmax; int any=0,ov=0;
  for(;;++p){ int c=(u)*p,d; if(c>='0'&&c<='9') d=c-'0'; else if(c>='a'&&c<='z') d=c-'a'+10; else if(c>='A'&&c<='Z') d=c-'A'+10; else break; if(d>=base) break; any=1;
    if(v>(lim-d)/base) ov=1; else v=v*base+d; }
  if(e) *e=(char*)(any?p:s);
  if(ov){ errno=ERANGE; return uns?pmax:lim*(neg?-1ull:1ull); }
  return neg?0-v:v;
}
long __sx_strtol(const char*s,char**e,int b){ return (long)conv(s,e,b,LONG_MAX,(unsigned long)LONG_MAX+1,0); }
long long __sx_strtoll(const char*s,char**e,int b){ return (long long)conv(s,e,b,LLONG_MAX,(unsigned long long)LLONG_MAX+1,0); }
unsigned long __sx_strtoul(const char*s,char**e,int b){ return conv(s,e,b,ULONG_MAX,ULONG_MAX,1); }
unsigned long long __sx_strtoull(const char*s,char**e,int b){ return conv(s,e,b,ULLONG_MAX,ULLONG_MAX,1); }
int __sx_atoi(const char*s){ return (int)__sx_strtol(s,0,10); }
long __sx_atol(const char*s){ return __sx_strtol(s,0,10); }
long long __sx_atoll(const char*s){ return __sx_strtoll(s,0,10); }
/* the environment: strings made here are never freed, as pointers to them may be held */
extern char**environ;
static size_t envLen(const char*n){ size_t k=0; while(n[k]&&n[k]!='=') ++k; return k; }
static size_t envFind(const char*n,size_t k){ size_t i=0; if(environ) for(;environ[i];++i){ size_t j=0; while(j<k&&environ[i][j]==n[j]) ++j; if(j==k&&environ[i][k]=='=') return i; } return i; }
char* __sx_getenv(const char*n){ size_t k=0; while(n[k]) ++k; if(!k||!environ) return 0; size_t i=envFind(n,k); return environ[i]?environ[i]+k+1:0; }
static int envPut(char*s,size_t k){ size_t i=envFind(s,k); if(environ&&environ[i]){ environ[i]=s; return 0; } char**e=(char**)__sx_malloc((i+2)*sizeof(char*)); for(size_t j=0;j<i;++j) e[j]=environ[j]; e[i]=s; e[i+1]=0; environ=e; return 0; }
int __sx_unsetenv(const char*n){ size_t k=0; if(!n||!*n){ errno=EINVAL; return -1; } for(;n[k];++k) if(n[k]=='='){ errno=EINVAL; return -1; } for(;;){ size_t i=envFind(n,k); if(!environ||!environ[i]) return 0; for(;environ[i];++i) environ[i]=environ[i+1]; } }
int __sx_putenv(char*s){ size_t k=envLen(s); if(!s[k]) return __sx_unsetenv(s); return envPut(s,k); }
int __sx_setenv(const char*n,const char*v,int over){ size_t k=0,m=0; if(!n||!*n){ errno=EINVAL; return -1; } for(;n[k];++k) if(n[k]=='='){ errno=EINVAL; return -1; } while(v[m]) ++m; { size_t i=envFind(n,k); if(environ&&environ[i]&&!over) return 0; }
  char*s=(char*)__sx_malloc(k+m+2); for(size_t i=0;i<k;++i) s[i]=n[i]; s[k]='='; for(size_t i=0;i<=m;++i) s[k+1+i]=v[i]; return envPut(s,k); }
