// Harness interface of the symx engine.  The same harness source is compiled
// twice: instrumented (symbolic run) and natively (replay of a counterexample).
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void     sx_main(void);                       // supplied by the harness
uint64_t sx_var(const char* name, unsigned width);            // fresh symbolic value
int64_t  sx_range(const char* name, int64_t lo, int64_t hi);  // fresh symbolic value in [lo,hi]
void     sx_bytes(void* p, size_t n, const char* name);       // make memory symbolic
void     sx_assume(bool c);
void     sx_assert_(bool c, const char* msg);
void     sx_fail(const char* msg);                            // assertion that this point is unreachable
void     sx_reach(const char* label);                         // vacuity witness
int      sx_is_symbolic(void);
int      sx_thorough(void);
int      sx_param(const char* name, int quick, int thorough); // bound, recorded in evidence
// known, recorded findings: the path is outside the claim from here on
void     sx_known(const char* id);
// (symbolic) file: the given bytes become the content of the file at path
void     sx_file(const char* path, const void* buf, size_t n);
// register memory of native objects so that table look-ups in it can be symbolic
void     sx_object(const void* p, size_t n);
void     sx_note(const char* s);
const char* sx_scratch(void);                 // private scratch directory (exists, removed by the driver)
double   sx_free_double(const char* name);    // any of the 2^64 bit patterns
uint64_t sx_concretize(uint64_t v);           // enumerate every feasible value
#ifdef __cplusplus
}
#define sx_assert(c) sx_assert_(static_cast<bool>(c), #c " @" __FILE__ ":" SX_STR(__LINE__))
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
static inline int    sx_choice(const char* n, int k){ return (int)sx_concretize((uint64_t)sx_range(n,0,k-1)); }
static inline bool   sx_bool(const char* n){ return sx_var(n,1)&1; }
static inline double sx_idouble(const char* n, int lo, int hi){ return (double)(int)sx_range(n,lo,hi); }
#endif
#endif
