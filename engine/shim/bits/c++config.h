// symx: instantiate every libstdc++ template in the instrumented program
// instead of linking to the copies inside libstdc++.so.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
