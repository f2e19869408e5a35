// entry point of an instrumented harness
#include "sx.h"
#include <locale>
extern "C" void sx_run(void(*)(void));
extern "C" void sx_setup(void);
int main(){
  sx_object(std::ctype<char>::classic_table(), 256*sizeof(std::ctype_base::mask));
  sx_setup();
  sx_run(sx_main);
}
