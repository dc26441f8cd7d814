// programs that read or change the run-time version
#include <u5e/version.hpp>
#if HOW == 0
int read() { const int &r = u5e::version::run_time::COMPONENT; return r + u5e::version::run_time::COMPONENT; }
#elif HOW == 1
void change() { u5e::version::run_time::COMPONENT = 99; }
#elif HOW == 2
int *change() { return &u5e::version::run_time::COMPONENT; }
#else
void change() { ++u5e::version::run_time::COMPONENT; }
#endif
