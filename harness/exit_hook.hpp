// Included before every source file of the repository in the harness builds.  exit() is declared not to throw, so the
// compiler leaves out the clean-up of objects around a call of it; a harness which turns exit() into an exception
// would leak them (the csv reader's thread, for example).  vp_exit() is exit() without that promise.
#pragma once
#ifdef __cplusplus
#include <cstdlib>
extern "C" void vp_exit_hook(int) __attribute__((weak));
[[noreturn]] inline void vp_exit(int code) {
    if (vp_exit_hook)
        vp_exit_hook(code);
    (::exit)(code);
}
namespace std {
using ::vp_exit;
}
#define exit vp_exit
#endif
