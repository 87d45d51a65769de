// Stand-in for the header CMake generates (src/ppkMHD_version.h.in).
#ifndef PPKMHD_VERSION_H_
#define PPKMHD_VERSION_H_
#define GIT_REMOTE_URL ""
#define GIT_BRANCH ""
#define GIT_BUILD_STRING ""
#define COMPILE_DATE ""
#define COMPILE_TIME ""
#include <iostream>
inline void print_version_info() {}
#endif
