// Included first in every symbolic build: makes libstdc++ instantiate its templates in the bitcode.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#ifdef SYM_SCHED
#include "sym_threads.h"
#endif
