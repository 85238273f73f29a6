// keep the library's assertions on, but instantiate the iostream templates in every module
#include_next <bits/c++config.h>
#ifdef SX_SYMBOLIC
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
