// included before everything else in the build for C24: the templates of the C++ library
// (strings, string streams) are instantiated in the library itself, so that what they do
// to memory is seen like its other accesses
#if defined(__cplusplus) && __has_include(<bits/c++config.h>)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
