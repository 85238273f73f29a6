#include_next <bits/basic_ios.h>
#if defined(SX_SYMBOLIC) && !defined(SX_BASIC_IOS_STUB)
#define SX_BASIC_IOS_STUB
namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
// the C-locale facets come from rt_ios.cpp
template<> void basic_ios<char>::_M_cache_locale(const locale &);
_GLIBCXX_END_NAMESPACE_VERSION
}
#endif
