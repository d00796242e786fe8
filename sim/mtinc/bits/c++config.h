// Makes std::string a template instantiated (and instrumented) in our own
// translation units rather than taken from libstdc++.so.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
