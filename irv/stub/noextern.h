// Makes libstdc++'s string and stream templates instantiate implicitly, so that their bodies
// (header code) are part of the verified module instead of calls into libstdc++.so.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
