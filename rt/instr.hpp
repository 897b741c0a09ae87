// Included first in the instrumented code: the templates of the standard
// library (streams, file buffers, strings) are compiled with the code under
// test instead of taken from libstdc++, so that their accesses are seen, too.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
