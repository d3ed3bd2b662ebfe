// Forced into every translation unit that is encoded: the standard library's templates are
// instantiated here (not taken from libstdc++.so) so that their bodies are in the IR too.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
