// Stand-in for <emscripten.h>: the C interface only uses EM_ASM, to print error messages.
#pragma once
#define EM_ASM(...) ((void)0)
