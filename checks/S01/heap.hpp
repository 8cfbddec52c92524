// heap balance of a piece of work: bytes left behind by its second and third run (the first may fill caches)
#pragma once
#include "../../harness/pbt.hpp"
#include <cstdio>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
template <class F>
void balanced(const char *what, const std::string &ctx, F &&work) {
    long left[3];
    for (int k = 0; k < 3; k++) {
        size_t a = __sanitizer_get_current_allocated_bytes();
        work();
        size_t b = __sanitizer_get_current_allocated_bytes();
        left[k] = (long)b - (long)a;
    }
    if (left[1] > 0 && left[2] > 0) pbt::fail("leak", pbt::fmt("%s leaves %ld and %ld more bytes on the heap; %s", what, left[1], left[2], ctx.c_str()));
}
