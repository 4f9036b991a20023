#pragma once
#include <stddef.h>
extern "C" {
void* __vf_alloc(size_t bytes) noexcept;             // fresh object of exactly that extent, arbitrary contents
void __vf_resize(void* p, size_t bytes) noexcept;    // changes the extent of the object in place
size_t __vf_any(size_t max) noexcept;               // some number <= max
void __vf_free(void* p) noexcept;
void __vf_require(bool c, const char* label) noexcept; // library precondition: an obligation
}
