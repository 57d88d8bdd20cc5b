#pragma once
#include <cstddef>
extern "C" { void* simw_aligned_malloc(size_t, size_t); void* simw_aligned_realloc(void*, size_t, size_t); void simw_aligned_free(void*); }
#define _aligned_malloc simw_aligned_malloc
#define _aligned_realloc simw_aligned_realloc
#define _aligned_free simw_aligned_free
