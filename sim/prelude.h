// Included before every CEX source: gives CexConfig.h the platform it is written for (MSVC on Windows)
// while the compiler and the standard library stay native. The Windows API itself is the simulator's.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <thread>
#include <mutex>
#include <future>
#include <atomic>
#include <functional>
#include <condition_variable>
#include <chrono>
#include <fstream>
#include <sstream>
#include "simcpu.h"
#include "simfstream.h"
#include "io.h"
#include "malloc_win.h"
#define _XCR_XFEATURE_ENABLED_MASK 0
#define _MSC_VER 1930
#define _WIN64 1
#define _WIN32 1
#define _M_X64 100
#define _M_AMD64 100
#pragma push_macro("__SIZEOF_INT128__")
#undef __SIZEOF_INT128__
#pragma push_macro("__linux__")
#pragma push_macro("__unix__")
#pragma push_macro("__unix")
#pragma push_macro("__GNUC__")
#undef __linux__
#undef __unix__
#undef __unix
#include "CexConfig.h"
#pragma pop_macro("__SIZEOF_INT128__")
#pragma pop_macro("__linux__")
#pragma pop_macro("__unix__")
#pragma pop_macro("__unix")
#undef _MSC_VER
#undef _WIN64
#undef _WIN32
#undef CEX_OPTIMIZE_IGNORE
#undef CEX_OPTIMIZE_RESUME
#define CEX_OPTIMIZE_IGNORE
#define CEX_OPTIMIZE_RESUME
// CEX loads and stores unaligned memory with these; MSVC compiles them to unaligned moves.
// long is 32 bits on Windows
#define _lrotl _rotl
#define _lrotr _rotr
#define _mm_load_si128 _mm_loadu_si128
#define _mm_store_si128 _mm_storeu_si128
#define _mm256_load_si256 _mm256_loadu_si256
#define _mm256_store_si256 _mm256_storeu_si256
