#pragma once
#include "drv.h"
// the system allocator behind aligned_malloc: it can run out of memory on request and knows what it gave
namespace sysd { static int oom = 0; static std::set<void*> sys; static bool track = true; }
static void* drv_malloc(size_t n) { if (sysd::oom > 0) { sysd::oom--; return nullptr; } void* p = malloc(n); if (p && sysd::track) sysd::sys.insert(p); return p; }
static void drv_free(void* p) { if (!p) return; if (sysd::track && !sysd::sys.erase(p)) fail("the system is given back memory it did not give (or got back before)"); free(p); }
namespace std { using ::drv_malloc; using ::drv_free; }
#define malloc(...) drv_malloc(__VA_ARGS__)
#define free(...) drv_free(__VA_ARGS__)
#include "ktl/utility/aligned_malloc.h"
#undef malloc
#undef free
