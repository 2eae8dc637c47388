// operator new that reports exhaustion as the standard does (AddressSanitizer's own would abort)
#pragma once
#include <cstdlib>
#include <new>
static const size_t kLargest = 1ul << 29;
void *operator new(size_t n) { void *p = n > kLargest ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return n > kLargest ? nullptr : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
