// Counts what is allocated with operator new, and lets an allocation fail. Include once.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>

namespace alloc {

static uint64_t live = 0, blocks = 0;  // bytes and blocks in use
static bool armed = false, fired = false;
static uint64_t countdown = 0;

// While one is alive, the allocation number n (from 0) fails, once.
struct Failing {
	explicit Failing(uint64_t n)
	{
		countdown = n;
		fired = false;
		armed = true;
	}
	~Failing() { armed = false; }
	Failing(const Failing &) = delete;
	Failing &operator=(const Failing &) = delete;
};

}  // namespace alloc

__attribute__((noinline)) void *operator new(size_t n)
{
	if (alloc::armed && alloc::countdown-- == 0) {
		alloc::armed = false;
		alloc::fired = true;
		throw std::bad_alloc();
	}
	void *p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	alloc::live += malloc_usable_size(p);
	alloc::blocks++;
	return p;
}
__attribute__((noinline)) void operator delete(void *p) noexcept
{
	if (!p) return;
	alloc::live -= malloc_usable_size(p);
	alloc::blocks--;
	free(p);
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
