// Memory functions of the C library replaced (-Wl,--wrap, see BLOCKS in
// lib/vf.py): they count the blocks obtained while `counting()` and fail while
// `denied()`; both are defined by the driver.
#pragma once
#include <cerrno>
#include <cstddef>

static bool counting();
static bool denied();
static long blocks = 0;
static long requests = 0;    // made of the C library,
static size_t smallest = 0;  // the smallest of them
static void request(size_t n)
{
	if (!requests++ || n < smallest)
		smallest = n;
}

extern "C"
{
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n)
{
	request(n);
	void *p = denied() ? nullptr : __real_malloc(n);
	blocks += counting() && p;
	return p;
}
void *__wrap_calloc(size_t k, size_t n)
{
	size_t all;
	request(__builtin_mul_overflow(k, n, &all) ? size_t(-1) : all);
	void *p = denied() ? nullptr : __real_calloc(k, n);
	blocks += counting() && p;
	return p;
}
void *__wrap_realloc(void *old, size_t n)
{
	request(n);
	void *p = denied() ? nullptr : __real_realloc(old, n);
	blocks += counting() && !old && p;
	return p;
}
void *__wrap_aligned_alloc(size_t a, size_t n)
{
	request(n);
	void *p = denied() ? nullptr : __real_aligned_alloc(a, n);
	blocks += counting() && p;
	return p;
}
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{
	request(n);
	const int r = denied() ? ENOMEM : __real_posix_memalign(p, a, n);
	blocks += counting() && !r;
	return r;
}
void __wrap_free(void *p)
{
	blocks -= counting() && p;
	__real_free(p);
}

// the operators are replaced only if the driver itself may use them
#ifdef OPERATORS
#	define NEW(op, args, pass) \
	void *__real_##op args; \
	void *__wrap_##op args \
	{ \
		request(n); \
		void *p = denied() ? nullptr : __real_##op pass; \
		blocks += counting() && p; \
		return p; \
	}
#	define DELETE(op, args, pass) \
	void __real_##op args; \
	void __wrap_##op args \
	{ \
		blocks -= counting() && p; \
		__real_##op pass; \
	}
NEW(_Znwm, (size_t n), (n))
NEW(_Znam, (size_t n), (n))
NEW(_ZnwmRKSt9nothrow_t, (size_t n, const void *t), (n, t))
NEW(_ZnamRKSt9nothrow_t, (size_t n, const void *t), (n, t))
DELETE(_ZdlPv, (void *p), (p))
DELETE(_ZdaPv, (void *p), (p))
DELETE(_ZdlPvm, (void *p, size_t n), (p, n))
DELETE(_ZdaPvm, (void *p, size_t n), (p, n))
#	undef NEW
#	undef DELETE
#endif
}
