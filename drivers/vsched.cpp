// Runtime of vsched.hpp.  This file is compiled without instrumentation.
#include "vsched.hpp"

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <map>
#include <memory>
#include <set>

#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <cxxabi.h>
#include <ucontext.h>
#include <unistd.h>

namespace
{

constexpr size_t STACK = 256 * 1024;
constexpr int BURST = 150; // points in a row before a thread has to let others run

struct Thread
{
	ucontext_t context;
	char *stack = nullptr;
	std::function<void()> body;
	bool finished = false;
	const void *on = nullptr; // blocked on
	int error = 0;            // errno
	// pthread view
	void *(*start)(void *) = nullptr;
	void *argument = nullptr;
	void *result = nullptr;
	bool native = false, joined = false, detached = false;
	sigset_t blocked = {}; // signals
};

struct Random
{
	uint64_t s;
	uint64_t operator()()
	{
		s += 0x9e3779b97f4a7c15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	size_t below(size_t n) { return n ? (*this)() % n : 0; }
};

// Decides who runs.  When `preempts`, any option but the first is a preemption.
struct Strategy
{
	virtual ~Strategy() {}
	virtual void begin() = 0;
	virtual size_t pick(size_t n, bool preempts) = 0;
	virtual bool next() = 0; // another execution?
};

// All schedules with at most `bound` preemptions, depth first.
struct Systematic: Strategy
{
	struct Choice { size_t n, taken; bool preempts; };
	std::vector<Choice> path;
	size_t at = 0;
	int bound, used = 0;
	explicit Systematic(int bound) : bound(bound) {}
	void begin() override { at = 0; used = 0; }
	size_t pick(size_t n, bool preempts) override
	{
		if (at == path.size())
			path.push_back({ preempts && used >= bound ? 1 : n, 0, preempts });
		Choice &c = path[at++];
		size_t k = c.taken < n ? c.taken : 0;
		if (c.preempts && k)
			++used;
		return k;
	}
	bool next() override
	{
		path.resize(at < path.size() ? at : path.size());
		while (!path.empty())
		{
			if (path.back().taken + 1 < path.back().n)
			{
				++path.back().taken;
				return true;
			}
			path.pop_back();
		}
		return false;
	}
};

// Random schedules; the probability of a preemption changes between executions.
struct Sampled: Strategy
{
	Random rng;
	uint64_t seed, n = 0;
	size_t rarity = 4;
	explicit Sampled(uint64_t seed) : rng{ seed }, seed(seed) {}
	void begin() override
	{
		rng.s = seed * 1000003 + n++;
		static const size_t R[] = { 2, 4, 10, 30, 100 };
		rarity = R[rng.below(5)];
	}
	size_t pick(size_t n, bool preempts) override
	{
		if (preempts && rng.below(rarity))
			return 0;
		return rng.below(n);
	}
	bool next() override { return true; }
};

struct World
{
	std::vector<std::unique_ptr<Thread>> threads;
	int current = -1;
	ucontext_t scheduler;
	Strategy *strategy = nullptr;
	vs::Execution record;
	long steps = 0, limit = 0;
	int burst = 0;
	long interrupts = 0, failures = 0, failed = 0;
	bool fair = false;
	size_t turn = 0;
	std::map<const char *, std::pair<size_t, bool>> memory; // address -> size, freed
};

World *w = nullptr;
std::vector<char *> stacks;

char *newStack()
{
	if (!stacks.empty())
	{
		char *s = stacks.back();
		stacks.pop_back();
		return s;
	}
	char *s = static_cast<char *>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	if (s == MAP_FAILED)
		abort();
	mprotect(s, 4096, PROT_NONE);
	return s;
}

int decide();

// Gives control to whoever is chosen next.
void leave()
{
	const int me = w->current;
	const int next = decide();
	if (next == me)
		return;
	Thread &t = *w->threads[me];
	t.error = errno;
	w->current = next;
	swapcontext(&t.context, next < 0 ? &w->scheduler : &w->threads[next]->context);
	errno = w->threads[w->current]->error;
}

void entry()
{
	Thread &t = *w->threads[w->current];
	if (t.body)
		t.body();
	else
		t.result = t.start(t.argument);
	t.finished = true;
	vs::wake(&t);
	leave();
}

int create(std::function<void()> body)
{
	w->threads.emplace_back(new Thread);
	Thread &t = *w->threads.back();
	t.body = std::move(body);
	t.stack = newStack();
	getcontext(&t.context);
	t.context.uc_stack.ss_sp = t.stack;
	t.context.uc_stack.ss_size = STACK;
	t.context.uc_link = nullptr;
	makecontext(&t.context, entry, 0);
	return static_cast<int>(w->threads.size()) - 1;
}

// Whether thread `i` could run.
bool can(size_t i)
{
	const Thread &t = *w->threads[i];
	return !t.finished && !t.on;
}

// Who runs next; -1 when nobody can or the execution takes too long.
int decide()
{
	const size_t n = w->threads.size();
	size_t count = 0;
	int r[64];
	const bool stays = w->current >= 0 && can(w->current);
	if (stays)
		r[count++] = w->current;
	for (size_t i = 0; i < n && count < 64; ++i)
		if (static_cast<int>(i) != w->current && can(i))
			r[count++] = static_cast<int>(i);
	if (!count)
	{
		w->record.end = vs::End::FINISHED;
		for (auto &t : w->threads)
			if (!t->finished)
				w->record.end = vs::End::STUCK;
		return -1;
	}
	if (++w->steps > w->limit)
	{
		if (w->steps > 3 * w->limit)
		{
			w->record.end = vs::End::ENDLESS;
			return -1;
		}
		// fair from here on: round robin
		w->fair = true;
		for (size_t k = 1; k <= n; ++k)
			if (can((w->turn + k) % n))
			{
				w->turn = (w->turn + k) % n;
				return static_cast<int>(w->turn);
			}
	}
	const bool forced = w->burst >= BURST || w->burst < 0;
	int *from = r;
	bool preempts = stays;
	if (stays && forced && count > 1)
	{
		++from;
		--count;
		preempts = false;
	}
	const int next = from[count > 1 ? w->strategy->pick(count, preempts) : 0];
	w->burst = next == w->current ? (w->burst < 0 ? 0 : w->burst + 1) : 0;
	return next;
}

void execute(const vs::Options &o, Strategy &s, const std::function<void()> &body,
		const std::function<void(const vs::Execution &)> &done)
{
	World world;
	w = &world;
	w->strategy = &s;
	w->limit = o.steps;
	w->interrupts = o.interrupts;
	w->failures = o.failures;
	s.begin();
	create(body);
	w->current = 0;
	swapcontext(&w->scheduler, &w->threads[0]->context);
	if (vs::accountThreads && w->record.end == vs::End::FINISHED)
		for (auto &t : w->threads)
			if (t->native && !t->joined && !t->detached)
				vs::fault("a thread was neither joined nor detached");
	for (auto &m : w->memory)
		if (m.second.second)
			::free(const_cast<char *>(m.first));
	for (auto &t : w->threads)
		stacks.push_back(t->stack);
	w = nullptr;
	done(world.record);
}

bool ownStack(const void *p)
{
	const char *s = w->threads[w->current]->stack;
	return p >= s && p < s + STACK;
}

long interruptAt = -1, interruptCount = 0;
int interruptThread = -1;

void atPoint()
{
	if (interruptThread == w->current && vs::handler)
	{
		if (interruptCount++ >= interruptAt && interruptAt >= 0 && !sigismember(&w->threads[w->current]->blocked, SIGPOLL))
		{
			interruptThread = -1;
			vs::handler();
		}
	}
}

void access(const void *p, size_t n)
{
	if (!w || w->current < 0)
		return;
	if (ownStack(p))
		return;
	if (!w->memory.empty())
	{
		auto i = w->memory.upper_bound(static_cast<const char *>(p));
		if (i != w->memory.begin())
		{
			--i;
			if (i->second.second && static_cast<const char *>(p) < i->first + i->second.first)
				vs::fault("use of freed memory");
		}
	}
	(void)n;
	vs::point();
}

} // namespace

namespace vs
{

bool accountThreads = false;
long failed() { return w ? w->failed : 0; }
std::function<void()> handler;

void interruptible(long at)
{
	interruptAt = at;
	interruptCount = 0;
	interruptThread = at >= 0 || at == -2 ? (w ? w->current : -1) : -1;
}
long points() { return interruptCount; }

int self() { return w ? w->current : -1; }
bool active() { return w && w->current >= 0; }

void event(std::string e)
{
	if (w)
		w->record.events.push_back(std::move(e));
}
void fault(std::string e)
{
	if (w && w->record.faults.size() < 20)
		w->record.faults.push_back(std::move(e));
}

int spawn(std::function<void()> f) { return create(std::move(f)); }

void point()
{
	if (!active())
		return;
	int saved = errno;
	atPoint();
	errno = saved;
	leave();
}

void yield()
{
	if (!active())
		return;
	w->burst = -1;
	leave();
}

void block(const void *on)
{
	if (!active())
		return;
	w->threads[w->current]->on = on;
	leave();
}

void wake(const void *on)
{
	if (!w)
		return;
	for (auto &t : w->threads)
		if (t->on == on)
			t->on = nullptr;
}

size_t choose(size_t n) { return w && w->strategy && n > 1 && !w->fair ? w->strategy->pick(n, false) : 0; }

void explore(const Options &o, const std::function<void()> &body, const std::function<void(const Execution &)> &done)
{
	long left = o.executions;
	for (int bound = 0; bound <= o.preemptions && left > o.executions / 2; ++bound)
	{
		Systematic s(bound);
		do
			execute(o, s, body, done);
		while (--left > o.executions / 2 && s.next());
	}
	Sampled r(o.seed);
	while (left-- > 0)
		execute(o, r, body, done);
}

} // namespace vs

// ---------------------------------------------------------------- callbacks

extern "C"
{

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ACCESS(name, n) void __tsan_##name(void *p) { access(p, n); }
#define ACCESSES(n) ACCESS(read##n, n) ACCESS(write##n, n) ACCESS(volatile_read##n, n) ACCESS(volatile_write##n, n)
ACCESSES(1) ACCESSES(2) ACCESSES(4) ACCESSES(8) ACCESSES(16)
#define UNALIGNED(n) ACCESS(unaligned_read##n, n) ACCESS(unaligned_write##n, n) \
	ACCESS(unaligned_volatile_read##n, n) ACCESS(unaligned_volatile_write##n, n)
UNALIGNED(2) UNALIGNED(4) UNALIGNED(8) UNALIGNED(16)
void __tsan_read_range(void *p, size_t n) { access(p, n); }
void __tsan_write_range(void *p, size_t n) { access(p, n); }
void __tsan_vptr_update(void **p, void *) { access(p, 8); }
void __tsan_vptr_read(void **p) { access(p, 8); }

#define ATOMICS(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int) { access((const void *)a, sizeof(T)); return __atomic_load_n(a, 5); } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); __atomic_store_n(a, v, 5); } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); return __atomic_exchange_n(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); return __atomic_fetch_and(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); return __atomic_fetch_or(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); return __atomic_fetch_xor(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); return __atomic_fetch_nand(a, v, 5); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) \
	{ access((const void *)a, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) \
	{ access((const void *)a, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) \
	{ access((const void *)a, sizeof(T)); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------- memory


static void *owned(void *p, size_t n)
{
	if (w && p)
	{
		// a new block makes older freed ones at the same place disappear
		w->memory[static_cast<char *>(p)] = { n, false };
	}
	return p;
}
static bool freed(void *p)
{
	if (!w || !p)
		return false;
	auto i = w->memory.find(static_cast<char *>(p));
	if (i == w->memory.end())
		return false;
	if (i->second.second)
	{
		vs::fault("memory freed twice");
		return true;
	}
	i->second.second = true;
	memset(p, 0xdd, i->second.first);
	return true; // kept until the execution ends
}
void *vs_malloc(size_t n) { return owned(::malloc(n), n); }
void *vs_calloc(size_t a, size_t b) { return owned(::calloc(a, b), a * b); }
void vs_free(void *p)
{
	if (!freed(p))
		::free(p);
}
void *vs_realloc(void *p, size_t n)
{
	if (!w || !p || !w->memory.count(static_cast<char *>(p)))
		return owned(::realloc(p, n), n);
	size_t old = w->memory[static_cast<char *>(p)].first;
	void *q = owned(::malloc(n), n);
	memcpy(q, p, old < n ? old : n);
	freed(p);
	return q;
}
void *vs__Znwm(size_t n) { return owned(::malloc(n ? n : 1), n); }
void *vs__Znam(size_t n) { return owned(::malloc(n ? n : 1), n); }
void vs__ZdlPv(void *p) { vs_free(p); }
void vs__ZdlPvm(void *p, size_t) { vs_free(p); }
void vs__ZdaPv(void *p) { vs_free(p); }
void vs__ZdaPvm(void *p, size_t) { vs_free(p); }

// --------------------------------------------------------------- primitives


// Mutexes keep their state in the fields the system uses for it.
static int tryMutex(pthread_mutex_t *m)
{
	auto &d = m->__data;
	const int kind = d.__kind & 3, me = w->current + 1;
	if (d.__lock)
	{
		if (kind == PTHREAD_MUTEX_RECURSIVE && d.__owner == me)
		{
			++d.__count;
			return 0;
		}
		return EBUSY;
	}
	d.__lock = 1;
	d.__owner = me;
	d.__count = 1;
	return 0;
}
int vs_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!vs::active())
		return ::pthread_mutex_lock(m);
	access(m, 1);
	for (;;)
	{
		int r = tryMutex(m);
		if (r != EBUSY)
			return r;
		if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK && m->__data.__owner == w->current + 1)
			return EDEADLK;
		vs::block(m);
	}
}
int vs_pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!vs::active())
		return ::pthread_mutex_trylock(m);
	access(m, 1);
	return tryMutex(m);
}
int vs_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *)
{
	int r = vs_pthread_mutex_trylock(m);
	return r == EBUSY ? ETIMEDOUT : r;
}
int vs_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!vs::active())
		return ::pthread_mutex_unlock(m);
	access(m, 1);
	auto &d = m->__data;
	if ((d.__kind & 3) != PTHREAD_MUTEX_NORMAL && d.__owner != w->current + 1)
		return EPERM;
	if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && --d.__count)
		return 0;
	d.__lock = 0;
	d.__owner = 0;
	d.__count = 0;
	vs::wake(m);
	return 0;
}
int vs_pthread_mutex_destroy(pthread_mutex_t *m)
{
	access(m, 1);
	if (vs::active() && m->__data.__lock)
	{
		vs::fault("destruction of a locked mutex");
		return EBUSY;
	}
	return ::pthread_mutex_destroy(m);
}
int vs_pthread_spin_lock(pthread_spinlock_t *s)
{
	if (!vs::active())
		return ::pthread_spin_lock(s);
	access((void *)s, 1);
	for (;;)
	{
		int r = ::pthread_spin_trylock(s);
		if (r != EBUSY)
			return r;
		vs::block((void *)s);
	}
}
int vs_pthread_spin_trylock(pthread_spinlock_t *s)
{
	access((void *)s, 1);
	return ::pthread_spin_trylock(s);
}
int vs_pthread_spin_unlock(pthread_spinlock_t *s)
{
	access((void *)s, 1);
	int r = ::pthread_spin_unlock(s);
	vs::wake((void *)s);
	return r;
}
int vs_sem_wait(sem_t *s)
{
	if (!vs::active())
		return ::sem_wait(s);
	access(s, 1);
	for (;;)
	{
		if (w->interrupts > 0 && vs::choose(4) == 3)
		{
			--w->interrupts;
			errno = EINTR;
			return -1;
		}
		int r = ::sem_trywait(s);
		if (r == 0 || errno != EAGAIN)
			return r;
		vs::block(s);
	}
}
int vs_sem_timedwait(sem_t *s, const struct timespec *)
{
	access(s, 1);
	int r = ::sem_trywait(s);
	if (r != 0 && errno == EAGAIN)
		errno = ETIMEDOUT;
	return r;
}
int vs_sem_trywait(sem_t *s)
{
	access(s, 1);
	return ::sem_trywait(s);
}
int vs_sem_post(sem_t *s)
{
	access(s, 1);
	int r = ::sem_post(s);
	vs::wake(s);
	return r;
}

// Condition variables: the address is enough, waiters are woken explicitly.
int vs_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (!vs::active())
		return ::pthread_cond_wait(c, m);
	access(c, 1);
	vs_pthread_mutex_unlock(m);
	vs::block(c);
	return vs_pthread_mutex_lock(m);
}
int vs_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *)
{
	access(c, 1);
	vs_pthread_mutex_unlock(m);
	vs::yield();
	vs_pthread_mutex_lock(m);
	return ETIMEDOUT;
}
int vs_pthread_cond_signal(pthread_cond_t *c)
{
	access(c, 1);
	if (!w)
		return 0;
	std::vector<Thread *> on;
	for (auto &t : w->threads)
		if (t->on == c)
			on.push_back(t.get());
	if (!on.empty())
		on[vs::choose(on.size())]->on = nullptr;
	return 0;
}
int vs_pthread_cond_broadcast(pthread_cond_t *c)
{
	access(c, 1);
	vs::wake(c);
	return 0;
}

// ------------------------------------------------------------------ threads

static const pthread_t BASE = 0x10000;
static Thread *find(pthread_t t)
{
	size_t i = t - BASE;
	return w && i < w->threads.size() && w->threads[i]->native ? w->threads[i].get() : nullptr;
}
int vs_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
	if (!vs::active())
		return ::pthread_create(t, a, f, x);
	vs::point();
	if (w->failures > 0 && vs::choose(3) == 2)
	{
		--w->failures;
		++w->failed;
		return EAGAIN;
	}
	int i = create(nullptr);
	Thread &n = *w->threads[i];
	n.native = true;
	n.start = f;
	n.argument = x;
	*t = BASE + static_cast<pthread_t>(i);
	vs::point();
	return 0;
}
int vs_pthread_join(pthread_t t, void **r)
{
	if (!vs::active())
		return ::pthread_join(t, r);
	vs::point();
	Thread *x = find(t);
	if (!x)
	{
		vs::fault("join of a thread that does not exist");
		return ESRCH;
	}
	if (x->joined || x->detached)
	{
		vs::fault(std::string("join of a ") + (x->joined ? "joined" : "detached") + " thread");
		return EINVAL;
	}
	x->joined = true;
	while (!x->finished)
		vs::block(x);
	if (r)
		*r = x->result;
	return 0;
}
int vs_pthread_detach(pthread_t t)
{
	if (!vs::active())
		return ::pthread_detach(t);
	vs::point();
	Thread *x = find(t);
	if (!x)
	{
		vs::fault("detach of a thread that does not exist");
		return ESRCH;
	}
	if (x->joined || x->detached)
	{
		vs::fault(std::string("detach of a ") + (x->joined ? "joined" : "detached") + " thread");
		return EINVAL;
	}
	x->detached = true;
	return 0;
}
pthread_t vs_pthread_self()
{
	return vs::active() ? BASE + static_cast<pthread_t>(w->current) : ::pthread_self();
}
int vs_pthread_sigmask(int how, const sigset_t *set, sigset_t *old)
{
	if (!vs::active())
		return ::pthread_sigmask(how, set, old);
	vs::point();
	auto &blocked = w->threads[w->current]->blocked;
	if (old)
		*old = blocked;
	if (set)
	{
		if (how == SIG_SETMASK)
			blocked = *set;
		else if (how == SIG_BLOCK)
			sigorset(&blocked, &blocked, set);
		else
			for (int s = 1; s < NSIG; ++s)
				if (sigismember(set, s))
					sigdelset(&blocked, s);
	}
	vs::point();
	return 0;
}
int vs_sigprocmask(int how, const sigset_t *set, sigset_t *old)
{
	return vs::active() ? vs_pthread_sigmask(how, set, old) : ::sigprocmask(how, set, old);
}
int vs_pthread_kill(pthread_t t, int s)
{
	if (!vs::active())
		return ::pthread_kill(t, s);
	vs::point();
	Thread *x = find(t);
	if (!x || x->joined)
	{
		vs::fault("signal to a thread that does not exist");
		return ESRCH;
	}
	return 0;
}
long vs_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	if (n != SYS_futex || !vs::active())
		return ::syscall(n, a, b, c, d, e, f);
	int *p = reinterpret_cast<int *>(a);
	access(p, 4);
	if ((b & 127) == FUTEX_WAKE || (b & 127) == FUTEX_WAKE_BITSET)
	{
		vs::wake(p);
		return 1;
	}
	if (*p != static_cast<int>(c))
	{
		errno = EAGAIN;
		return -1;
	}
	vs::block(p);
	return 0;
}
int vs_sched_yield() { vs::yield(); return 0; }
int vs_pthread_yield() { vs::yield(); return 0; }
int vs_usleep(useconds_t) { vs::yield(); return 0; }
unsigned vs_sleep(unsigned) { vs::yield(); return 0; }
int vs_nanosleep(const struct timespec *, struct timespec *) { vs::yield(); return 0; }

// --------------------------------------------------- function-local statics

int vs___cxa_guard_acquire(__cxxabiv1::__guard *g)
{
	if (!vs::active())
		return __cxxabiv1::__cxa_guard_acquire(g);
	char *b = reinterpret_cast<char *>(g);
	for (;;)
	{
		if (b[0])
			return 0;
		if (!b[1])
		{
			b[1] = 1;
			return 1;
		}
		vs::block(g);
	}
}
void vs___cxa_guard_release(__cxxabiv1::__guard *g)
{
	if (!vs::active())
		return __cxxabiv1::__cxa_guard_release(g);
	char *b = reinterpret_cast<char *>(g);
	b[0] = 1;
	b[1] = 0;
	vs::wake(g);
}

} // extern "C"
