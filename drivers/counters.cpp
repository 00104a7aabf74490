// Runs CounterPrograms.tla programs: threads on two shared counters.
#include <FlameIDE/Os/Threads/Counter.hpp>
#include <FlameIDE/Os/Threads/Mutex.hpp>
#include <FlameIDE/Os/Threads/Spin.hpp>
#include <atomic>
#include <memory>
#include "traced.hpp"

using namespace flame_ide::os::threads;
using traced::Op;

/// A value of two words: a reader between their changes would see them differ
struct Pair
{
	long a = 0, b = 0;
	Pair &operator++() { ++a; ++b; return *this; }
	Pair &operator--() { --a; --b; return *this; }
};
static std::string shown(const Pair &p) { return p.a == p.b ? std::to_string(p.a) : "-99"; }
static std::string shown(long n) { return std::to_string(n); }

struct Counters
{
	virtual ~Counters() = default;
	virtual std::string step(const std::string &op, long c) = 0;
};
template<typename Lock, typename Value>
struct CountersOf : Counters
{
	using C = Counter<Lock, Value>;
	std::unique_ptr<C> counter[2] { std::unique_ptr<C>(new C), std::unique_ptr<C>(new C) };
	std::string step(const std::string &op, long c) override
	{
		auto &me = counter[c - 1];
		if (op == "inc") return &++*me == me.get() ? "0" : "-98";
		if (op == "dec") return &--*me == me.get() ? "0" : "-98";
		if (op == "twice") return &++(++*me) == me.get() ? "0" : "-98";
		if (op == "back") return &--(++*me) == me.get() ? "0" : "-98";
		if (op == "current") return shown(static_cast<const C &>(*me).current());
		if (op == "take") me.reset(new C(flame_ide::move(*me)));
		else if (op == "give")
		{
			*counter[2 - c] = flame_ide::move(*me);
			me.reset(new C);
		}
		return "0";
	}
};
static Counters *make(long kind)
{
	switch (kind)
	{
		case 0: return new CountersOf<Mutex, int>;
		case 1: return new CountersOf<Mutex, unsigned char>;
		case 2: return new CountersOf<Mutex, Pair>;
		case 3: return new CountersOf<Spin, int>;
		case 4: return new CountersOf<Spin, unsigned char>;
		default: return new CountersOf<Spin, Pair>;
	}
}

static void run(Counters &w, int t, const std::string &op, const std::vector<long> &args)
{
	traced::call(t, op, args);
	traced::ret(t, w.step(op, args[0]));
}

int main()
{
	return traced::serve([](long kind, const traced::Program &p)
	{
		auto w = std::shared_ptr<Counters>(make(kind));
		auto left = std::make_shared<std::atomic<size_t>>(p.size());
		for (size_t i = 0; i < p.size(); ++i)
			vs::spawn([w, i, left, &p]
			{
				const int t = static_cast<int>(i) + 1;
				for (auto &o : p[i])
					run(*w, t, o.name, o.args);
				// the last thread looks at what is left
				if (!--*left)
				{
					run(*w, t, "current", { 1 });
					run(*w, t, "current", { 2 });
				}
			});
	});
}
