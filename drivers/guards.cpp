// Replays Guards.tla behaviours on threads::Locker and threads::UniqueLocker.
#include <FlameIDE/Os/Threads/Mutex.hpp>
#include <FlameIDE/Os/Threads/Semaphore.hpp>
#include <FlameIDE/Os/Threads/Spin.hpp>
#include <FlameIDE/Os/Threads/Utils.hpp>
#include <memory>
#include "vf.hpp"

using namespace vf;
using namespace flame_ide::os::threads;

struct World
{
	std::unique_ptr<Mutex> m;
	std::unique_ptr<Spin> p;
	std::unique_ptr<Semaphore> s;
	std::unique_ptr<UniqueLocker> g[16];
	std::unique_ptr<Locker> e[16];

	void drop()
	{
		for (auto &i : g)
			i.reset();
		for (auto &i : e)
			i.reset();
	}
	void reset()
	{
		drop();
		m.reset(new Mutex);
		p.reset(new Spin);
		s.reset(new Semaphore(2));
	}
	std::string finish() { drop(); return ""; }
	std::string live() { return "0"; }

	template<typename F>
	auto on(long l, F f) { return l == 1 ? f(*m) : l == 2 ? f(*p) : f(*s); }

	static void take(Semaphore &x) { x.wait(); }
	static void give(Semaphore &x) { x.post(); }
	template<typename T> static void take(T &x) { x.lock(); }
	template<typename T> static void give(T &x) { x.unlock(); }

	std::string step(In &in)
	{
		const std::string op = in.op();
		long i = in.num();
		if (op == "make")
		{
			long l = in.num();
			std::string mode = in.word();
			g[i].reset(on(l, [&](auto &x)
			{
				return mode == "none" ? new UniqueLocker(x)
						: mode == "lock" ? new UniqueLocker(x, UniqueLocker::LOCK)
						: mode == "try" ? new UniqueLocker(x, UniqueLocker::TRY_LOCK)
						: new UniqueLocker(x, UniqueLocker::UNLOCK);
			}));
			return "0";
		}
		if (op == "lock") return num(g[i]->lock());
		if (op == "try") return boolean(g[i]->tryLock());
		if (op == "unlock") return num(g[i]->unlock());
		if (op == "moveNew") { long j = in.num(); g[i].reset(new UniqueLocker(flame_ide::move(*g[j]))); return "0"; }
		if (op == "moveTo") { long j = in.num(); *g[i] = flame_ide::move(*g[j]); return "0"; }
		if (op == "drop") { g[i].reset(); return "0"; }
		if (op == "enter") { long l = in.num(); e[i].reset(on(l, [](auto &x) { return new Locker(x); })); return "0"; }
		if (op == "leave") { e[i].reset(); return "0"; }
		if (op == "lockDirect") { on(i, [](auto &x) { take(x); return 0; }); return "0"; }
		if (op == "unlockDirect") { on(i, [](auto &x) { give(x); return 0; }); return "0"; }
		return str("unknown operation " + op);
	}
	template<typename T>
	static std::string units(T &x)
	{
		if (!x.tryLock())
			return "0";
		x.unlock();
		return "1";
	}
	std::string obs() { return "[" + units(*m) + "," + units(*p) + "," + num(s->getValue()) + "]"; }
};

int main()
{
	World w;
	return drive(w);
}
