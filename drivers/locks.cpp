// Runs Locks.tla programs on the real mutex, spin lock and semaphore.
#include <FlameIDE/Os/Threads/Mutex.hpp>
#include <FlameIDE/Os/Threads/Semaphore.hpp>
#include <FlameIDE/Os/Threads/Spin.hpp>
#include <algorithm>
#include <atomic>
#include <memory>
#include "traced.hpp"

using namespace flame_ide::os::threads;
using traced::Op;

struct World
{
	std::unique_ptr<Mutex> mutex;
	std::unique_ptr<Spin> spin;
	std::unique_ptr<Semaphore> semaphore;
};

// MADE selects how the objects come into being: 0 constructed, 1 moved, 2 assigned
static void make(World &w, long init)
{
#if MADE == 0
	w.mutex.reset(new Mutex);
	w.spin.reset(new Spin);
	w.semaphore.reset(new Semaphore(init));
#elif MADE == 1
	Mutex m;
	Spin p;
	Semaphore s(init);
	w.mutex.reset(new Mutex(flame_ide::move(m)));
	w.spin.reset(new Spin(flame_ide::move(p)));
	w.semaphore.reset(new Semaphore(flame_ide::move(s)));
#else
	Mutex m;
	Spin p;
	Semaphore s(init);
	w.mutex.reset(new Mutex);
	w.spin.reset(new Spin);
	w.semaphore.reset(new Semaphore(7));
	*w.mutex = flame_ide::move(m);
	*w.spin = flame_ide::move(p);
	*w.semaphore = flame_ide::move(s);
#endif
}

static void run(World &w, int t, const std::vector<Op> &ops)
{
	bool got = false;
	for (auto &o : ops)
	{
		if (o.name == "unlock?" && !got)
			continue;
		const std::string name = o.name == "unlock?" ? "unlock" : o.name;
		traced::call(t, name, o.args);
		const long l = o.args[0];
		std::string r = "0";
		if (l == 1)
		{
			if (name == "lock") w.mutex->lock();
			else if (name == "unlock") w.mutex->unlock();
			else r = (got = w.mutex->tryLock()) ? "true" : "false";
		}
		else if (l == 2)
		{
			if (name == "lock") w.spin->lock();
			else if (name == "unlock") w.spin->unlock();
			else r = (got = w.spin->tryLock()) ? "true" : "false";
		}
		else
		{
			if (name == "wait") w.semaphore->wait();
			else if (name == "post") w.semaphore->post();
			else if (name == "value") r = std::to_string(static_cast<long>(w.semaphore->getValue()));
			else r = (got = w.semaphore->tryWait()) ? "true" : "false";
		}
		traced::ret(t, r);
	}
}

int main()
{
	return traced::serve([](long init, const traced::Program &p)
	{
		auto w = std::make_shared<World>();
		make(*w, init);
		auto left = std::make_shared<std::atomic<size_t>>(p.size());
		for (size_t i = 0; i < p.size(); ++i)
			vs::spawn([w, i, left, &p]
			{
				run(*w, static_cast<int>(i) + 1, p[i]);
				if (--*left == 0 && (!*w->mutex || !*w->spin || !*w->semaphore))
					vs::fault("a lock reports failure though nothing failed");
			});
	});
}
