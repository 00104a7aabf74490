// Runs GuardPrograms.tla programs: lock guards used by several threads.
#include <FlameIDE/Os/Threads/Mutex.hpp>
#include <FlameIDE/Os/Threads/Semaphore.hpp>
#include <FlameIDE/Os/Threads/Spin.hpp>
#include <FlameIDE/Os/Threads/Utils.hpp>
#include <atomic>
#include <memory>
#include "traced.hpp"

using namespace flame_ide::os::threads;
using traced::Op;

struct World
{
	Mutex mutex;
	Spin spin;
	Semaphore semaphore;
	std::unique_ptr<UniqueLocker> guard[9];
	std::unique_ptr<Locker> scoped[5];
	explicit World(long init) : semaphore(init) {}

	template<typename G, typename... A>
	G *make(long l, A... a)
	{
		return l == 1 ? new G(mutex, a...) : l == 2 ? new G(spin, a...) : new G(semaphore, a...);
	}
};

static void run(World &w, int t, const std::vector<Op> &ops)
{
	for (auto &o : ops)
	{
		traced::call(t, o.name, o.args);
		std::string r = "0";
		const long g = o.args[0], l = o.args.size() > 1 ? o.args[1] : 0;
		if (o.name == "refer") w.guard[g].reset(w.make<UniqueLocker>(l));
		else if (o.name == "makeLock") w.guard[g].reset(w.make<UniqueLocker>(l, UniqueLocker::LOCK));
		else if (o.name == "makeTry") w.guard[g].reset(w.make<UniqueLocker>(l, UniqueLocker::TRY_LOCK));
		else if (o.name == "lock") w.guard[g]->lock();
		else if (o.name == "try") r = w.guard[g]->tryLock() ? "true" : "false";
		else if (o.name == "unlock") w.guard[g]->unlock();
		else if (o.name == "move")
		{
			w.guard[l].reset(new UniqueLocker(flame_ide::move(*w.guard[g])));
			w.guard[g].reset();
		}
		else if (o.name == "drop") w.guard[g].reset();
		else if (o.name == "enter") w.scoped[g].reset(w.make<Locker>(l));
		else if (o.name == "leave") w.scoped[g].reset();
		traced::ret(t, r);
	}
}

int main()
{
	return traced::serve([](long init, const traced::Program &p)
	{
		auto w = std::make_shared<World>(init);
		auto left = std::make_shared<std::atomic<size_t>>(p.size());
		for (size_t i = 0; i < p.size(); ++i)
			vs::spawn([w, i, left, &p]
			{
				const int t = static_cast<int>(i) + 1;
				run(*w, t, p[i]);
				if (--*left)
					return;
				// the last thread looks at what is left
				traced::call(t, "free", { 1 });
				traced::ret(t, w->mutex.tryLock() ? "1" : "0");
			});
	});
}
