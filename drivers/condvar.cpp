// Runs CondPrograms.tla programs on the real condition variable.
#include <FlameIDE/Os/Threads/ConditionVariable.hpp>
#include <FlameIDE/Os/Threads/Mutex.hpp>
#include <FlameIDE/Os/Threads/Semaphore.hpp>
#include <FlameIDE/Os/Threads/Spin.hpp>
#include <memory>
#include "traced.hpp"

using namespace flame_ide::os::threads;
using traced::Op;

struct World
{
	Mutex mutex;
	Spin spin;
	Semaphore semaphore{ 1 };
	std::unique_ptr<ConditionVariable> condition;
	volatile bool value = false;

	explicit World(long kind)
	{
		condition.reset(kind == 1 ? new ConditionVariable(mutex) : kind == 2 ? new ConditionVariable(spin)
				: new ConditionVariable(semaphore));
	}
};

static void run(World &w, int t, const std::vector<Op> &ops)
{
	for (auto &o : ops)
	{
		traced::call(t, o.name, o.args);
		std::string r = "0";
		if (o.name == "wait") w.condition->wait();
		else if (o.name == "waitIf") w.condition->wait([&w]() -> bool { return w.value; });
		else if (o.name == "notify") w.condition->notify();
		else if (o.name == "tryWait") r = w.condition->tryWait() ? "true" : "false";
		else if (o.name == "isWait") r = w.condition->isWait() ? "true" : "false";
		else if (o.name == "set") w.value = true;
		traced::ret(t, r);
	}
}

int main()
{
	return traced::serve([](long kind, const traced::Program &p)
	{
		auto w = new World(kind); // threads may stay in it
		for (size_t i = 0; i < p.size(); ++i)
			vs::spawn([w, i, &p] { run(*w, static_cast<int>(i) + 1, p[i]); });
	});
}
