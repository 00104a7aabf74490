// Runs Thread.tla histories on real thread objects.
#include <FlameIDE/Os/Constants.hpp>
#include <FlameIDE/Os/Threads/Thread.hpp>
#include <FlameIDE/Common/Utils.hpp>
#include <atomic>
#include <memory>
#include "traced.hpp"

using namespace flame_ide::os::threads;

struct World;

struct Task: public ThreadBase
{
	World *world;
	long id;
	Task(World *world, long id) : world(world), id(id) {}
	Task(World *world, long id, Task &&task) : ThreadBase(flame_ide::move(task)), world(world), id(id) {}
	virtual void vRun() noexcept override;
	void take(Task &task) { ThreadBase::operator=(flame_ide::move(task)); }
	bool ok() const { return getStatus() == flame_ide::os::STATUS_SUCCESS; }
};

struct World
{
	std::unique_ptr<Task> task[5];
	std::atomic<long> open[5] = {}; // bodies started on the object that are not over
	std::atomic<int> bodies{ 0 };
};

void Task::vRun() noexcept
{
	World &w = *world;
	const long o = id;
	const int t = 2 + w.bodies++;
	traced::call(t, "body", { o });
	vs::point();
	vs::point();
	traced::ret(t, "0");
	--w.open[o];
	vs::wake(&w.open[o]);
}

static void run(World &w, const std::vector<traced::Op> &ops)
{
	for (auto &o : ops)
	{
		const long i = o.args[0], j = o.args.size() > 1 ? o.args[1] : 0;
		traced::call(1, o.name, o.args);
		std::string r = "0";
		if (o.name == "new") w.task[i].reset(new Task(&w, i));
		else if (o.name == "run")
		{
			const long failed = vs::failed();
			++w.open[i];
			w.task[i]->run();
			const bool ok = w.task[i]->ok(), injected = vs::failed() != failed;
			if (!ok)
				--w.open[i];
			r = std::string("[") + (ok ? "true" : "false") + "," + (injected ? "true" : "false") + "]";
		}
		else if (o.name == "join") w.task[i]->join();
		else if (o.name == "detach") w.task[i]->detach();
		else if (o.name == "working") r = w.task[i]->isWorking() ? "true" : "false";
		else if (o.name == "moveNew") w.task[i].reset(new Task(&w, i, flame_ide::move(*w.task[j])));
		else if (o.name == "moveTo") w.task[i]->take(*w.task[j]);
		else if (o.name == "destroy") w.task[i].reset();
		else if (o.name == "settle")
			while (w.open[i])
				vs::block(&w.open[i]);
		traced::ret(1, r);
	}
}

int main()
{
	vs::accountThreads = true;
	return traced::serve([](long, const traced::Program &p)
	{
		World &w = *new World;
		run(w, p[0]);
		// every object's life ends
		std::vector<traced::Op> rest;
		for (long i = 1; i < 5; ++i)
			if (w.task[i])
				rest.push_back({ "settle", { i } });
		for (long i = 1; i < 5; ++i)
			if (w.task[i])
				rest.push_back({ "destroy", { i } });
		run(w, rest);
	}, 40);
}
