// Runs QueuePrograms.tla programs on the real queue of asynchronous events.
#include <FlameIDE/../../src/Os/Async/Network/QueuedArray.hpp>
#include <memory>
#include "traced.hpp"

using namespace flame_ide;
using traced::Op;

#if KIND == 0
using Value = os::SocketDescriptor;
static Value value(long v) { return static_cast<Value>(v); }
static long number(const Value &v) { return v; }
#else
using Value = os::async::network::AcceptedConnection;
static Value value(long v)
{
	Value c;
	c.server = static_cast<os::SocketDescriptor>(v);
	c.client = os::SOCKET_INVALID;
	c.client.descriptor = static_cast<os::SocketDescriptor>(v + 1000);
	return c;
}
static long number(const Value &v)
{
	return v && v.client.descriptor == v.server + 1000 ? v.server : -1;
}
#endif

struct World
{
	virtual ~World() = default;
	virtual bool init() = 0;
	virtual bool ready() = 0;
	virtual bool push(long v) = 0;
	virtual long pop() = 0;
};

template<Types::size_t N>
struct Real: World
{
	os::async::network::QueuedArray<Value, N> queue;
	bool init() override { return queue.init(); }
	bool ready() override { return static_cast<bool>(queue); }
	bool push(long v) override { return queue.push(value(v)); }
	long pop() override
	{
		long r = 0;
		queue.pop().ifResult([&r](const Value &v) { r = number(v); }).ifError([&r](bool) { r = 0; }).done();
		return r;
	}
};

static std::string step(World &w, const Op &o)
{
	if (o.name == "init") return w.init() ? "true" : "false";
	if (o.name == "ready") return w.ready() ? "true" : "false";
	if (o.name == "push") return w.push(o.args[0]) ? "true" : "false";
	return std::to_string(w.pop());
}
static void run(World &w, int t, const std::vector<Op> &ops)
{
	for (auto &o : ops)
	{
		traced::call(t, o.name, o.args);
		std::string r = step(w, o);
		traced::ret(t, r);
	}
}

int main()
{
	static const traced::Program *last = nullptr;
	static size_t runs = 0;
	static std::string before;
	return traced::serve([](long start, const traced::Program &p)
	{
		const bool interrupted = start >= 1000000;
		const long n = start % 1000000, cap = n % 10000 / 100, fill = n % 100, rot = n / 10000;
		std::shared_ptr<World> w;
		if (cap == 2) w.reset(new Real<2>);
		else w.reset(new Real<3>);
		if (fill != 99)
		{
			w->init();
			for (long i = 0; i < rot; ++i)
			{
				w->push(80);
				w->pop();
			}
			for (long i = 0; i < fill; ++i)
				w->push(91 + i);
		}
		// where the arrival interrupts: every point in turn
		std::string text = std::to_string(start);
		for (auto &t : p)
			for (auto &o : t)
				text += o.name;
		if (text != before)
		{
			before = text;
			runs = 0;
		}
		const long at = static_cast<long>(runs++);
		for (size_t i = 0; i < p.size(); ++i)
		{
			if (interrupted && i + 1 == p.size())
				break;
			vs::spawn([w, i, &p, interrupted, at]
			{
				if (interrupted && i == 0)
				{
					World *const raw = w.get();
					vs::handler = [raw, &p] { run(*raw, static_cast<int>(p.size()), p.back()); };
					vs::interruptible(at % 400);
				}
				run(*w, static_cast<int>(i) + 1, p[i]);
				if (interrupted && i == 0)
					vs::interruptible(-1);
			});
		}
	});
}
