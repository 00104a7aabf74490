// Replays QueueRuns.tla behaviours on queues of asynchronous events of the
// capacities -DCAPS; every second queue holds accepted connections.
#include <FlameIDE/../../src/Os/Async/Network/QueuedArray.hpp>
#include <FlameIDE/Os/Async/Network/Registrar.hpp>
#include <memory>
#include "vf.hpp"

using namespace vf;
using namespace flame_ide;

static void make(os::SocketDescriptor &v, long n) { v = static_cast<os::SocketDescriptor>(n); }
static long number(const os::SocketDescriptor &v) { return v; }
using Connection = os::async::network::AcceptedConnection;
static void make(Connection &v, long n)
{
	v.server = static_cast<os::SocketDescriptor>(n);
	v.client = os::SOCKET_INVALID;
	v.client.descriptor = static_cast<os::SocketDescriptor>(n + 1000);
}
static long number(const Connection &v) { return v.client.descriptor == v.server + 1000 ? v.server : -1; }

struct Queue
{
	virtual ~Queue() = default;
	virtual bool prepare() = 0;
	virtual bool ready() = 0;
	virtual bool push(long v) = 0;
	virtual bool pop(long &v) = 0;
	long in = 100, out = 100; // numbers of the next events
};

template<typename Value, Types::size_t N>
struct Real: Queue
{
	os::async::network::QueuedArray<Value, N> queue;
	bool prepare() override { return queue.init(); }
	bool ready() override { return static_cast<bool>(queue); }
	bool push(long v) override
	{
		Value x;
		make(x, v);
		return queue.push(x);
	}
	bool pop(long &v) override
	{
		bool came = false;
		queue.pop().ifResult([&](const Value &x) { came = true; v = number(x); }).ifError([](bool) {}).done();
		return came;
	}
};

template<bool CONNECTION> static void fill(std::vector<std::unique_ptr<Queue>> &) {}
template<bool CONNECTION, Types::size_t N, Types::size_t ...MORE>
static void fill(std::vector<std::unique_ptr<Queue>> &all)
{
	if (CONNECTION)
		all.emplace_back(new Real<Connection, N>);
	else
		all.emplace_back(new Real<os::SocketDescriptor, N>);
	fill<!CONNECTION, MORE...>(all);
}

struct World
{
	std::vector<std::unique_ptr<Queue>> all;

	void reset()
	{
		all.clear();
		fill<false, CAPS>(all);
	}
	std::string finish() { all.clear(); return ""; }
	std::string step(In &in)
	{
		const std::string op = in.op();
		Queue &q = *all[in.num() - 1];
		if (op == "prepare")
			return boolean(q.prepare());
		const long k = in.num();
		long n = 0;
		for (long i = 0; i < k; ++i)
			if (op == "push")
			{
				if (!q.push(q.in))
					continue;
				++q.in;
				++n;
			}
			else
			{
				long v = 0;
				if (!q.pop(v))
					continue;
				if (v != q.out)
					return str("event " + std::to_string(v - q.in) + " taken, not the oldest");
				++q.out;
				++n;
			}
		return num(n);
	}
	std::string obs()
	{
		std::vector<std::string> r;
		for (auto &q : all)
			r.push_back(boolean(q->ready()));
		return list(r);
	}
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
