// Runs Locks.tla programs on mutexes made and used through the library's own
// PKCS#11 mutex callbacks.
#include <FlameIDE/Crypto/Pkcs11/InitializeArgs.hpp>
#include <atomic>
#include <memory>
#include "traced.hpp"

using traced::Op;

struct World
{
	flame_ide::pkcs11::wrapper::InitializeArgs args;
	void *mutex[2] = {};
};

static void run(World &w, int t, const std::vector<Op> &ops)
{
	for (auto &o : ops)
	{
		traced::call(t, o.name, o.args);
		void *m = w.mutex[o.args[0] - 1];
		const CK_RV r = o.name == "lock" ? w.args.getLockMutex()(m) : w.args.getUnlockMutex()(m);
		traced::ret(t, std::to_string(static_cast<long>(r)));
	}
}

int main()
{
	return traced::serve([](long, const traced::Program &p)
	{
		auto w = std::make_shared<World>();
		for (auto &m : w->mutex)
			if (w->args.getCreateMutex()(&m) != 0 || !m)
				vs::fault("no mutex was made");
		auto left = std::make_shared<std::atomic<size_t>>(p.size());
		for (size_t i = 0; i < p.size(); ++i)
			vs::spawn([w, i, left, &p]
			{
				run(*w, static_cast<int>(i) + 1, p[i]);
				if (--*left == 0)
					for (auto &m : w->mutex)
						if (w->args.getDestroyMutex()(m) != 0)
							vs::fault("a mutex was not destroyed");
			});
	});
}
