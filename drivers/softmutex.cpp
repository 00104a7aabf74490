// Replays SoftMutex.tla behaviours on the software module's mutex objects.  The
// application's callbacks defined here know their mutexes and record calls that
// do not fit their state.
#include <FlameIDE/../../src/Crypto/SoftPkcs11/Mutex.hpp>
#include <FlameIDE/Common/Utils.hpp>
#include <memory>
#include <set>
#include "vf.hpp"

using namespace vf;
using flame_ide::soft_pkcs11::Mutex;

enum { N = PLACES, C = 2 };
static long strays, code, made;
static std::set<void *> alive[C + 1], locked[C + 1];
static char room[1 << 16];

template<int K> CK_RV create(CK_VOID_PTR_PTR m)
{
	if (code)
		return static_cast<CK_RV>(code);
	*m = room + made++ % sizeof room;
	alive[K].insert(*m);
	return 0;
}
template<int K> CK_RV destroy(CK_VOID_PTR m)
{
	strays += !alive[K].erase(m) || locked[K].count(m);
	return 0;
}
template<int K> CK_RV lock(CK_VOID_PTR m)
{
	strays += !alive[K].count(m);
	if (code)
		return static_cast<CK_RV>(code);
	strays += !locked[K].insert(m).second;
	return 0;
}
template<int K> CK_RV unlock(CK_VOID_PTR m)
{
	strays += !alive[K].count(m);
	if (code)
		return static_cast<CK_RV>(code);
	strays += !locked[K].erase(m);
	return 0;
}

struct World
{
	std::unique_ptr<Mutex> v[N + 1];
	std::string state[N + 1];

	void reset()
	{
		strays = code = made = 0;
		for (int k = 1; k <= C; ++k)
			alive[k].clear(), locked[k].clear();
		for (int i = 1; i <= N; ++i)
			state[i] = "none";
	}
	std::string finish()
	{
		for (int i = 1; i <= N; ++i)
		{
			if (state[i] == "locked")
				v[i]->unlock();
			v[i].reset();
		}
		return strays ? "callbacks called out of turn" : !alive[1].empty() || !alive[2].empty() ? "a mutex is left" : "";
	}
	std::string status(long i) { return num(static_cast<long>(flame_ide::pkcs11::enums::value(v[i]->getLastStatus()))); }
	template<int K> Mutex *with(long missing)
	{
		return new Mutex(missing == 1 ? nullptr : create<K>, missing == 2 ? nullptr : destroy<K>
			, missing == 3 ? nullptr : lock<K>, missing == 4 ? nullptr : unlock<K>);
	}
	std::string step(In &in)
	{
		const std::string op = in.op();
		const long i = in.num();
		code = 0;
		if (op == "new")
		{
			v[i].reset(new Mutex);
			state[i] = "empty";
			return status(i);
		}
		if (op == "make" || op == "incomplete")
		{
			const long k = in.num(), x = in.num();
			const bool make = op == "make";
			code = make ? x : 0;
			v[i].reset(k == 1 ? with<1>(make ? 0 : x) : with<2>(make ? 0 : x));
			state[i] = make && !code ? "free" : "empty";
			code = 0;
			return status(i);
		}
		if (op == "lock" || op == "unlock")
		{
			code = in.num();
			op == "lock" ? v[i]->lock() : v[i]->unlock();
			if (!code)
				state[i] = op == "lock" ? "locked" : "free";
			code = 0;
			return status(i);
		}
		if (op == "destroy")
		{
			v[i]->destroy();
			state[i] = "empty";
			return status(i);
		}
		if (op == "destroyAgain")
			return v[i]->destroy(), "0";
		if (op == "drop")
		{
			v[i].reset();
			state[i] = "none";
			return "0";
		}
		const long j = in.num();
		if (op == "moveNew")
			v[i].reset(new Mutex(flame_ide::move(*v[j])));
		else if (op == "moveTo")
			*v[i] = flame_ide::move(*v[j]);
		else
			return "unknown operation";
		if (i != j)
			state[i] = state[j], state[j] = "empty";
		return "0";
	}
	std::string obs()
	{
		std::vector<std::string> s;
		for (int i = 1; i <= N; ++i)
			s.push_back(str(state[i]));
		std::vector<long> a, l;
		for (int k = 1; k <= C; ++k)
			a.push_back(static_cast<long>(alive[k].size())), l.push_back(static_cast<long>(locked[k].size()));
		return "{\"alive\":" + ints(a) + ",\"locked\":" + ints(l) + ",\"obj\":" + list(s) + ",\"stray\":" + num(strays) + "}";
	}
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
