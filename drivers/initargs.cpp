// Replays InitArgs.tla behaviours on wrapper::InitializeArgs and the library's
// own mutex callbacks.  malloc is replaced (-Wl,--wrap) to fail when told to and
// to count what the callbacks allocate.
#include <FlameIDE/Crypto/Pkcs11/InitializeArgs.hpp>
#include <FlameIDE/Common/Utils.hpp>
#include <cstdlib>
#include <memory>
#include "vf.hpp"

using namespace vf;
using namespace flame_ide::pkcs11;
using Args = wrapper::InitializeArgs;
using Word = unsigned long;

enum { N = PLACES, K = 3 };
static bool inside, memory = true;
#include "blocks.hpp"
static bool counting() { return inside; }
static bool denied() { return inside && !memory; }

// an application's callbacks: one function per field and number
template<int F, int V> CK_RV create(CK_VOID_PTR_PTR) { return F * 10 + V; }
template<int F, int V> CK_RV other(CK_VOID_PTR) { return F * 10 + V; }
static char data[8];

struct World
{
	std::unique_ptr<Args> v[N + 1];
	bool husk[N + 1] = {};
	void *mutex[K + 1] = {};
	std::string state[K + 1];
	CK_C_INITIALIZE_ARGS own;

	void reset()
	{
		Args fresh;
		own.CreateMutex = fresh.getCreateMutex();
		own.DestroyMutex = fresh.getDestroyMutex();
		own.LockMutex = fresh.getLockMutex();
		own.UnlockMutex = fresh.getUnlockMutex();
		for (int i = 1; i <= N; ++i)
			v[i].reset(), husk[i] = false;
		for (int k = 1; k <= K; ++k)
			mutex[k] = nullptr, state[k] = "none";
		blocks = 0;
	}
	std::string finish()
	{
		for (int k = 1; k <= K; ++k)
			if (mutex[k])
			{
				if (state[k] == "locked")
					own.UnlockMutex(mutex[k]);
				inside = true;
				own.DestroyMutex(mutex[k]);
				inside = false;
				mutex[k] = nullptr;
			}
		return blocks ? "memory is left allocated" : "";
	}
	CK_CREATEMUTEX first(long x) const
	{
		return x == 0 ? nullptr : x == 1 ? own.CreateMutex : x == 2 ? create<1, 2> : create<1, 3>;
	}
	CK_LOCKMUTEX rest(int f, long x) const
	{
		static const CK_LOCKMUTEX mine[5][2] = { {}, {}, { other<2, 2>, other<2, 3> }, { other<3, 2>, other<3, 3> },
			{ other<4, 2>, other<4, 3> } };
		return x == 0 ? nullptr : x > 1 ? mine[f][x - 2] : f == 2 ? own.DestroyMutex : f == 3 ? own.LockMutex
			: own.UnlockMutex;
	}
	static void *reserved(long x) { return x ? data + x : nullptr; }
	std::vector<long> fields(const CK_C_INITIALIZE_ARGS &a) const
	{
		std::vector<long> r(6, 9);
		const CK_LOCKMUTEX three[] = { a.DestroyMutex, a.LockMutex, a.UnlockMutex };
		for (long x = 3; x >= 0; --x)
		{
			if (a.CreateMutex == first(x))
				r[0] = x;
			for (int f = 2; f <= 4; ++f)
				if (three[f - 2] == rest(f, x))
					r[static_cast<size_t>(f) - 1] = x;
			if (a.pReserved == reserved(x))
				r[5] = x;
		}
		r[4] = static_cast<long>(a.flags);
		return r;
	}
	structs::InitializeArgs standard(const std::vector<long> &g) const
	{
		CK_C_INITIALIZE_ARGS s;
		s.CreateMutex = first(g[0]);
		s.DestroyMutex = rest(2, g[1]);
		s.LockMutex = rest(3, g[2]);
		s.UnlockMutex = rest(4, g[3]);
		s.flags = static_cast<Word>(g[4]);
		s.pReserved = reserved(g[5]);
		return structs::InitializeArgs(s);
	}
	Args::Callbacks callbacks(const std::vector<long> &g) const
	{
		Args::Callbacks c;
		c.createMutexCallback = first(g[0]);
		c.destroyMutexCallback = rest(2, g[1]);
		c.lockMutexCallback = rest(3, g[2]);
		c.unlockMutexCallback = rest(4, g[3]);
		return c;
	}
	static std::vector<long> some(In &in, int n)
	{
		std::vector<long> g;
		for (int k = 0; k < n; ++k)
			g.push_back(in.num());
		return g;
	}
	template<typename F>
	static std::string result(F &&f)
	{
		inside = true;
		const CK_RV r = f();
		inside = false;
		return num(static_cast<long>(r));
	}
	std::string step(In &in)
	{
		const std::string op = in.op();
		if (op == "missing")
		{
			const std::string which = in.word();
			return result([&] { return which == "create" ? own.CreateMutex(nullptr) : which == "destroy"
				? own.DestroyMutex(nullptr) : which == "lock" ? own.LockMutex(nullptr) : own.UnlockMutex(nullptr); });
		}
		const long i = in.num();
		if (op == "create")
		{
			memory = in.num() != 0;
			void *made = data;
			const std::string r = result([&] { return own.CreateMutex(&made); });
			if (memory)
				mutex[i] = made, state[i] = made && made != data ? "free" : "missing";
			memory = true;
			return r;
		}
		if (op == "destroy")
		{
			const std::string r = result([&] { return own.DestroyMutex(mutex[i]); });
			mutex[i] = nullptr, state[i] = "none";
			return r;
		}
		if (op == "lock")
			return state[i] = "locked", result([&] { return own.LockMutex(mutex[i]); });
		if (op == "unlock")
			return state[i] = "free", result([&] { return own.UnlockMutex(mutex[i]); });

		if (op == "new")
			v[i].reset(new Args);
		else if (op == "fromStruct")
			v[i].reset(new Args(standard(some(in, 6))));
		else if (op == "fromParts")
		{
			const auto g = some(in, 6);
			v[i].reset(new Args(callbacks(g), static_cast<Args::Flags>(g[4]), reserved(g[5])));
		}
		else if (op == "setCallbacks")
			v[i]->setCallbacks(callbacks(some(in, 4)));
		else if (op == "setField")
		{
			const long f = in.num(), x = in.num();
			if (f == 1) v[i]->getCreateMutex() = first(x);
			if (f == 2) v[i]->getDestroyMutex() = rest(2, x);
			if (f == 3) v[i]->getLockMutex() = rest(3, x);
			if (f == 4) v[i]->getUnlockMutex() = rest(4, x);
			if (f == 5) v[i]->getFlags() = static_cast<Args::Flags>(x);
			if (f == 6) v[i]->getReserved() = reserved(x);
		}
		else if (op == "drop")
			v[i].reset(), husk[i] = false;
		else
		{
			const long j = in.num();
			if (op == "copyNew")
				v[i].reset(new Args(static_cast<const Args &>(*v[j])));
			else if (op == "moveNew")
				v[i].reset(new Args(flame_ide::move(*v[j])));
			else if (op == "copyTo")
				*v[i] = static_cast<const Args &>(*v[j]);
			else if (op == "moveTo")
				*v[i] = flame_ide::move(*v[j]);
			else
				return "unknown operation";
			if (op[0] == 'm' && i != j)
				husk[j] = true;
			husk[i] = false;
		}
		return "0";
	}
	std::string obs()
	{
		std::vector<std::string> all, ms;
		for (int i = 1; i <= N; ++i)
		{
			if (!v[i] || husk[i])
			{
				all.push_back(v[i] ? "[0]" : "[]");
				continue;
			}
			const Args &a = *v[i];
			CK_C_INITIALIZE_ARGS got;
			got.CreateMutex = a.getCreateMutex();
			got.DestroyMutex = a.getDestroyMutex();
			got.LockMutex = a.getLockMutex();
			got.UnlockMutex = a.getUnlockMutex();
			got.flags = enums::value(a.getFlags());
			got.pReserved = a.getReserved();
			const structs::InitializeArgs original = a.getOriginal();
			all.push_back(fields(got) == fields(original) ? ints(fields(got)) : str("differs"));
		}
		for (int k = 1; k <= MUTEXES; ++k)
			ms.push_back(str(state[k]));
		return "{\"args\":" + list(all) + ",\"mutex\":" + list(ms) + "}";
	}
	std::string live() { return num(blocks); }
};

int main()
{
	World w;
	return drive(w);
}
