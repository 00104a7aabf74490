// Replays Records.tla behaviours on every PKCS#11 structure of the library at
// once.  structs.inc lists them; the check writes it from the headers.
#include <structs-headers.inc>
#include <cstring>
#include <memory>
#include <new>
#include <type_traits>
#include "vf.hpp"

using namespace vf;
namespace st = flame_ide::pkcs11::structs;

enum { N = PLACES };

struct Kind
{
	std::string name;
	explicit Kind(const std::string &n) : name(n) {}
	virtual ~Kind() {}
	virtual void op(const std::string &o, long i, long j) = 0;
	virtual long value(long i) = 0;
};

// all bytes of all fields; padding is zero
template<typename P> P pattern(long v)
{
	P p;
	auto b = reinterpret_cast<unsigned char *>(&p);
	for (size_t k = 0; k < sizeof p; ++k)
		b[k] = static_cast<unsigned char>((k * 7 + k / 8 * 3 + 1) % 120 * 2 + (v % 2) + (v > 2 ? 13 : 0));
	__builtin_clear_padding(&p);
	return p;
}

template<typename S, bool> struct FromFields
{
	template<typename F> static void make(void *at, const typename S::Parent &p, F) { new (at) S(p); }
};
template<typename S> struct FromFields<S, true>
{
	template<typename F> static void make(void *at, const typename S::Parent &p, F f) { f(at, p); }
};

template<typename S, typename F> struct KindOf: Kind
{
	using P = typename S::Parent;
	alignas(S) unsigned char room[N + 1][sizeof(S)];
	F fields;

	KindOf(const std::string &n, F f) : Kind(n), fields(f) {}
	S &at(long i) { return *reinterpret_cast<S *>(room[i]); }
	void op(const std::string &o, long i, long j) override
	{
		if (o == "new" || o == "fromParent" || o == "fromFields" || o == "copyNew")
			memset(room[i], 0x5B, sizeof room[i]);
		if (o == "new") new (room[i]) S();
		if (o == "fromParent") new (room[i]) S(static_cast<const P &>(pattern<P>(j)));
		if (o == "fromFields") fields(room[i], pattern<P>(j));
		if (o == "take") at(i) = static_cast<const P &>(pattern<P>(j));
		if (o == "copyNew") new (room[i]) S(static_cast<const S &>(at(j)));
		if (o == "copyTo") at(i) = static_cast<const S &>(at(j));
		if (o == "drop") at(i).~S();
	}
	long value(long i) override
	{
		P p;
		memcpy(&p, &static_cast<const P &>(at(i)), sizeof p);
		__builtin_clear_padding(&p);
		for (long v = 1; v <= 4; ++v)
		{
			const P q = pattern<P>(v);
			if (!memcmp(&p, &q, sizeof p))
				return v;
		}
		return -9;
	}
};
template<typename S, typename F> std::unique_ptr<Kind> kindOf(const char *n, F f)
{
	return std::unique_ptr<Kind>(new KindOf<S, F>(n, f));
}

struct World
{
	std::vector<std::unique_ptr<Kind>> kinds;
	long state[N + 1];

	World()
	{
#include <structs.inc>
	}
	void reset()
	{
		for (auto &s : state)
			s = -1;
	}
	std::string finish() { return ""; }
	std::string step(In &in)
	{
		const std::string op = in.op();
		const long i = in.num();
		const long j = op == "new" || op == "drop" ? 0 : in.num();
		for (auto &k : kinds)
			k->op(op, i, j);
		state[i] = op == "drop" ? -1 : op == "new" ? 0 : 1;
		return "0";
	}
	std::string obs()
	{
		std::vector<std::string> r;
		for (int i = 1; i <= N; ++i)
		{
			std::string bad;
			long first = state[i];
			if (state[i] == 1)
			{
				first = kinds[0]->value(i);
				for (auto &k : kinds)
					if (k->value(i) != first || first < 0)
						bad += " " + k->name;
			}
			r.push_back(bad.empty() ? num(first) : str("differs:" + bad));
		}
		return list(r);
	}
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
