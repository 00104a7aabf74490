// Answers Constants.tla cases with the library's named values.  constants.inc
// is written by the check: one entry per type and name of the specification.
#include <FlameIDE/Crypto/Pkcs11/Types/Enums.hpp>
#include <map>
#include "vf.hpp"

using namespace vf;
namespace en = flame_ide::pkcs11::enums;
using Number = unsigned long;

struct Kind
{
	std::map<std::string, Number> values;
	Number (*combined)(const std::string &op, Number x, Number y) = nullptr;
	Number (*converted)(Number x) = nullptr;
};

template<typename E>
static Number combined(const std::string &op, Number x, Number y)
{
	const E a = static_cast<E>(x), b = static_cast<E>(y);
	return en::value(op == "or" ? a | b : a & b);
}

template<typename E>
static Number converted(Number x, E (*make)(en::utils::UnderlyingType<E>))
{
	using U = en::utils::UnderlyingType<E>;
	U u = static_cast<U>(x);
	const U k = u;
	E e = make(u);
	const E c = e;
	// all ways of looking at it see the same number
	const bool same = en::value(e) == u && en::reference(e) == u && en::reference(c) == u && en::reference<E>(u) == e
			&& en::reference<E>(k) == e;
	// writing through the reference reaches the value
	U other = static_cast<U>(~u);
	en::reference(e) = other;
	return same && en::value(e) == other ? Number(en::value(c)) : ~x;
}

static std::map<std::string, Kind> kinds()
{
	std::map<std::string, Kind> m;
#include "constants.inc"
	return m;
}

struct World
{
	std::map<std::string, Kind> all = kinds();

	void reset() {}
	std::string finish() { return ""; }
	static std::string parts(Number x)
	{
		std::vector<long> r;
		for (int at = 48; at >= 0; at -= 16)
			r.push_back(long(x >> at & 0xFFFF));
		return ints(r);
	}
	std::string step(In &in)
	{
		const std::string op = in.op();
		Kind &k = all[in.word()];
		if (op == "convert")
		{
			Number x = 0;
			for (long part : in.nums())
				x = x << 16 | Number(part);
			return parts(k.converted(x));
		}
		const Number x = k.values[in.word()];
		if (op == "value")
			return parts(x);
		return parts(k.combined(op, x, k.values[in.word()]));
	}
	std::string obs() { return "0"; }
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
