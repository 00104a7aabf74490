// Converts the numbers Decimal.tla enumerates with templates::toString.
#include <FlameIDE/Templates/StringConvertions.hpp>
#include <cstdint>
#include "vf.hpp"

using namespace vf;

template<typename T>
static std::string notation(unsigned long long bits)
{
	auto s = flame_ide::templates::toString(static_cast<T>(bits));
	bool minus = s.length() && s[0] == '-';
	std::vector<int> digits;
	for (size_t i = minus ? 1 : 0; i < s.length(); ++i)
		digits.push_back(s[i] - '0');
	if (s.data()[s.length()] != 0)
		return str("not terminated");
	return "{\"digits\":" + ints(digits) + ",\"minus\":" + boolean(minus) + "}";
}

struct World
{
	void reset() {}
	std::string finish() { return ""; }
	std::string step(In &in)
	{
		bool s = in.num() != 0;
		std::vector<int> b = in.nums();
		unsigned long long bits = 0;
		for (int x : b)
			bits = bits << 8 | unsigned(x);
		switch (b.size())
		{
			case 1: return s ? notation<std::int8_t>(bits) : notation<std::uint8_t>(bits);
			case 2: return s ? notation<std::int16_t>(bits) : notation<std::uint16_t>(bits);
			case 4: return s ? notation<std::int32_t>(bits) : notation<std::uint32_t>(bits);
			default: return s ? notation<std::int64_t>(bits) : notation<std::uint64_t>(bits);
		}
	}
	std::string obs() { return "0"; }
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
