// Arithmetic of Numeric.tla on AsIntegralType, byte_t and the bit constants.
#include <FlameIDE/Common/Byte.hpp>
#include <FlameIDE/Templates/AsIntegralType.hpp>
#include <FlameIDE/Templates/Bits.hpp>
#include <cstdint>
#include "vf.hpp"

using namespace vf;
namespace fi = flame_ide;
using fi::templates::AsIntegralType;

using Bits = unsigned long long;

static Bits join(const std::vector<int> &b)
{
	Bits r = 0;
	for (int x : b)
		r = r << 8 | unsigned(x);
	return r;
}

static std::string split(Bits v, int n)
{
	std::vector<int> r;
	for (int i = n - 1; i >= 0; --i)
		r.push_back(int(v >> (8 * i) & 255));
	return ints(r);
}

template<typename T> std::string bytesOf(T v) { return split(Bits(v), int(sizeof(T))); }

// calls f with a value of the type of that signedness and width
template<typename F>
std::string withType(bool s, int w, F f)
{
	switch (w)
	{
		case 1: return s ? f(std::int8_t()) : f(std::uint8_t());
		case 2: return s ? f(std::int16_t()) : f(std::uint16_t());
		case 4: return s ? f(std::int32_t()) : f(std::uint32_t());
		default: return s ? f(std::int64_t()) : f(std::uint64_t());
	}
}

// y as a number of another type: sign extended from its own
template<typename T> T number(const std::vector<int> &b) { return T(join(b)); }

template<typename Wrapper, typename Operand>
std::string compare(const std::string &op, Wrapper x, Operand y)
{
	if (op == "eq") return boolean(x == y);
	if (op == "ne") return boolean(x != y);
	if (op == "lt") return boolean(x < y);
	if (op == "gt") return boolean(x > y);
	if (op == "le") return boolean(x <= y);
	return boolean(x >= y);
}

// both the plain and the compound form; x keeps its value in the first and
// gets the result, which is itself returned, in the second
template<typename Wrapper, typename Operand>
std::string compute(const std::string &op, Wrapper x, Operand y)
{
	const auto before = x.val;
	Wrapper plain = x;
	Wrapper *returned = nullptr;
	Wrapper z = x;
#define OPERATION(name, sign) if (op == name) { plain = x sign y; returned = &(z sign##= y); }
	OPERATION("add", +)
	OPERATION("sub", -)
	OPERATION("mul", *)
	OPERATION("div", /)
	OPERATION("or", |)
	OPERATION("shl", <<)
	OPERATION("shr", >>)
#undef OPERATION
	if (x.val != before)
		return str("the left operand changed");
	if (returned != &z)
		return str("the compound form returned another object");
	if (plain.val != z.val)
		return str("plain and compound forms differ: " + bytesOf(plain.val) + " and " + bytesOf(z.val));
	return bytesOf(z.val);
}

// one byte operation with an operand of some integer type
template<typename Operand>
std::string byteOperation(const std::string &op, unsigned x, Operand y)
{
	const auto b = fi::toByte(x);
	auto plain = b;
	auto z = b;
	fi::byte_t *returned = &z;
	if (op == "not") { plain = ~b; z = plain; }
	if (op == "shl") { plain = b << y; returned = &(z <<= y); }
	if (op == "shr") { plain = b >> y; returned = &(z >>= y); }
	if (op == "or") { plain = b | y; returned = &(z |= y); }
	if (op == "and") { plain = b & y; returned = &(z &= y); }
	if (op == "xor") { plain = b ^ y; returned = &(z ^= y); }
	if (returned != &z)
		return str("the compound form returned another object");
	if (plain != z)
		return str("plain and compound forms differ");
	if (fi::toInteger<int>(z) != int(fi::toInteger<unsigned char>(z)))
		return str("the integer of the byte depends on its type");
	return ints(std::vector<int>{ fi::toInteger<int>(z) });
}

#define UP8(m, w, d) m(w, d##0) m(w, d##1) m(w, d##2) m(w, d##3) m(w, d##4) m(w, d##5) m(w, d##6) m(w, d##7)
#define UP10(m, w, d) UP8(m, w, d) m(w, d##8) m(w, d##9)
#define ONE(w, i) bytesOf(fi::templates::bits::Constants::BIT##w##_##i),
static std::string bitConstant(int w, int i)
{
	static const std::string of8[] = { UP8(ONE, 8, ) };
	static const std::string of16[] = { UP10(ONE, 16, ) ONE(16, 10) ONE(16, 11) ONE(16, 12) ONE(16, 13) ONE(16, 14) ONE(16, 15) };
	static const std::string of32[] = { UP10(ONE, 32, ) UP10(ONE, 32, 1) UP10(ONE, 32, 2) ONE(32, 30) ONE(32, 31) };
	static const std::string of64[] = { UP10(ONE, 64, ) UP10(ONE, 64, 1) UP10(ONE, 64, 2) UP10(ONE, 64, 3) UP10(ONE, 64, 4)
		UP10(ONE, 64, 5) ONE(64, 60) ONE(64, 61) ONE(64, 62) ONE(64, 63) };
	return w == 1 ? of8[i] : w == 2 ? of16[i] : w == 4 ? of32[i] : of64[i];
}
#define MIN(w, i) int(sizeof(fi::templates::bits::MinimalType<i>::Type)),
static int minimal(int n)
{
	static const int sizes[] = { 0, MIN(0, 1) MIN(0, 2) MIN(0, 3) MIN(0, 4) MIN(0, 5) MIN(0, 6) MIN(0, 7) MIN(0, 8) MIN(0, 9)
		UP10(MIN, 0, 1) UP10(MIN, 0, 2) UP10(MIN, 0, 3) UP10(MIN, 0, 4) UP10(MIN, 0, 5)
		MIN(0, 60) MIN(0, 61) MIN(0, 62) MIN(0, 63) MIN(0, 64) };
	return sizes[n];
}

struct World
{
	void reset() {}
	std::string finish() { return ""; }
	std::string step(In &in)
	{
		std::string kind = in.op(), op = in.word();
		bool s = in.num() != 0;
		int w = int(in.num());
		std::vector<int> x = in.nums(), y = in.nums();
		std::string form = in.word();
		bool us = in.num() != 0;
		int uw = int(in.num());
		if (kind == "bit")
			return bitConstant(w, x[0]);
		if (kind == "minimal")
			return num(minimal(x[0]));
		if (kind == "byte")
		{
			std::string a = byteOperation(op, unsigned(x[0]), y[0]);
			std::string b = byteOperation(op, unsigned(x[0]), (unsigned char)y[0]);
			std::string c = byteOperation(op, unsigned(x[0]), (unsigned long)y[0]);
			return a == b && b == c ? a : str("the result depends on the type of the operand");
		}
		return withType(s, w, [&](auto t) -> std::string
		{
			using T = decltype(t);
			using Wrapper = AsIntegralType<T>;
			T a = number<T>(x);
			if (op == "bool")
				return boolean(bool(Wrapper(a)));
			if (kind != "convert" && form == "me")
			{
				Wrapper b = number<T>(y);
				return kind == "compare" ? compare(op, Wrapper(a), b) : compute(op, Wrapper(a), b);
			}
			return withType(us, uw, [&](auto u) -> std::string
			{
				using U = decltype(u);
				if (op == "to")
				{
					Wrapper wrapper(a);
					return bytesOf(static_cast<U>(wrapper));
				}
				if (op == "new")
				{
					AsIntegralType<U> wrapper(a);
					AsIntegralType<U> copy(wrapper), moved(static_cast<AsIntegralType<U> &&>(wrapper));
					return copy.val == moved.val ? bytesOf(copy.val) : str("copies differ");
				}
				if (op == "assign")
				{
					AsIntegralType<U> wrapper(U(1));
					auto &r = wrapper = a;
					AsIntegralType<U> other(U(2));
					other = wrapper;
					if (other.val != wrapper.val)
						return str("copies differ");
					return &r == &wrapper ? bytesOf(wrapper.val) : str("assignment returned another object");
				}
				U b = U(number<T>(y));
				return kind == "compare" ? compare(op, Wrapper(a), b) : compute(op, Wrapper(a), b);
			});
		});
	}
	std::string obs() { return "0"; }
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
