// Replays Serial.tla behaviours on templates::Serializer, Deserializer,
// SpecializedValue and ToNeedOrder.
#include <FlameIDE/Templates/Serialization.hpp>
#include <cstdint>
#include "vf.hpp"

using namespace vf;
using namespace flame_ide::templates;

#ifndef VOLATILE
#define VOLATILE false
#endif

constexpr ByteOrder BE = ByteOrder::BIG_ENDIAN_ORDER;
constexpr ByteOrder LE = ByteOrder::LITTLE_ENDIAN_ORDER;

// a host value from bytes, most significant first, and back
template<typename T>
static T make(const std::vector<int> &v)
{
	std::uint64_t r = 0;
	for (int b : v)
		r = r << 8 | unsigned(b);
	return static_cast<T>(r);
}
template<typename T>
static std::vector<int> bytes(T value)
{
	std::vector<int> r;
	for (int i = int(sizeof(T)) - 1; i >= 0; --i)
		r.push_back(int((std::uint64_t(value) >> (8 * i)) & 255));
	return r;
}
template<typename T>
static std::vector<int> memory(const T &value)
{
	const unsigned char *p = reinterpret_cast<const unsigned char *>(&value);
	return std::vector<int>(p, p + sizeof(T));
}
// the value an object keeps in its own order
template<ByteOrder O, typename T>
static std::vector<int> kept(const SpecializedValue<O, T> &s)
{
	std::vector<int> m = memory(s.getValue());
	return O == BE ? m : std::vector<int>(m.rbegin(), m.rend());
}
static std::string readResult(size_t n, const std::vector<int> &v)
{
	return "{\"n\":" + num((long long)n) + ",\"v\":" + ints(v) + "}";
}

// bytes of a constant reversed while compiling
template<typename T, std::uint64_t P>
static std::string reversed(const std::vector<int> &v)
{
	constexpr T in = static_cast<T>(P);
	constexpr T out = CompileTimeReverseBytes<T>::template ReverseBytes<in>();
	return bytes(in) == v ? ints(bytes(out)) : str("the driver's constant differs");
}
// an object made by the function for its order is the one made for any order
template<typename A, typename B>
static bool alike(const A &a, const B &b)
{
	return kept(a) == kept(b) && a.getSize() == b.getSize() && a.getOffset() == b.getOffset();
}
template<typename T>
static bool same(const SpecializedValue<BE, T> &s, T v, size_t size, size_t off)
{
	return alike(s, makeSpecializedValueBe<T>(v, size, off));
}
template<typename T>
static bool same(const SpecializedValue<LE, T> &s, T v, size_t size, size_t off)
{
	return alike(s, makeSpecializedValueLe<T>(v, size, off));
}
template<typename T>
static bool sameEmpty(const SpecializedValue<BE, T> &s, size_t size, size_t off)
{
	return alike(s, makeSpecializedValueEmptyBe<T>(size, off));
}
template<typename T>
static bool sameEmpty(const SpecializedValue<LE, T> &s, size_t size, size_t off)
{
	return alike(s, makeSpecializedValueEmptyLe<T>(size, off));
}

struct World
{
	unsigned char *buf = nullptr;
	Serializer<BE, VOLATILE> wb;
	Serializer<LE, VOLATILE> wl;
	Deserializer<BE, VOLATILE> rb;
	Deserializer<LE, VOLATILE> rl;
	bool wbe = true, rbe = true;

	void reset()
	{
		buf = new unsigned char[N];
		memset(buf, 0, N);
		writer("be", 0);
		reader("be", 0);
	}
	std::string finish() { delete[] buf; return ""; }
	void writer(const std::string &o, long p)
	{
		wbe = o == "be";
		wb = Serializer<BE, VOLATILE>(buf, size_t(p));
		wl = Serializer<LE, VOLATILE>(buf, size_t(p));
	}
	void reader(const std::string &o, long p)
	{
		rbe = o == "be";
		rb = Deserializer<BE, VOLATILE>(buf, size_t(p));
		rl = Deserializer<LE, VOLATILE>(buf, size_t(p));
	}

	template<typename T>
	std::string put(T v)
	{
		size_t n = wbe ? wb(v) : wl(v);
		return num((long long)n);
	}
	template<typename T>
	std::string get()
	{
		T v = static_cast<T>(0xA5A5A5A5A5A5A5A5ull);
		size_t n = rbe ? rb(v) : rl(v);
		return readResult(n, bytes(v));
	}
	template<ByteOrder O, typename T>
	std::string putField(size_t size, size_t off, const std::vector<int> &v)
	{
		const auto s = makeSpecializedValue<O>(make<T>(v), size, off);
		if (!same<T>(s, make<T>(v), size, off))
			return str("another function makes another object");
		size_t n = wbe ? wb(s) : wl(s);
		return kept(s) == v ? num((long long)n) : str("writing changed the value");
	}
	template<ByteOrder O, typename T>
	std::string getField(size_t size, size_t off, const std::vector<int> &v)
	{
		auto s = makeSpecializedValueEmpty<O, T>(size, off);
		if (kept(s) != std::vector<int>(sizeof(T), 0))
			return str("an empty value is not zero");
		if (!sameEmpty<T>(s, size, off) || !sameEmpty<T>(makeSpecifiedValueEmptyHost<T>(size, off), size, off))
			return str("another function makes another empty object");
		s = makeSpecializedValue<O>(make<T>(v), size, off);
		size_t n = rbe ? rb(s) : rl(s);
		return readResult(n, kept(s));
	}
	template<ByteOrder F, ByteOrder O, typename T>
	std::string convert(const std::vector<int> &v)
	{
		T in;
		std::vector<int> m = F == BE ? v : std::vector<int>(v.rbegin(), v.rend());
		unsigned char raw[sizeof(T)];
		for (size_t i = 0; i < sizeof(T); ++i)
			raw[i] = (unsigned char)m[i];
		memcpy(&in, raw, sizeof in);
		T out = ToNeedOrder<F, O>()(in);
		T out2 = ToNeedOrder<F, O>::convert(in);
		if (F == ByteOrder::HOST && out != (O == BE ? ToBigEndian()(in) : ToLittleEndian()(in)))
			return str("the conversion from the host's order disagrees");
		if (O == ByteOrder::HOST && out != (F == BE ? FromBigEndian()(in) : FromLittleEndian()(in)))
			return str("the conversion to the host's order disagrees");
		return out == out2 ? ints(memory(out)) : str("convert() disagrees");
	}
	template<ByteOrder O, typename T>
	std::string recast(size_t size, size_t off, const std::vector<int> &v)
	{
		constexpr ByteOrder OTHER = O == BE ? LE : BE;
		const auto s = makeSpecializedValue<O>(make<T>(v), size, off);
		const SpecializedValue<OTHER, T> t = s;
		std::vector<int> f, r;
		for (auto it = t.begin(); it != t.end(); ++it)
			f.push_back(*it);
		for (auto it = t.rbegin(); it != t.rend(); ++it)
			r.push_back(*it);
		if (r != std::vector<int>(f.rbegin(), f.rend()))
			return str("reverse iteration disagrees");
		if (t.getSize() != size || t.getOffset() != off)
			return str("the field changed");
		return "{\"f\":" + ints(OTHER == BE ? f : r) + ",\"v\":" + ints(kept(t)) + "}";
	}

	template<typename T>
	std::string constant(long k)
	{
		switch (k)
		{
			case 1: return reversed<T, 0x0102030405060708>(tail);
			case 2: return reversed<T, 0x80FF007FFE018000>(tail);
			case 3: return reversed<T, 0xFFFFFFFFFFFFFFFF>(tail);
			case 4: return reversed<T, 0>(tail);
			case 5: return reversed<T, 0x000000007FFF0001>(tail);
			default: return reversed<T, 0xF00FAA55C33C9966>(tail);
		}
	}

	template<typename T>
	std::string typed(const std::string &op, In &in)
	{
		if (op == "put")
			return put(make<T>(tail));
		if (op == "get")
			return get<T>();
		if (op == "convert")
		{
			return from == "be"
					? (to == "be" ? convert<BE, BE, T>(tail) : convert<BE, LE, T>(tail))
					: (to == "be" ? convert<LE, BE, T>(tail) : convert<LE, LE, T>(tail));
		}
		if (op == "putField")
			return from == "be" ? putField<BE, T>(size, off, tail) : putField<LE, T>(size, off, tail);
		if (op == "getField")
			return from == "be" ? getField<BE, T>(size, off, tail) : getField<LE, T>(size, off, tail);
		if (op == "recast")
			return from == "be" ? recast<BE, T>(size, off, tail) : recast<LE, T>(size, off, tail);
		return str("unknown operation " + op);
	}

	std::string from, to;
	size_t size = 0, off = 0;
	std::vector<int> tail;

	std::string step(In &in)
	{
		const std::string op = in.op();
		if (op == "writer" || op == "reader")
		{
			std::string o = in.word();
			long p = in.num();
			op == "writer" ? writer(o, p) : reader(o, p);
			return "0";
		}
		if (op == "constant")
		{
			const long k = in.num();
			const bool s = in.num() != 0;
			tail = in.nums();
			switch (tail.size())
			{
				case 2: return s ? constant<std::int16_t>(k) : constant<std::uint16_t>(k);
				case 4: return s ? constant<std::int32_t>(k) : constant<std::uint32_t>(k);
				default: return s ? constant<std::int64_t>(k) : constant<std::uint64_t>(k);
			}
		}
		bool s = false;
		size_t w = 0;
		if (op == "put") { s = in.num() != 0; tail = in.nums(); w = tail.size(); }
		else if (op == "get") { s = in.num() != 0; w = size_t(in.num()); }
		else if (op == "convert") { from = in.word(); to = in.word(); s = in.num() != 0; tail = in.nums(); w = tail.size(); }
		else
		{
			from = in.word();
			size = size_t(in.num());
			off = size_t(in.num());
			tail = in.nums();
			w = tail.size();
		}
		switch (w)
		{
			case 1: return s ? typed<std::int8_t>(op, in) : typed<std::uint8_t>(op, in);
			case 2: return s ? typed<std::int16_t>(op, in) : typed<std::uint16_t>(op, in);
			case 4: return s ? typed<std::int32_t>(op, in) : typed<std::uint32_t>(op, in);
			default: return s ? typed<std::int64_t>(op, in) : typed<std::uint64_t>(op, in);
		}
	}
	std::string obs() { return ints(std::vector<int>(buf, buf + N)); }
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
