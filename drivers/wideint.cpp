// Replays WideInt.tla behaviours on templates::WideInt<8 * B - LESS, SIGN>: widths
// that are no multiple of eight are rounded up to whole bytes.
#include <FlameIDE/Templates/WideInt.hpp>
#include <cstdint>
#include "vf.hpp"

#ifndef LESS
#define LESS 0
#endif

using namespace vf;
using W = flame_ide::templates::WideInt<8 * B - LESS, SIGN>;

template<typename T>
static T make(const std::vector<int> &v)
{
	std::uint64_t r = 0;
	for (int b : v)
		r = r << 8 | unsigned(b);
	return static_cast<T>(r);
}
template<typename T>
static std::string bytes(T value)
{
	std::vector<int> r;
	for (int i = int(sizeof(T)) - 1; i >= 0; --i)
		r.push_back(int((std::uint64_t(value) >> (8 * i)) & 255));
	return ints(r);
}

struct World
{
	unsigned char *mem[3] = { nullptr, nullptr, nullptr };
	W *x[3] = { nullptr, nullptr, nullptr };

	// objects are made in memory that is not zero
	template<typename ...Args>
	void put(int i, Args &&...args)
	{
		unsigned char *m = new unsigned char[sizeof(W)];
		memset(m, 0xA5, sizeof(W));
		W *n = new (m) W(args...);
		delete[] mem[i];
		mem[i] = m;
		x[i] = n;
	}
	void reset() { put(1, 0); put(2, 0); }
	std::string finish()
	{
		for (int i = 1; i < 3; ++i)
		{
			delete[] mem[i];
			mem[i] = nullptr;
		}
		return "";
	}

	template<typename T>
	std::string typed(const std::string &op, int i, const std::vector<int> &v)
	{
		if (op == "new") { put(i, make<T>(v)); return "0"; }
		if (op == "assign") { *x[i] = make<T>(v); return "0"; }
		T value = *static_cast<const W *>(x[i]);
		return bytes(value);
	}
	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		if (op == "not") { *x[i] = ~*x[i]; return "0"; }
		if (op == "reset") { x[i]->reset(); return "0"; }
		if (op == "copy") { int j = int(in.num()); put(i, static_cast<const W &>(*x[j])); return "0"; }
		if (op == "copyAssign") { int j = int(in.num()); *x[i] = static_cast<const W &>(*x[j]); return "0"; }
		bool s = in.num() != 0;
		std::vector<int> v;
		size_t w;
		if (op == "to")
			w = size_t(in.num());
		else
		{
			v = in.nums();
			w = v.size();
		}
		switch (w)
		{
			case 1: return s ? typed<std::int8_t>(op, i, v) : typed<std::uint8_t>(op, i, v);
			case 2: return s ? typed<std::int16_t>(op, i, v) : typed<std::uint16_t>(op, i, v);
			case 4: return s ? typed<std::int32_t>(op, i, v) : typed<std::uint32_t>(op, i, v);
			default: return s ? typed<std::int64_t>(op, i, v) : typed<std::uint64_t>(op, i, v);
		}
	}
	std::string one(const W &w)
	{
		std::vector<int> r;
		for (auto b : w.getData())
			r.push_back(b);
		return ints(r);
	}
	std::string obs() { return "[" + one(*x[1]) + "," + one(*x[2]) + "]"; }
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
