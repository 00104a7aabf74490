// Replays the cases of Ranges.tla on ranges and sequence algorithms.
#include <FlameIDE/Templates/Array.hpp>
#include <FlameIDE/Templates/List.hpp>
#include <FlameIDE/Templates/SimpleAlgorithms.hpp>
#include <FlameIDE/Templates/Vector.hpp>
#include "vf.hpp"

using namespace vf;
using namespace flame_ide::templates;

using A = Array<int, N + 1>;
using V = Vector<int>;
using L = List<int>;
struct Three { unsigned char b[3]; };
struct alignas(16) Sixteen { char c[16]; };

static Three three(const std::vector<int> &v)
{
	Three r;
	for (int i = 0; i < 3; ++i)
		r.b[i] = (unsigned char)v[size_t(i)];
	return r;
}
static std::string bytes(const Three &t)
{
	return ints(std::vector<int>(t.b, t.b + 3));
}

struct Collect
{
	std::vector<int> &to;
	void operator()(int x) { to.push_back(x); }
};
struct Change
{
	void operator()(int &x) { x += 10; }
};
template<typename R>
static std::vector<int> listed(R range)
{
	std::vector<int> r;
	for (auto it = range.begin(); it != range.end() && r.size() < 50; ++it)
		r.push_back(*it);
	return r;
}
template<typename T>
static long aligned(long x)
{
	if (x == 0)
		return long(reinterpret_cast<size_t>(flame_ide::alignedPointer<T>(static_cast<char *>(nullptr))));
	// addresses are only computed with, never read
	char *p = reinterpret_cast<char *>(0x10000 + x);
	const char *q = p;
	auto a = reinterpret_cast<size_t>(flame_ide::alignedPointer<T>(p));
	auto b = reinterpret_cast<size_t>(flame_ide::alignedPointer<T>(q));
	return a == b ? long(a) - 0x10000 : -1;
}

struct World
{
	void reset() {}
	std::string finish() { return ""; }
	std::string live() { return "0"; }
	std::string obs() { return "0"; }

	template<typename C>
	static C fill(const std::vector<int> &s)
	{
		C c;
		for (int x : s)
			c.pushBack(x);
		return c;
	}

	// operations on a container
	template<typename C>
	static std::string on(const std::string &op, const std::vector<int> &s)
	{
		C c = fill<C>(s);
		const C &k = c;
		if (op == "copy")
		{
			int to[N + 1] = {};
			long n = long(copy(k, &to[0]));
			return copied(n, to);
		}
		if (op == "count") return num(long(countIterations(c.begin(), c.end())));
		if (op == "each")
		{
			std::vector<int> r, p;
			foreach(k, Collect{ r });
			Collect named{ p };
			foreach(c.begin(), c.end(), named);
			return r == p ? ints(r) : str("the two ways of iterating disagree");
		}
		if (op == "change")
		{
			foreachChangable(c, Change{});
			return ints(listed(makeRange(c)));
		}
		if (op == "range") return ints(listed(makeRange(c)));
		if (op == "crange") return ints(listed(makeConstRange(k)));
		if (op == "rrange") return ints(listed(makeReverseRange(c)));
		if (op == "crrange") return ints(listed(makeConstReverseRange(k)));
		return str("unknown operation " + op);
	}
	static std::string copied(long n, int *to)
	{
		return "{\"n\":" + num(n) + ",\"to\":" + ints(std::vector<int>(to, to + N + 1)) + "}";
	}
	// operations on plain memory
	template<typename I>
	static std::string plain(const std::string &op, I from, I till)
	{
		Range<I> range(from, till);
		if (op == "copy")
		{
			int one[N + 1] = {}, two[N + 1] = {};
			long n = long(copy(from, till, &one[0]));
			long m = long(copy(range, &two[0]));
			return n == m && std::vector<int>(one, one + N + 1) == std::vector<int>(two, two + N + 1)
					? copied(n, one) : str("the two ways of copying disagree");
		}
		if (op == "count") return num(long(countIterations(from, till)));
		if (op == "each") { std::vector<int> r; foreach(range, Collect{ r }); return ints(r); }
		if (op == "change") { foreachChangable(range, Change{}); return ints(listed(range)); }
		if (op == "range" || op == "crange") return ints(listed(makeRange(from, till)));
		return str("unknown operation " + op);
	}

	std::string step(In &in)
	{
		const std::string op = in.op();
		if (op == "same")
		{
			Three a = three(in.nums()), b = three(in.nums());
			return boolean(flame_ide::isEqual(a, b));
		}
		if (op == "bytes")
		{
			Three t = three(in.nums());
			auto r = makeByteRange(t);
			std::vector<int> seen = listed(r);
			// writing through the view reaches the value
			for (auto it = r.begin(); it != r.end(); ++it)
				*it = (unsigned char)(255 - *it);
			for (int i = 0; i < 3; ++i)
				if (t.b[i] != 255 - seen[size_t(i)])
					return str("the view is not the value");
			return ints(seen);
		}
		if (op == "cbytes") { const Three t = three(in.nums()); return ints(listed(makeConstByteRange(t))); }
		if (op == "byteCopy")
		{
			Three a = three(in.nums()), b = three(in.nums());
			flame_ide::copy(a, b, size_t(in.num()));
			return bytes(a);
		}
		if (op == "arrayCopy")
		{
			std::vector<int> s = in.nums();
			int from[N] = {}, to[N] = {};
			for (int i = 0; i < N; ++i)
				from[i] = s[size_t(i)];
			flame_ide::copy(to, static_cast<const int (&)[N]>(from));
			return ints(std::vector<int>(to, to + N));
		}
		if (op == "arrayRange")
		{
			std::vector<int> s = in.nums();
			int array[N] = {};
			for (int i = 0; i < N; ++i)
				array[i] = s[size_t(i)];
			std::vector<int> seen = listed(makeConstRange(array));
			return listed(makeRange(array)) == seen ? ints(seen) : str("the two ranges of an array disagree");
		}
		if (op == "length")
		{
			std::vector<int> s = in.nums();
			s.push_back(0);
			std::string one;
			for (int x : s)
				one.push_back(char(x));
			long n = long(flame_ide::length(s.data())), m = long(flame_ide::length(one.c_str()));
			return n == m ? num(n) : str("the length depends on the element type");
		}
		if (op == "maximum") { int x = int(in.num()), y = int(in.num()); return num(flame_ide::maximum(x, y)); }
		if (op == "minimum") { int x = int(in.num()), y = int(in.num()); return num(flame_ide::minimum(x, y)); }
		if (op == "aligned")
		{
			long al = in.num(), x = in.num();
			return num(al == 1 ? aligned<char>(x) : al == 2 ? aligned<short>(x) : al == 4 ? aligned<int>(x)
					: al == 8 ? aligned<double>(x) : aligned<Sixteen>(x));
		}
		const std::string holder = in.word();
		std::vector<int> s = in.nums();
		if (op == "equal")
		{
			std::vector<int> t = in.nums();
			if (holder == "vector") return equal(fill<V>(s), fill<V>(t));
			if (holder == "list") return equal(fill<L>(s), fill<L>(t));
			return boolean(flame_ide::isEqual(s.data(), s.data() + s.size(), t.data(), t.data() + t.size()));
		}
		if (op == "slice")
		{
			long i = in.num(), j = in.num();
			if (holder == "vector")
			{
				V v = fill<V>(s);
				return ints(listed(makeRange(v.begin() + i, v.begin() + j)));
			}
			return ints(listed(makeRange(s.data() + i, size_t(j - i))));
		}
		if (holder == "array") return on<A>(op, s);
		if (holder == "vector") return on<V>(op, s);
		if (holder == "list") return on<L>(op, s);
		if (holder == "pointer")
		{
			if (op == "range") return ints(listed(makeRange(s.data(), s.size())));
			if (op == "crange") return ints(listed(makeConstRange(s.data(), s.size())));
			return plain(op, s.data(), s.data() + s.size());
		}
		return plain(op, Iterator<int *>(s.data()), Iterator<int *>(s.data() + s.size()));
	}
	template<typename C>
	static std::string equal(C x, C y)
	{
		return boolean(flame_ide::isEqual(x.begin(), x.end(), y.begin(), y.end()));
	}
};

int main()
{
	World w;
	return drive(w);
}
