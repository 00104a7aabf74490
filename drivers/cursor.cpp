// Replays Cursor.tla behaviours on the iterators of Templates/Iterator.
#include <FlameIDE/Templates/Array.hpp>
#include <FlameIDE/Templates/Iterator.hpp>
#include <FlameIDE/Templates/Iterator/CircularIterator.hpp>
#include <FlameIDE/Templates/Iterator/ConstCircularIterator.hpp>
#include <FlameIDE/Templates/IntegerIterator.hpp>
#include "vf.hpp"

using namespace vf;
using namespace flame_ide::templates;

static int cells[N + 2]; // one spare cell on either side
static int *const base = cells + 1;

#if defined(KIND_FORWARD)
static IT make(long k) { return IT(base + k); }
#elif defined(KIND_REVERSE)
static IT make(long k) { return IT(base + (N - 1 - k)); }
#elif defined(KIND_CIRCULAR)
using R = IT::Range;
static IT make(long k) { return IT(R(base, base + N).begin() + k, R(base, base + N)); }
#else
using V = IT::Type;
static IT make(long k) { return IT(V(k)); }
#endif

struct World
{
	IT it[3] = { make(0), make(0), make(0) };

	void reset()
	{
		for (int k = -1; k <= N; ++k)
			base[k] = k < 0 || k == N ? -7 : k + 1;
		it[1] = make(0);
		it[2] = make(0);
	}
	std::string finish() { return ""; }

	// the position an iterator stands at
	static std::string pos(IT x)
	{
		for (long k = 0; k <= N; ++k)
		{
#if defined(KIND_CIRCULAR)
			if (k == N)
				break;
#endif
			if (make(k) == x)
				return num(k);
		}
		return str("nowhere");
	}

#if defined(WITH_OFFSETS)
	template<typename T>
	std::string offset(const std::string &op, int i, T k)
	{
		if (op == "plusAssign") return pos(it[i] += k);
		if (op == "minusAssign") return pos(it[i] -= k);
		if (op == "plus") return pos(it[i] + k);
		if (op == "plusLeft") return pos(k + it[i]);
		if (op == "minus") return pos(it[i] - k);
		if (op == "at")
		{
			const IT &c = it[i];
			long a = long(it[i][k]), b = long(c[k]);
			return a == b ? num(a) : str("constant access disagrees");
		}
		return str("unknown operation " + op);
	}
#endif

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		if (op == "incPre") return pos(++it[i]);
		if (op == "incPost") return pos(it[i]++);
#if !defined(ONLY_AHEAD)
		if (op == "decPre") return pos(--it[i]);
		if (op == "decPost") return pos(it[i]--);
#endif
		if (op == "deref")
		{
#if defined(ONLY_OUTPUT)
			IT &c = it[i];
#else
			const IT &c = it[i];
#endif
			long a = long(*it[i]), b = long(*c);
#if !defined(KIND_INTEGER)
			if (&*it[i] != base + (a - 1) || &*c != base + (a - 1))
				return str("not the element itself");
#endif
			return a == b ? num(a) : str("constant access disagrees");
		}
		if (op == "arrow") return num(long(*it[i].operator->()));
		if (op == "assign") { int j = int(in.num()); it[i] = it[j]; return "0"; }
		if (op == "equal")
		{
			int j = int(in.num());
			const IT &a = it[i], &b = it[j];
			if ((a == b) != (it[i] == it[j]) || (a != b) != (it[i] != it[j]))
				return str("constant iterators compare differently");
			return "{\"eq\":" + boolean(it[i] == it[j]) + ",\"ne\":" + boolean(it[i] != it[j]) + "}";
		}
#if defined(WITH_OFFSETS)
		if (op == "diff") { int j = int(in.num()); return num(long(it[i] - it[j])); }
		if (op == "order")
		{
			int j = int(in.num());
			const IT &a = it[i], &b = it[j];
			if ((a >= b) != (it[i] >= it[j]) || (a > b) != (it[i] > it[j]) || (a <= b) != (it[i] <= it[j])
					|| (a < b) != (it[i] < it[j]))
				return str("constant iterators compare differently");
			return "{\"ge\":" + boolean(it[i] >= it[j]) + ",\"gt\":" + boolean(it[i] > it[j])
					+ ",\"le\":" + boolean(it[i] <= it[j]) + ",\"lt\":" + boolean(it[i] < it[j]) + "}";
		}
		long k = in.num();
		std::string ty = in.word();
		if (ty == "int") return offset(op, i, int(k));
		if (ty == "long") return offset(op, i, long(k));
		if (ty == "char") return offset(op, i, (signed char)k);
		if (ty == "uchar") return offset(op, i, (unsigned char)k);
		if (ty == "unsigned") return offset(op, i, unsigned(k));
		if (ty == "size") return offset(op, i, size_t(k));
#endif
		return str("unknown operation " + op);
	}
	std::string obs()
	{
		for (int k = -1; k <= N; ++k)
			if (base[k] != (k < 0 || k == N ? -7 : k + 1))
				return str("an element changed");
		return "[" + pos(it[1]) + "," + pos(it[2]) + "]";
	}
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
