// Replays Runs.tla behaviours: two large containers of plain elements.
// KIND: VECTOR, ARRAY, LIST, CIRCULAR, HYBRID or STRING; M: number of elements.
#if defined(VECTOR)
#include <FlameIDE/Templates/Vector.hpp>
#elif defined(ARRAY)
#include <FlameIDE/Templates/Array.hpp>
#elif defined(LIST)
#include <FlameIDE/Templates/List.hpp>
#elif defined(CIRCULAR)
#include <FlameIDE/Templates/CircularArray.hpp>
#elif defined(HYBRID)
#include <FlameIDE/Templates/HybridVector.hpp>
#elif defined(STRING)
#include <FlameIDE/Templates/String.hpp>
#endif
#include "seq.hpp"

using namespace vf;
namespace t = flame_ide::templates;

#if defined(VECTOR)
using E = int;
using C = t::Vector<E>;
#elif defined(ARRAY)
using E = int;
using C = t::Array<E, CAP>;
#elif defined(LIST)
using E = int;
using C = t::List<E>;
#elif defined(CIRCULAR)
using E = int;
using C = t::CircularArray<E, CAP>;
#elif defined(HYBRID)
using E = int;
using C = t::HybridVector<E, CAP>;
#elif defined(STRING)
using E = char;
using C = t::BasicString<E>;
#endif

#ifdef STRING
static E element(long v) { return E(v % M + 1); }
static int number(E e) { return int(static_cast<unsigned char>(e)) - 1; }
#else
static E element(long v) { return E(v % M); }
static int number(E e) { return e; }
#endif

#if defined(LIST) || defined(CIRCULAR)
using At = WalkAt<C>;
#else
using At = RandomAt<C>;
#endif

static std::vector<E> run(long v, long n)
{
	std::vector<E> r;
	for (long k = 0; k < n; ++k)
		r.push_back(element(v + k));
	return r;
}

struct World
{
	C *v[3] = { nullptr, nullptr, nullptr };

	void reset()
	{
		v[1] = new C;
		v[2] = new C;
	}
	std::string finish()
	{
		delete v[1];
		delete v[2];
		return "";
	}
	void renew(int i, C *n) { delete v[i]; v[i] = n; }

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		int j = 3 - i;
		C &x = *v[i];
		if (op == "append") { long b = in.num(); for (E e : run(b, in.num())) x.pushBack(e); }
#ifndef CIRCULAR
		else if (op == "pop") { for (long n = in.num(); n; --n) x.popBack(); }
		else if (op == "insert") { long p = in.num(); long b = in.num(); auto r = run(b, in.num()); x.insert(At::at(x, p), r.data(), r.data() + r.size()); }
		else if (op == "insertOther") { long p = in.num(); x.insert(At::at(x, p), v[j]->begin(), v[j]->end()); }
		else if (op == "erase") { long p = in.num(); long n = in.num(); x.erase(At::at(x, p), At::at(x, p + n)); }
#endif
#if defined(LIST)
		else if (op == "prepend") { long b = in.num(); auto r = run(b, in.num()); for (size_t k = r.size(); k; --k) x.pushFront(r[k - 1]); }
#endif
#if defined(LIST) || defined(CIRCULAR)
		else if (op == "popFront") { for (long n = in.num(); n; --n) x.popFront(); }
#endif
#if defined(VECTOR) || defined(STRING)
		else if (op == "reserve") x.reserve(C::SizeType(in.num()));
#endif
		else if (op == "clean") x.clean();
		else if (op == "new") renew(i, new C);
		else if (op == "copyCtor") renew(i, new C(static_cast<const C &>(*v[j])));
		else if (op == "copyAssign") x = static_cast<const C &>(*v[j]);
		else if (op == "moveCtor") { renew(i, new C(flame_ide::move(*v[j]))); v[j]->clean(); }
		else if (op == "moveAssign") { x = flame_ide::move(*v[j]); v[j]->clean(); }
		else return str("unknown operation " + op);
		return "0";
	}

	std::string show(C &x)
	{
		const size_t limit = 200000;
		std::vector<int> a;
		for (auto it = x.begin(); it != x.end() && a.size() < limit; ++it)
			a.push_back(number(*it));
#ifdef STRING
		if (a.size() != x.length())
#else
		if (a.size() != x.size())
#endif
			return str("size disagrees with iteration");
		size_t k = 0;
		const C &c = x;
		for (auto it = c.cbegin(); it != c.cend() && k < a.size(); ++it, ++k)
			if (number(*it) != a[k])
				return str("constant iteration disagrees");
		if (k != a.size())
			return str("constant iteration disagrees");
		if (!a.empty())
			for (auto it = x.rbegin(); it != x.rend(); ++it, --k)
				if (!k || number(*it) != a[k - 1])
					return str("reverse iteration disagrees");
		if (k)
			return str("reverse iteration disagrees");
#if !defined(LIST) && !defined(CIRCULAR)
		for (k = 0; k < a.size(); ++k)
			if (number(x[C::SizeType(k)]) != a[k] || number(x.begin()[long(k)]) != a[k])
				return str("indexing disagrees");
#endif
#ifdef STRING
		if (x.capacity() && x.data()[a.size()] != E(0))
			return str("not terminated");
#endif
		std::vector<std::string> r;
		for (size_t b = 0, e; b < a.size(); b = e)
		{
			for (e = b + 1; e < a.size() && a[e] == (a[e - 1] + 1) % M; ++e) {}
			r.push_back(list({ num(a[b]), num((long long)(e - b)) }));
		}
		return list(r);
	}
	std::string obs() { return list({ show(*v[1]), show(*v[2]) }); }
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
