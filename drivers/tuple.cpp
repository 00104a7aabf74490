// Replays Tuple.tla behaviours on templates::Tuple.
#include <FlameIDE/Templates/Tuple.hpp>
#include "vf.hpp"

using namespace vf;
using flame_ide::move;

// three different types, so that no component can stand for another
struct A: Tok { using Tok::Tok; A(int v = 0) : Tok(v) {} };
struct B: Tok { using Tok::Tok; B(int v = 0) : Tok(v) {} };
struct C: Tok { using Tok::Tok; C(int v = 0) : Tok(v) {} };
using T3 = flame_ide::templates::Tuple<A, B, C>;

struct World
{
	T3 *v[3] = { nullptr, nullptr, nullptr };

	void reset()
	{
		Registry::reset();
		v[1] = new T3;
		v[2] = new T3;
	}
	std::string finish()
	{
		delete v[1];
		delete v[2];
		return liveEnd();
	}
	void renew(int i, T3 *n) { delete v[i]; v[i] = n; }
	static std::string values(const T3 &t)
	{
		return ints(std::vector<int>{ t.get<0>().value, t.get<1>().value, t.get<2>().value });
	}
	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		int j = 3 - i;
		T3 &x = *v[i];
		if (op == "newCopy" || op == "newMove")
		{
			std::vector<int> n = in.nums();
			A a(n[0]);
			B b(n[1]);
			C c(n[2]);
			if (op == "newMove") renew(i, new T3(move(a), move(b), move(c)));
			else renew(i, new T3(static_cast<const A &>(a), static_cast<const B &>(b), static_cast<const C &>(c)));
			return ints(std::vector<int>{ a.value, b.value, c.value });
		}
		if (op == "new") renew(i, new T3);
		else if (op == "copyCtor") renew(i, new T3(static_cast<const T3 &>(*v[j])));
		else if (op == "copyAssign") x = static_cast<const T3 &>(*v[j]);
		else if (op == "selfAssign") x = static_cast<const T3 &>(x);
		else if (op == "moveCtor" || op == "moveAssign")
		{
			if (op == "moveCtor") renew(i, new T3(move(*v[j])));
			else x = move(*v[j]);
			std::string left = values(*v[j]);
			renew(j, new T3);
			return left;
		}
		else if (op == "writeHead") { in.num(); x.get() = A(int(in.num())); }
		else if (op == "write")
		{
			long k = in.num();
			int n = int(in.num());
			if (k == 1) x.get<0>() = A(n);
			else if (k == 2) x.get<1>() = B(n);
			else x.get<2>() = C(n);
		}
		else return str("unknown operation");
		return "0";
	}
	std::string show(T3 &x)
	{
		const T3 &c = x;
		if (&x.get<0>() != &c.get<0>() || &x.get<1>() != &c.get<1>() || &x.get<2>() != &c.get<2>()
				|| &x.get() != &x.get<0>() || &c.get() != &c.get<0>())
			return str("a component depends on the way it is reached");
		return values(c);
	}
	std::string obs() { return list({ show(*v[1]), show(*v[2]) }); }
	std::string live() { return liveColumn(); }
};

int main()
{
	World w;
	return drive(w);
}
