// Replays StaticArray.tla behaviours on templates::StaticArray.
#include <FlameIDE/Templates/Array.hpp>
#include "seq.hpp"

#ifndef N
#define N 3
#endif

using namespace vf;
using Arr = flame_ide::templates::StaticArray<Tok, N>;
using Small = flame_ide::templates::StaticArray<Tok, N - 1>;
using Large = flame_ide::templates::StaticArray<Tok, N + 1>;

struct World
{
	Arr *v[3] = { nullptr, nullptr, nullptr };

	void reset()
	{
		Registry::reset();
		v[1] = new Arr;
		v[2] = new Arr;
	}
	std::string finish()
	{
		delete v[1];
		delete v[2];
		return liveEnd();
	}
	void renew(int i, Arr *n) { delete v[i]; v[i] = n; }
	template<typename A> static void fill(A &a)
	{
		for (unsigned k = 0; k < a.size(); ++k)
			a[k] = Tok(int(k + 1));
	}

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		int j = 3 - i;
		Arr &x = *v[i];
		if (op == "write") { long p = in.num(); x[p] = Tok(int(in.num())); }
		else if (op == "reset") x.reset();
		else if (op == "new") renew(i, new Arr);
		else if (op == "newList")
		{
			std::vector<int> n = in.nums();
			if (n.size() == 1) { renew(i, new Arr); (*v[i])[0] = Tok(n[0]); }
			else if (n.size() == 2) renew(i, new Arr{ { Tok(n[0]), Tok(n[1]) } });
			else renew(i, new Arr{ { Tok(n[0]), Tok(n[1]), Tok(n[2]) } });
		}
		else if (op == "copyCtor") renew(i, new Arr(static_cast<const Arr &>(*v[j])));
		else if (op == "copyAssign") x = static_cast<const Arr &>(*v[j]);
		else if (op == "clone") renew(i, new Arr(static_cast<const Arr *>(v[j])->clone()));
		else if (op == "moveCtor") { renew(i, new Arr(flame_ide::move(*v[j]))); v[j]->reset(); }
		else if (op == "moveAssign") { x = flame_ide::move(*v[j]); v[j]->reset(); }
		else if (op == "selfAssign") x = static_cast<const Arr &>(x);
		else if (op == "selfMove") { Arr &y = x; x = flame_ide::move(y); }
		else if (op == "smallCtor") { Small s; fill(s); renew(i, new Arr(static_cast<const Small &>(s))); }
		else if (op == "smallMoveCtor") { Small s; fill(s); renew(i, new Arr(flame_ide::move(s))); }
		else if (op == "smallAssign") { Small s; fill(s); x = static_cast<const Small &>(s); }
		else if (op == "smallMoveAssign") { Small s; fill(s); x = flame_ide::move(s); }
		else if (op == "largeCtor") { Large s; fill(s); renew(i, new Arr(static_cast<const Large &>(s))); }
		else if (op == "largeAssign") { Large s; fill(s); x = static_cast<const Large &>(s); }
		else if (op == "largeMoveAssign") { Large s; fill(s); x = flame_ide::move(s); }
		else if (op == "eq") return boolean(x == *v[j]);
		else if (op == "ne") return boolean(x != *v[j]);
		else return str("unknown operation");
		return "0";
	}
	std::string show(Arr &x)
	{
		const Arr &c = x;
		std::vector<int> a, b;
		for (auto it = x.begin(); it != x.end(); ++it)
			a.push_back((*it).value);
		for (auto it = c.begin(); it != c.end(); ++it)
			b.push_back((*it).value);
		if (a != b)
			return str("const iteration disagrees");
		if (x.size() != N || x.capacity() != N)
			return str("size wrong");
		std::string e = indexWalk(x, a);
		if (e.empty())
			e = reverseWalk(x, a);
		if (e.empty())
			e = reverseWalk(c, a);
		if (e.empty())
			e = constantWalks(c, a);
		return e.empty() ? ints(a) : str(e);
	}
	std::string obs() { return list({ show(*v[1]), show(*v[2]) }); }
	std::string live() { return liveColumn(); }
};

int main()
{
	World w;
	return drive(w);
}
