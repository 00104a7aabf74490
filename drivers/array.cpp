// Replays Array.tla behaviours on templates::Array (inline storage, variable size).
#include <FlameIDE/Templates/Array.hpp>
#include "seq.hpp"

#ifndef CAP
#define CAP 3
#endif

using namespace vf;
using Arr = flame_ide::templates::Array<Tok, CAP>;
using Big = flame_ide::templates::Array<Tok, CAP + 2>;
using flame_ide::templates::makeRange;

struct World: SeqWorld<Arr, RandomAt<Arr>>
{
	static void fill(Big &b, const std::vector<int> &n)
	{
		for (int k : n)
			b.pushBack(Tok(k));
	}
	bool extra(const std::string &op, int i, int j, In &in, std::string &ret) override
	{
		Arr &x = *v[i];
		if (op == "clone") renew(i, new Arr(static_cast<const Arr *>(v[j])->clone()));
		else if (op == "reset") x.reset();
		else if (op == "eq") ret = boolean(x == *v[j]);
		else if (op == "ne") ret = boolean(x != *v[j]);
		else if (op == "plus") { Tok t(int(in.num())); x += static_cast<const Tok &>(t); }
		else if (op == "plusMove") { Tok t(int(in.num())); x += flame_ide::move(t); }
		else if (op == "plusRange")
		{
			std::vector<int> n = in.nums();
			std::vector<Tok> t(n.begin(), n.end());
			x += makeRange(t.data(), t.data() + t.size());
		}
		else if (op == "minus") x -= x.begin() + in.num();
		else if (op == "minusRange") { long p = in.num(); long q = in.num(); x -= makeRange(x.begin() + p, x.begin() + q); }
		else if (op == "minusRev") { auto it = x.rbegin(); for (long p = in.num(); p; --p) ++it; x -= it; }
		else if (op == "minusRevRange")
		{
			long p = in.num();
			long q = in.num();
			auto a = x.rbegin();
			auto b = x.rbegin();
			for (long k = 0; k < p; ++k) ++a;
			for (long k = 0; k < q; ++k) ++b;
			x -= makeRange(a, b);
		}
		else if (op == "newCArray")
		{
			std::vector<int> n = in.nums();
			if (n.size() == 1) { const Tok t[] = { Tok(n[0]) }; renew(i, new Arr(t)); }
			else { Tok t[] = { Tok(n[0]), Tok(n[1]) }; renew(i, new Arr(flame_ide::move(t))); }
		}
		else if (op == "bigCtor") { Big b; fill(b, in.nums()); renew(i, new Arr(static_cast<const Big &>(b))); }
		else if (op == "bigMoveCtor") { Big b; fill(b, in.nums()); renew(i, new Arr(flame_ide::move(b))); }
		else if (op == "bigAssign") { Big b; fill(b, in.nums()); x = static_cast<const Big &>(b); }
		else if (op == "bigMoveAssign") { Big b; fill(b, in.nums()); x = flame_ide::move(b); }
		else return false;
		return true;
	}
	std::string inconsistent(Arr &x, const std::vector<int> &a) override
	{
		if (x.capacity() != CAP || x.size() > CAP)
			return "capacity wrong";
		std::string e = indexWalk(x, a);
		if (e.empty())
			e = reverseWalk(x, a);
		if (e.empty())
			e = reverseWalk(static_cast<const Arr &>(x), a);
		return e;
	}
};

int main()
{
	World w;
	return drive(w);
}
