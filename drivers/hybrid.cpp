// Replays Hybrid.tla behaviours on templates::HybridVector.
#include <FlameIDE/Templates/HybridVector.hpp>
#include "seq.hpp"

using namespace vf;
using Hyb = flame_ide::templates::HybridVector<Tok, CAP>;

template<typename C>
C filled(const std::vector<int> &n)
{
	C c;
	for (int x : n)
		c.pushBack(Tok(x));
	return c;
}

struct World: SeqWorld<Hyb, RandomAt<Hyb>>
{
	bool extra(const std::string &op, int i, int j, In &in, std::string &) override
	{
		using A = Hyb::Array;
		using V = Hyb::Vector;
		Hyb &x = *v[i];
		if (op == "reset") x.reset();
		else if (op == "clone") renew(i, new Hyb(v[j]->clone()));
		else if (op == "newArray") { const A a = filled<A>(in.nums()); renew(i, new Hyb(a)); }
		else if (op == "newArrayMove") { A a = filled<A>(in.nums()); renew(i, new Hyb(flame_ide::move(a))); }
		else if (op == "setArray") { const A a = filled<A>(in.nums()); x = a; }
		else if (op == "setArrayMove") { A a = filled<A>(in.nums()); x = flame_ide::move(a); }
		else if (op == "newVector") { const V a = filled<V>(in.nums()); renew(i, new Hyb(a)); }
		else if (op == "newVectorMove") { V a = filled<V>(in.nums()); renew(i, new Hyb(flame_ide::move(a))); }
		else if (op == "setVector") { const V a = filled<V>(in.nums()); x = a; }
		else if (op == "setVectorMove") { V a = filled<V>(in.nums()); x = flame_ide::move(a); }
		else return false;
		return true;
	}
	std::string inconsistent(Hyb &x, const std::vector<int> &a) override
	{
		if (x.capacity() < x.size())
			return "capacity below size";
		std::string e = indexWalk(x, a);
		if (e.empty())
			e = reverseWalk(x, a);
		if (e.empty())
			e = reverseWalk(static_cast<const Hyb &>(x), a);
		if (e.empty() && !a.empty())
			e = positions(x.begin(), a);
		if (e.empty() && !a.empty())
			e = positions(x.cbegin(), a);
		const std::vector<int> back(a.rbegin(), a.rend());
		if (e.empty() && !a.empty())
			e = positions(x.rbegin(), back);
		if (e.empty() && !a.empty())
			e = distances(x.begin(), a);
		if (e.empty() && !a.empty())
			e = distances(x.rbegin(), a);
		return e;
	}
};

int main()
{
	World w;
	return drive(w);
}
