// Replays List.tla behaviours on templates::List.
#include <FlameIDE/Templates/List.hpp>
#include "seq.hpp"

using namespace vf;
using Lst = flame_ide::templates::List<Tok>;
using flame_ide::templates::makeRange;

// walks with the other operators of the iterators: through constant iterator
// objects, with the postfix forms, there and back
template<typename It>
std::string otherWalks(It first, It last, const std::vector<int> &a)
{
	const It there = first;
	It post = first;
	for (int v : a)
	{
		It old = post++;
		if (there->value != v || (*old).value != v || old->value != v)
			return "walking with other operators disagrees";
		++there;
	}
	if (!(there == last) || post != last)
		return "walking with other operators misses the end";
	const It back = last;
	It postBack = last;
	for (size_t k = a.size(); k-- > 0;)
	{
		It old = postBack--;
		--back;
		if ((*back).value != a[k] || (k + 1 < a.size() && old->value != a[k + 1]))
			return "walking back with other operators disagrees";
	}
	return back == first && postBack == first ? "" : "walking back misses the beginning";
}

struct World: SeqWorld<Lst, WalkAt<Lst>>
{
	using At = WalkAt<Lst>;

	bool extra(const std::string &op, int i, int j, In &in, std::string &ret) override
	{
		Lst &x = *v[i];
		if (op == "clone") renew(i, new Lst(static_cast<const Lst *>(v[j])->clone()));
		else if (op == "selfMove") { Lst &y = x; x = flame_ide::move(y); }
		else if (op == "plus") { Tok t(int(in.num())); x += static_cast<const Tok &>(t); }
		else if (op == "plusMove") { Tok t(int(in.num())); x += flame_ide::move(t); }
		else if (op == "plusRange")
		{
			std::vector<int> n = in.nums();
			std::vector<Tok> t(n.begin(), n.end());
			x += makeRange(t.data(), t.data() + t.size());
		}
		else if (op == "pushFront") { Tok t(int(in.num())); x.pushFront(static_cast<const Tok &>(t)); }
		else if (op == "pushFrontMove") { Tok t(int(in.num())); x.pushFront(flame_ide::move(t)); }
		else if (op == "emplaceFront") x.emplaceFront(int(in.num()));
		else if (op == "popFront") x.popFront();
		else if (op == "minus") x -= At::at(x, in.num());
		else if (op == "minusRange") { long p = in.num(); long q = in.num(); x -= makeRange(At::at(x, p), At::at(x, q)); }
		else if (op == "newList")
		{
			std::vector<int> n = in.nums();
			if (n.size() == 2) renew(i, new Lst{ { Tok(n[0]), Tok(n[1]) } });
			else renew(i, new Lst{ { Tok(n[0]), Tok(n[1]), Tok(n[2]) } });
		}
		else if (op == "stable")
		{
			long p = in.num();
			long q = in.num();
			int n = int(in.num());
			auto it = At::at(x, p);
			x.erase(At::at(x, q));
			x.insert(it, Tok(n));
			ret = num((*it).value);
		}
		else return false;
		return true;
	}
	std::string inconsistent(Lst &x, const std::vector<int> &a) override
	{
		std::string e = reverseWalk(x, a);
		if (e.empty())
			e = reverseWalk(static_cast<const Lst &>(x), a);
		if (a.empty() && (x.rbegin() != x.rend() || x.begin() != x.end()))
			return "an empty list has elements to walk";
		if (e.empty())
			e = otherWalks(x.begin(), x.end(), a);
		if (e.empty())
			e = otherWalks(x.cbegin(), x.cend(), a);
		return e;
	}
};

int main()
{
	World w;
	return drive(w);
}
