// Replays Circular.tla behaviours on templates::CircularArray.
#include <FlameIDE/Templates/CircularArray.hpp>
#include "seq.hpp"

#ifndef CAP
#define CAP 3
#endif

using namespace vf;
using Ring = flame_ide::templates::CircularArray<Tok, CAP>;
using flame_ide::templates::makeRange;

struct World
{
	Ring *v[3] = { nullptr, nullptr, nullptr };

	void reset()
	{
		Registry::reset();
		v[1] = new Ring;
		v[2] = new Ring;
	}
	std::string finish()
	{
		delete v[1];
		delete v[2];
		return liveEnd();
	}
	void renew(int i, Ring *n) { delete v[i]; v[i] = n; }

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		int j = 3 - i;
		Ring &x = *v[i];
		if (op == "push") { Tok t(int(in.num())); x.pushBack(static_cast<const Tok &>(t)); }
		else if (op == "pushMove") { Tok t(int(in.num())); x.pushBack(flame_ide::move(t)); }
		else if (op == "emplaceBack") { int n = int(in.num()); x.emplaceBack(n); }
		else if (op == "pushOwn") x.pushBack(static_cast<const Tok &>(*x.begin()));
		else if (op == "pushRange" || op == "pushRangeMove")
		{
			std::vector<int> n = in.nums();
			std::vector<Tok> t(n.begin(), n.end());
			auto r = makeRange(t.data(), t.data() + t.size());
			const auto &cr = r;
			if (op == "pushRange") x.pushBack(cr);
			else x.pushBack(flame_ide::move(r));
		}
		else if (op == "pop") x.popFront();
		else if (op == "write")
		{
			auto it = x.begin();
			for (long p = in.num(); p; --p)
				++it;
			*it = Tok(int(in.num()));
		}
		else if (op == "clean") x.clean();
		else if (op == "copyCtor") renew(i, new Ring(static_cast<const Ring &>(*v[j])));
		else if (op == "moveCtor") { renew(i, new Ring(flame_ide::move(*v[j]))); v[j]->clean(); }
		else if (op == "copyAssign") x = static_cast<const Ring &>(*v[j]);
		else if (op == "moveAssign") { x = flame_ide::move(*v[j]); v[j]->clean(); }
		else if (op == "selfAssign") x = static_cast<const Ring &>(x);
		else if (op == "selfMove") { Ring &y = x; x = flame_ide::move(y); }
		else if (op == "new") renew(i, new Ring);
		else return str("unknown operation " + op);
		return "0";
	}

	std::string show(Ring &x)
	{
		const Ring &c = x;
		if (x.size() > CAP || x.capacity() != CAP)
			return str("size exceeds capacity");
		std::vector<int> a, b;
		for (auto it = x.begin(); it != x.end() && a.size() <= CAP; ++it)
			a.push_back((*it).value);
		if (a.size() != x.size())
			return str("size() disagrees with iteration");
		for (auto it = c.begin(); it != c.end() && b.size() <= CAP; ++it)
			b.push_back((*it).value);
		if (a != b)
			return str("const iteration disagrees");
		b.clear();
		for (auto it = c.cbegin(); it != c.cend() && b.size() <= CAP; ++it)
			b.push_back((*it).value);
		if (a != b)
			return str("cbegin/cend iteration disagrees");
		b.clear();
		for (auto it = x.begin(); it != x.end() && b.size() <= CAP; it++)
			b.push_back((*it).value);
		if (a != b)
			return str("postfix iteration disagrees");
		b.clear();
		for (auto it = x.rbegin(); it != x.rend() && b.size() <= CAP; ++it)
			b.insert(b.begin(), (*it).value);
		if (a != b)
			return str("reverse iteration disagrees");
		b.clear();
		for (auto it = c.rbegin(); it != c.rend() && b.size() <= CAP; ++it)
			b.insert(b.begin(), (*it).value);
		if (a != b)
			return str("const reverse iteration disagrees");
		for (size_t k = 0; k < a.size(); ++k)
			if ((*(x.begin() + long(k))).value != a[k] || (*(x.end() - long(a.size() - k))).value != a[k])
				return str("iterator offsets disagree");
		return ints(a);
	}
	std::string obs() { return list({ show(*v[1]), show(*v[2]) }); }
	std::string live() { return liveColumn(); }
};

int main()
{
	World w;
	return drive(w);
}
