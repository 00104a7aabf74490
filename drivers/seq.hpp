// Operations every sequence container offers, in the vocabulary of the
// specifications (Vector.tla, Array.tla, List.tla, Hybrid.tla).
#ifndef VF_SEQ_HPP
#define VF_SEQ_HPP

#include "vf.hpp"
#include <FlameIDE/Templates/Range.hpp>

namespace vf
{

template<typename C>
struct RandomAt
{
	static typename C::Iterator at(C &c, long p) { return c.begin() + p; }
};

template<typename C>
struct WalkAt
{
	static typename C::Iterator at(C &c, long p)
	{
		auto it = c.begin();
		for (; p; --p)
			++it;
		return it;
	}
};

/// What walks with cbegin/cend and crbegin/crend see must be the contents, too
template<typename C>
std::string constantWalks(const C &c, const std::vector<int> &a)
{
	std::vector<int> b;
	for (auto it = c.cbegin(); it != c.cend() && b.size() <= a.size(); ++it)
		b.push_back((*it).value);
	if (a != b)
		return "cbegin/cend iteration disagrees";
	if (a.empty())
		return "";
	b.clear();
	for (auto it = c.crbegin(); it != c.crend() && b.size() <= a.size(); ++it)
		b.insert(b.begin(), (*it).value);
	return a == b ? "" : "crbegin/crend iteration disagrees";
}

template<typename C, typename At>
struct SeqWorld
{
	C *v[3] = { nullptr, nullptr, nullptr };
	long idle = 0; // elements an empty container keeps for itself

	virtual ~SeqWorld() {}

	void reset()
	{
		Registry::reset();
		{
			C probe;
			idle = Registry::alive();
		}
		Registry::reset();
		v[1] = new C;
		v[2] = new C;
	}
	std::string finish()
	{
		delete v[1];
		delete v[2];
		return liveEnd();
	}
	void renew(int i, C *n) { delete v[i]; v[i] = n; }

	virtual bool extra(const std::string &, int, int, In &, std::string &) { return false; }

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		int j = 3 - i;
		C &x = *v[i];
		std::string ret = "0";
		if (extra(op, i, j, in, ret)) {}
		else if (op == "push") { Tok t(int(in.num())); x.pushBack(static_cast<const Tok &>(t)); }
		else if (op == "pushMove") { Tok t(int(in.num())); x.pushBack(flame_ide::move(t)); }
		else if (op == "emplaceBack") { int n = int(in.num()); x.emplaceBack(n); }
		else if (op == "pushOwn") { auto it = At::at(x, in.num()); x.pushBack(static_cast<const Tok &>(*it)); }
		else if (op == "emplaceBackOwn") { auto it = At::at(x, in.num()); x.emplaceBack(static_cast<const Tok &>(*it)); }
		else if (op == "pop") x.popBack();
		else if (op == "ins") { long p = in.num(); Tok t(int(in.num())); x.insert(At::at(x, p), static_cast<const Tok &>(t)); }
		else if (op == "insMove") { long p = in.num(); Tok t(int(in.num())); x.insert(At::at(x, p), flame_ide::move(t)); }
		else if (op == "emplace") { long p = in.num(); int n = int(in.num()); x.emplace(At::at(x, p), n); }
		else if (op == "insOwn")
		{
			long p = in.num();
			auto it = At::at(x, in.num());
			x.insert(At::at(x, p), static_cast<const Tok &>(*it));
		}
		else if (op == "emplaceOwn")
		{
			long p = in.num();
			auto it = At::at(x, in.num());
			x.emplace(At::at(x, p), static_cast<const Tok &>(*it));
		}
		else if (op == "insRange")
		{
			long p = in.num();
			std::vector<int> n = in.nums();
			std::vector<Tok> t(n.begin(), n.end());
			x.insert(At::at(x, p), t.data(), t.data() + t.size());
		}
		else if (op == "insOther") { long p = in.num(); x.insert(At::at(x, p), v[j]->begin(), v[j]->end()); }
		else if (op == "erase") x.erase(At::at(x, in.num()));
		else if (op == "eraseRange") { long p = in.num(); long q = in.num(); x.erase(At::at(x, p), At::at(x, q)); }
		else if (op == "clean") x.clean();
		else if (op == "write") { auto it = At::at(x, in.num()); *it = Tok(int(in.num())); }
		else if (op == "copyCtor") renew(i, new C(static_cast<const C &>(*v[j])));
		else if (op == "moveCtor") { renew(i, new C(flame_ide::move(*v[j]))); v[j]->clean(); }
		else if (op == "copyAssign") *v[i] = static_cast<const C &>(*v[j]);
		else if (op == "moveAssign") { *v[i] = flame_ide::move(*v[j]); v[j]->clean(); }
		else if (op == "selfAssign") *v[i] = static_cast<const C &>(*v[i]);
		else if (op == "selfMove") { C &y = *v[i]; *v[i] = flame_ide::move(y); }
		else if (op == "new") renew(i, new C);
		else return str("unknown operation " + op);
		return ret;
	}

	/// "" or what is wrong with this container beyond its contents
	virtual std::string inconsistent(C &, const std::vector<int> &) { return ""; }

	std::string show(C &x)
	{
		const C &c = x;
		std::vector<int> a, b;
		for (auto it = x.begin(); it != x.end(); ++it)
			a.push_back((*it).value);
		if (long(a.size()) != long(x.size()))
			return str("size() disagrees with iteration");
		for (auto it = c.begin(); it != c.end(); ++it)
			b.push_back((*it).value);
		if (a != b)
			return str("const iteration disagrees");
		std::string e = inconsistent(x, a);
		if (e.empty())
			e = constantWalks(c, a);
		return e.empty() ? ints(a) : str(e);
	}
	std::string obs() { return list({ show(*v[1]), show(*v[2]) }); }
	std::string live()
	{
		return Registry::error().empty() ? num(Registry::alive() - 2 * idle) : str(Registry::error());
	}
};

/// Reverse walks, when there is something to walk
template<typename C>
std::string reverseWalk(C &x, const std::vector<int> &a)
{
	std::vector<int> b;
	if (a.empty())
		return "";
	for (auto it = x.rbegin(); it != x.rend(); ++it)
		b.insert(b.begin(), (*it).value);
	return a == b ? "" : "reverse iteration disagrees";
}

template<typename C>
std::string indexWalk(C &x, const std::vector<int> &a)
{
	const C &c = x;
	for (size_t k = 0; k < a.size(); ++k)
	{
		if (x[k].value != a[k] || c[k].value != a[k])
			return "indexing disagrees";
		if (x.data()[k].value != a[k] || c.data()[k].value != a[k])
			return "data() disagrees";
	}
	return "";
}

/// Distances between all positions of a container
template<typename I>
std::string distances(I first, const std::vector<int> &a)
{
	for (long i = 0; i <= long(a.size()); ++i)
		for (long j = 0; j <= long(a.size()); ++j)
			if (long((first + j) - (first + i)) != j - i)
				return "distance of positions disagrees";
	return "";
}

/// Arithmetic and order of the positions from `first` to behind the last element
template<typename I>
std::string positions(I first, const std::vector<int> &a)
{
	const long n = long(a.size());
	for (long i = 0; i <= n; ++i)
	{
		I p = first;
		p += i;
		for (long j = 0; j <= n; ++j)
		{
			I q = first + j;
			if ((p == q) != (i == j) || (p != q) != (i != j) || (p < q) != (i < j) || (p > q) != (i > j)
					|| (p <= q) != (i <= j) || (p >= q) != (i >= j))
				return "comparison of positions disagrees";
			if (i > j)
				continue;
			I back = q - (j - i), far = q;
			far -= j - i;
			if (!(back == p) || !(far == p))
				return "stepping back disagrees";
			if (j < n && (p[j - i].value != a[size_t(j)] || q->value != a[size_t(j)] || (*q).value != a[size_t(j)]))
				return "an element seen from a position disagrees";
		}
		if (i == n)
			continue;
		I on = p, was = on++;
		if (!(was == p) || !(on == first + (i + 1)) || !(on-- == first + (i + 1)) || !(on == p) || !(++on == first + (i + 1))
				|| !(--on == p))
			return "stepping by one disagrees";
	}
	return "";
}

} // namespace vf

#endif
