// Replays Str.tla behaviours on templates::BasicString<CHAR>.
#include <FlameIDE/Templates/String.hpp>
#include "vf.hpp"

using namespace vf;
using flame_ide::move;
using S = flame_ide::templates::BasicString<CHAR>;
using flame_ide::templates::makeRange;

// a text in its own exactly sized block, so that reading past it is caught
struct Raw
{
	CHAR *p;
	size_t n;
	Raw(const std::vector<int> &v) : p(new CHAR[v.size() + 1]), n(v.size())
	{
		for (size_t i = 0; i < n; ++i)
			p[i] = CHAR('a' + v[i] - 1);
		p[n] = CHAR(0);
	}
	~Raw() { delete[] p; }
};

static CHAR chr(long n) { return CHAR('a' + n - 1); }

struct World
{
	S *v[3] = { nullptr, nullptr, nullptr };

	void reset()
	{
		v[1] = new S;
		v[2] = new S;
	}
	std::string finish()
	{
		delete v[1];
		delete v[2];
		return "";
	}
	void put(int i, S *n) { delete v[i]; v[i] = n; }

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		S &x = *v[i];
		S &y = *v[3 - i];
		auto at = [&](long p) { return x.begin() + p; };
		auto rat = [&](long p) { return x.rbegin() + (long(x.length()) - 1 - p); };
		if (op == "push") { const CHAR c = chr(in.num()); x.pushBack(c); }
		else if (op == "pushMove") x.pushBack(chr(in.num()));
		else if (op == "appendChar") { const CHAR c = chr(in.num()); x += c; }
		else if (op == "appendCharMove") x += chr(in.num());
		else if (op == "pushOwn") x.pushBack(static_cast<const S &>(x)[in.num()]);
		else if (op == "pushText") { Raw t(in.nums()); x.pushBack(t.p); }
		else if (op == "appendText") { Raw t(in.nums()); x += static_cast<const CHAR *>(t.p); }
		else if (op == "pushOwnText") x.pushBack(x.data() + in.num());
		else if (op == "appendOther") x += static_cast<const S &>(y);
		else if (op == "appendRange") x += makeRange(y.begin(), y.end());
		else if (op == "appendSelf") x += static_cast<const S &>(x);
		else if (op == "pop") x.popBack();
		else if (op == "ins") { long p = in.num(); const CHAR c = chr(in.num()); x.insert(at(p), c); }
		else if (op == "insMove") { long p = in.num(); x.insert(at(p), chr(in.num())); }
		else if (op == "insOwn") { long p = in.num(); x.insert(at(p), static_cast<const S &>(x)[in.num()]); }
		else if (op == "insText") { long p = in.num(); Raw t(in.nums()); x.insert(at(p), static_cast<const CHAR *>(t.p)); }
		else if (op == "insRange") { long p = in.num(); Raw t(in.nums()); x.insert(at(p), t.p, t.p + t.n); }
		else if (op == "insOther") { long p = in.num(); x.insert(at(p), y.begin(), y.end()); }
		else if (op == "erase") x.erase(at(in.num()));
		else if (op == "minus") x -= at(in.num());
		else if (op == "minusReverse") x -= rat(in.num());
		else if (op == "eraseRange") { long p = in.num(); long q = in.num(); x.erase(at(p), at(q)); }
		else if (op == "minusRange") { long p = in.num(); long q = in.num(); x -= makeRange(at(p), at(q)); }
		else if (op == "minusReverseRange") { long p = in.num(); long q = in.num(); x -= makeRange(rat(q - 1), rat(p - 1)); }
		else if (op == "clean") x.clean();
		else if (op == "resize") x.resize(S::SizeType(in.num()));
		else if (op == "reserve") x.reserve(S::SizeType(in.num()));
		else if (op == "write") { long p = in.num(); CHAR c = chr(in.num()); x[p] = c; }
		else if (op == "setText") { Raw t(in.nums()); x = static_cast<const CHAR *>(t.p); }
		else if (op == "newText") { Raw t(in.nums()); put(i, new S(static_cast<const CHAR *>(t.p))); }
		else if (op == "setOwnText") x = x.data() + in.num();
		else if (op == "new") put(i, new S);
		else if (op == "copyCtor") put(i, new S(static_cast<const S &>(y)));
		else if (op == "clone") put(i, new S(y.clone()));
		else if (op == "copyAssign") x = static_cast<const S &>(y);
		else if (op == "moveCtor") { put(i, new S(move(y))); y.clean(); }
		else if (op == "moveAssign") { x = move(y); y.clean(); }
		else if (op == "selfAssign") x = static_cast<const S &>(x);
		else if (op == "selfMove") x = move(x);
		else if (op == "plusText") { Raw t(in.nums()); put(i, new S(static_cast<const S &>(y) + static_cast<const CHAR *>(t.p))); }
		else if (op == "textPlus") { Raw t(in.nums()); put(i, new S(static_cast<const CHAR *>(t.p) + static_cast<const S &>(y))); }
		else if (op == "plus") put(i, new S(static_cast<const S &>(x) + static_cast<const S &>(y)));
		else if (op == "twice") put(i, new S(static_cast<const S &>(y) + static_cast<const S &>(y)));
		else return str("unknown operation " + op);
		return "0";
	}

	std::string show(S &x)
	{
		const S &c = x;
		std::vector<int> a, b;
		for (auto it = x.begin(); it != x.end(); ++it)
			a.push_back(int(*it) - 'a' + 1);
		if (a.size() != x.length())
			return str("length() disagrees with iteration");
		for (auto it = c.begin(); it != c.end(); ++it)
			b.push_back(int(*it) - 'a' + 1);
		if (a != b)
			return str("const iteration disagrees");
		b.clear();
		for (auto it = x.rbegin(); it != x.rend(); ++it)
			b.insert(b.begin(), int(*it) - 'a' + 1);
		if (a != b)
			return str("reverse iteration disagrees");
		b.clear();
		for (auto it = c.rbegin(); it != c.rend(); ++it)
			b.insert(b.begin(), int(*it) - 'a' + 1);
		if (a != b)
			return str("const reverse iteration disagrees");
		b.clear();
		for (auto it = c.cbegin(); it != c.cend() && b.size() <= a.size(); ++it)
			b.push_back(int(*it) - 'a' + 1);
		if (a != b)
			return str("cbegin/cend iteration disagrees");
		b.clear();
		for (auto it = c.crbegin(); it != c.crend() && b.size() <= a.size(); ++it)
			b.insert(b.begin(), int(*it) - 'a' + 1);
		if (a != b)
			return str("crbegin/crend iteration disagrees");
		for (size_t k = 0; k < a.size(); ++k)
			if (int(x[k]) - 'a' + 1 != a[k] || int(c[k]) - 'a' + 1 != a[k] || int(c.data()[k]) - 'a' + 1 != a[k])
				return str("indexing or data() disagrees");
		if (!c.data())
			return str("no raw data");
		if (c.data()[a.size()] != CHAR(0))
			return str("raw data is not terminated");
		if (S::rawStringLength(c.data()) != a.size())
			return str("rawStringLength disagrees");
		return ints(a);
	}
	std::string obs() { return list({ show(*v[1]), show(*v[2]) }); }
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
