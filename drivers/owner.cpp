// Replays Owner.tla behaviours on templates::SharedPointer (-DSHARED) or
// templates::UniquePointer (-DUNIQUE); -DN is the number of pointers.
#include <FlameIDE/Templates/Pointers.hpp>
#include "vf.hpp"

using namespace vf;
using flame_ide::move;

#ifdef SHARED
using Ptr = flame_ide::templates::SharedPointer<Tok>;
static Ptr *empty() { return new Ptr; }
#else
using Ptr = flame_ide::templates::UniquePointer<Tok>;
static Ptr *empty() { return new Ptr(Ptr::makeEmpty()); }
#endif

struct World
{
	Ptr *v[N + 1] = {};

	void reset()
	{
		Registry::reset();
		for (int i = 1; i <= N; ++i)
			v[i] = empty();
	}
	std::string finish()
	{
		for (int i = 1; i <= N; ++i)
			delete v[i];
		return liveEnd();
	}
	// the new pointer exists before the old one goes
	void put(int i, Ptr *n) { delete v[i]; v[i] = n; }

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		std::string ret = "0";
		Ptr &x = *v[i];
		if (op == "newCopy") { Tok t(int(in.num())); put(i, new Ptr(static_cast<const Tok &>(t))); }
		else if (op == "newMove") { Tok t(int(in.num())); put(i, new Ptr(move(t))); }
		else if (op == "newLvalue")
		{
			int n = int(in.num());
			Tok t(n);
			put(i, new Ptr(t));
			if (t.value != n) ret = str("source changed");
		}
		else if (op == "newArgs") { int n = int(in.num()); put(i, new Ptr(n)); }
		else if (op == "clean") x.clean();
		else if (op == "new") put(i, empty());
		else if (op == "write") *x = Tok(int(in.num()));
		else if (op == "moveCtor") put(i, new Ptr(move(*v[in.num()])));
		else if (op == "moveAssign") x = move(*v[in.num()]);
		else if (op == "selfMove") x = move(x);
#ifdef SHARED
		else if (op == "copyCtor") put(i, new Ptr(static_cast<const Ptr &>(*v[in.num()])));
		else if (op == "copyLvalue") put(i, new Ptr(*v[in.num()]));
		else if (op == "copyAssign") x = *v[in.num()];
		else if (op == "crowd") { std::vector<Ptr> more(size_t(in.num()), x); }
		else if (op == "relay")
		{
			std::vector<Ptr> more(size_t(in.num()), x);
			x.clean();
			x = move(more.back());
		}
		else if (op == "selfAssign") x = static_cast<const Ptr &>(x);
#endif
		else return str("unknown operation " + op);
		return ret;
	}

	std::string show(int i)
	{
		Ptr &x = *v[i];
		const Ptr &c = x;
		if (!x)
			return "0";
		int a = (*x).value;
		if (!(*x).check("pointer to an object that is not alive"))
			return str("the object owned is not alive");
		if ((*c).value != a || x->value != a || c->value != a
				|| x.pointer() != &*x || c.pointer() != &*x || &x.reference() != &*x || &c.reference() != &*x)
			return str("ways of access disagree");
		return num(a);
	}
	std::string obs()
	{
		std::vector<std::string> r;
		for (int i = 1; i <= N; ++i)
			r.push_back(show(i));
		return list(r);
	}
	std::string live() { return liveColumn(); }
};

int main()
{
	World w;
	return drive(w);
}
