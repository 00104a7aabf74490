// Replays Chain.tla behaviours: objects that own the next one through
// templates::SharedPointer (-DSHARED) or templates::UniquePointer (-DUNIQUE).
#include <FlameIDE/Templates/Pointers.hpp>
#include "vf.hpp"

using namespace vf;
using flame_ide::move;

struct Node;
#ifdef SHARED
using Ptr = flame_ide::templates::SharedPointer<Node>;
#else
using Ptr = flame_ide::templates::UniquePointer<Node>;
#endif

struct Node
{
	explicit Node(int v);
	Tok tok;
	Ptr next;
};
#ifdef SHARED
static Ptr none() { return Ptr(static_cast<Ptr &&>(*std::unique_ptr<Ptr>(new Ptr))); }
#else
static Ptr none() { return Ptr::makeEmpty(); }
#endif
Node::Node(int v) : tok(v), next(none()) {}

struct World
{
	Ptr *v[N + 1] = {};

	void reset()
	{
		Registry::reset();
		for (int i = 1; i <= N; ++i)
			v[i] = new Ptr(none());
	}
	std::string finish()
	{
		for (int i = 1; i <= N; ++i)
			delete v[i];
		return liveEnd();
	}

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		Ptr &x = *v[i];
		if (op == "make") x = Ptr(int(in.num()));
		else if (op == "clean") x.clean();
		else if (op == "move") x = move(*v[in.num()]);
		else if (op == "linkMove") x->next = move(*v[in.num()]);
		else if (op == "followMove") x = move((*v[in.num()])->next);
		else if (op == "skipMove") x->next = move(x->next->next);
		else if (op == "unlink") x->next.clean();
#ifdef SHARED
		else if (op == "copy") x = static_cast<const Ptr &>(*v[in.num()]);
		else if (op == "link") x->next = static_cast<const Ptr &>(*v[in.num()]);
		else if (op == "follow") x = static_cast<const Ptr &>((*v[in.num()])->next);
		else if (op == "skip") x->next = static_cast<const Ptr &>(x->next->next);
#endif
		else return str("unknown operation " + op);
		return "0";
	}

	std::string obs()
	{
		std::vector<std::string> r;
		for (int i = 1; i <= N; ++i)
		{
			std::vector<int> seen;
			for (const Ptr *p = v[i]; *p && seen.size() < 100; p = &(*p)->next)
			{
				(*p)->tok.check("pointer to an object that is not alive");
				seen.push_back((*p)->tok.value);
			}
			r.push_back(ints(seen));
		}
		return list(r);
	}
	std::string live() { return liveColumn(); }
};

int main()
{
	World w;
	return drive(w);
}
