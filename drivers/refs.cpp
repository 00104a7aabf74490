// Replays Refs.tla behaviours on ReferenceWrapper and RaiiCaller; -DNC cells.
#include <FlameIDE/Common/ReferenceWrapper.hpp>
#include <FlameIDE/Templates/RaiiCaller.hpp>
#include <memory>
#include "vf.hpp"

using namespace vf;
using flame_ide::ReferenceWrapper;
using flame_ide::ConstReferenceWrapper;

struct Cell { int value; };
using Ref = ReferenceWrapper<Cell>;

static std::vector<int> calls;

struct Scope { virtual ~Scope() {} };
struct First { int k; void operator()() { calls.push_back(k); } };
struct Second { int k; void operator()() { calls.push_back(-k); } };

// the caller lives as long as the scope object
struct Both: Scope
{
	explicit Both(int k) : caller(flame_ide::templates::makeRaiiCaller(First{ k }, Second{ k })) {}
	decltype(flame_ide::templates::makeRaiiCaller(First{ 0 }, Second{ 0 })) caller;
};
struct End: Scope
{
	explicit End(int k) : caller(flame_ide::templates::makeRaiiCaller(Second{ k })) {}
	decltype(flame_ide::templates::makeRaiiCaller(Second{ 0 })) caller;
};
struct BothNamed: Scope
{
	explicit BothNamed(int k) : caller(First{ k }, Second{ k }) {}
	flame_ide::templates::RaiiCaller<Second> caller;
};
struct EndNamed: Scope
{
	explicit EndNamed(int k) : caller(Second{ k }) {}
	flame_ide::templates::RaiiCaller<Second> caller;
};

struct World
{
	Cell cell[NC + 1];
	Ref *r[3] = { nullptr, nullptr, nullptr };
	std::vector<std::unique_ptr<Scope>> open;

	void reset()
	{
		for (int c = 1; c <= NC; ++c)
			cell[c].value = c;
		r[1] = new Ref;
		r[2] = new Ref;
		open.clear();
		calls.clear();
	}
	std::string finish()
	{
		delete r[1];
		delete r[2];
		while (!open.empty())
		{
			int k = int(open.size());
			calls.clear();
			open.pop_back();
			if (calls != std::vector<int>{ -k })
				return "leaving the last scopes made other calls";
		}
		return "";
	}
	void put(int i, Ref *n) { delete r[i]; r[i] = n; }
	std::string step(In &in)
	{
		const std::string op = in.op();
		calls.clear();
		if (op == "enter")
		{
			std::string kind = in.word();
			int k = int(open.size()) + 1;
			if (kind == "both") open.emplace_back(new Both(k));
			else if (kind == "end") open.emplace_back(new End(k));
			else if (kind == "bothNamed") open.emplace_back(new BothNamed(k));
			else open.emplace_back(new EndNamed(k));
			return ints(calls);
		}
		if (op == "leave")
		{
			open.pop_back();
			return ints(calls);
		}
		int i = int(in.num());
		if (op == "change") { cell[i].value = int(in.num()); return "0"; }
		if (op == "same")
		{
			const Cell &constant = cell[i];
			auto wrapper = flame_ide::makeConstReferenceWrapper(cell[i]);
			auto pointed = flame_ide::makeConstReferenceWrapper(&constant);
			return boolean(&flame_ide::getReference(cell[i]) == &cell[i] && &wrapper.get() == &cell[i]
					&& wrapper && wrapper->value == cell[i].value && &pointed.get() == &cell[i]);
		}
		Ref &x = *r[i];
		if (op == "byReference") put(i, new Ref(cell[in.num()]));
		else if (op == "byPointer") put(i, new Ref(&cell[in.num()]));
		else if (op == "make") x = flame_ide::makeReferenceWrapper(cell[in.num()]);
		else if (op == "makePointer") x = flame_ide::makeReferenceWrapper(&cell[in.num()]);
		else if (op == "new") put(i, new Ref);
		else if (op == "byNull") put(i, new Ref(nullptr));
		else if (op == "copyCtor") put(i, new Ref(*r[3 - i]));
		else if (op == "copyAssign") x = *r[3 - i];
		else if (op == "writeGet") x.get() = Cell{ int(in.num()) };
		else if (op == "writeArrow") x->value = int(in.num());
		else return str("unknown operation");
		return "0";
	}
	std::string show(const Ref &x)
	{
		if (!x)
			return x.operator->() ? str("empty, yet points somewhere") : num(0);
		return &x.get() == x.operator->() ? num(x->value) : str("get() and -> disagree");
	}
	std::string obs()
	{
		std::vector<int> c;
		for (int k = 1; k <= NC; ++k)
			c.push_back(cell[k].value);
		return list({ list({ show(*r[1]), show(*r[2]) }), ints(c) });
	}
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
