// Replays Expected.tla behaviours on flame_ide::Expected (-DCOMMON) or
// templates::Expected (-DTEMPLATES).
#include <FlameIDE/Common/Expected.hpp>
#include <FlameIDE/Templates/Expected.hpp>
#include "vf.hpp"

using namespace vf;
using flame_ide::move;

struct Err: Tok
{
	using Tok::Tok;
};

#ifdef COMMON
using Exp = flame_ide::Expected<Tok, Err>;
#else
using Exp = flame_ide::templates::Expected<Tok, Err>;
#endif

struct World
{
	Exp *v[3] = { nullptr, nullptr, nullptr };
	std::vector<std::string> calls;

	void reset()
	{
		Registry::reset();
		v[1] = new Exp;
		v[2] = new Exp;
	}
	std::string finish()
	{
		delete v[1];
		delete v[2];
		return liveEnd();
	}
	void put(int i, Exp *n) { delete v[i]; v[i] = n; }
	void call(int kind, const Tok &t)
	{
		if (!t.check("handler got an object that is not alive"))
			calls.push_back(str("dead value"));
		else
			calls.push_back(list({ num(kind), num(t.value) }));
	}

	template<typename T>
	void store(int i, const std::string &op, int n)
	{
		T t(n);
		if (op == "newCopy") put(i, new Exp(static_cast<const T &>(t)));
		else if (op == "newMove") put(i, new Exp(move(t)));
		else if (op == "setCopy") *v[i] = static_cast<const T &>(t);
		else if (op == "setMove") *v[i] = move(t);
		else
		{
			*v[i] = t;
			if (t.value != n)
				calls.push_back(str("source changed"));
		}
	}
	static void clear(Exp &x)
	{
		x.ifResult([](Tok &&) {}).ifError([](Err &&) {}).done();
	}

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		int j = 3 - i;
		calls.clear();
		auto takeResult = [this](Tok &&t) { Tok mine(move(t)); call(1, mine); };
		auto takeError = [this](Err &&t) { Err mine(move(t)); call(2, mine); };
		auto lookResult = [this](const Tok &t) { call(1, t); };
		auto lookError = [this](const Err &t) { call(2, t); };
		if (op == "newCopy" || op == "newMove" || op == "setCopy" || op == "setMove" || op == "setLvalue")
		{
			int k = int(in.num());
			if (k == 1) store<Tok>(i, op, int(in.num()));
			else store<Err>(i, op, int(in.num()));
		}
		else if (op == "new") put(i, new Exp);
		else if (op == "copyCtor") put(i, new Exp(static_cast<const Exp &>(*v[j])));
		else if (op == "copyAssign") *v[i] = static_cast<const Exp &>(*v[j]);
		else if (op == "moveCtor") { put(i, new Exp(move(*v[j]))); clear(*v[j]); }
		else if (op == "moveAssign") { *v[i] = move(*v[j]); clear(*v[j]); }
		else if (op == "selfAssign") *v[i] = static_cast<const Exp &>(*v[i]);
		else if (op == "selfMove") *v[i] = move(*v[i]);
		else if (op == "chainTake") v[i]->ifResult(takeResult).ifError(takeError).done();
		else if (op == "chainLook") v[i]->ifResult(lookResult).ifError(lookError).done();
		else if (op == "chainErrorFirst") v[i]->ifError(takeError).ifResult(takeResult).done();
		else if (op == "onlyTake")
		{
			if (in.num() == 1) v[i]->ifResult(takeResult).done();
			else v[i]->ifError(takeError).done();
		}
		else if (op == "onlyLook")
		{
			if (in.num() == 1) v[i]->ifResult(lookResult).done();
			else v[i]->ifError(lookError).done();
		}
		else if (op == "look")
		{
			if (in.num() == 1) v[i]->ifResult(lookResult);
			else v[i]->ifError(lookError);
		}
		else if (op == "peek")
			static_cast<const Exp &>(*v[i]).ifResult(lookResult).ifError(lookError);
		else return str("unknown operation " + op);
		return list(calls);
	}

	std::string show(int i)
	{
		std::vector<std::string> seen;
		const Exp &c = *v[i];
		c.ifResult([&](const Tok &t) { seen.push_back(list({ num(1), num(t.value) })); });
		c.ifError([&](const Err &t) { seen.push_back(list({ num(2), num(t.value) })); });
		return seen.empty() ? "[0,0]" : seen.size() == 1 ? seen[0] : str("both handlers run");
	}
	std::string obs() { return list({ show(1), show(2) }); }
	std::string live() { return liveColumn(); }
};

int main()
{
	World w;
	return drive(w);
}
