// Replays Holder.tla behaviours on templates::Optional, Variant or Object,
// chosen with -DOPTIONAL, -DVARIANT or -DOBJECT.
#include <FlameIDE/Templates/Optional.hpp>
#include <FlameIDE/Templates/Variant.hpp>
#include <FlameIDE/Templates/Object.hpp>
#include "vf.hpp"

using namespace vf;
using flame_ide::move;

struct Tok2: Tok
{
	using Tok::Tok;
};

struct Base
{
	// kind and value as the user sees them; {0,0} when empty
	int kind = 0;
	long value = 0;
	std::string wrong;
};

#if defined(OPTIONAL)

using Holder = flame_ide::templates::Optional<Tok>;

static Base look(Holder &h)
{
	Base b;
	const Holder &c = h;
	if (!h)
		return b;
	b.kind = 1;
	b.value = h.get().value;
	if (c.get().value != b.value || (*h).value != b.value || (*c).value != b.value
			|| h->value != b.value || c->value != b.value
			|| h.getPointer()->value != b.value || c.getPointer()->value != b.value)
		b.wrong = "ways of reading the value disagree";
	return b;
}

template<typename F>
static bool construct(F put, const std::string &op, int, long n)
{
	Tok t{ int(n) };
	if (op == "newCopy") put(new Holder(static_cast<const Tok &>(t)));
	else if (op == "newMove") put(new Holder(move(t)));
	else { put(new Holder(t)); return t.value == n; }
	return true;
}
static bool assign(Holder &h, const std::string &op, int, long n)
{
	Tok t{ int(n) };
	if (op == "setCopy") h.set(static_cast<const Tok &>(t));
	else if (op == "setMove") h.set(move(t));
	else if (op == "valCopy") h = static_cast<const Tok &>(t);
	else if (op == "valMove") h = move(t);
	else { h.set(t); return t.value == n; }
	return true;
}
static void setOwn(Holder &h, int) { h.set(static_cast<const Tok &>(h.get())); }
static void init(Holder &h) { h.init(); }
static void reset(Holder &h) { h.unset(); }
static void write(Holder &h, int, long n) { *h = Tok(int(n)); }
static void copyInto(Holder &a, Holder &b) { a = static_cast<const Holder &>(b); }
template<typename F> static void copyNew(F put, Holder &b) { put(new Holder(static_cast<const Holder &>(b))); }
static std::string eq(Holder &, Holder &) { return str("no comparison"); }

#elif defined(VARIANT)

using Holder = flame_ide::templates::Variant<Tok, long, Tok2>;

static Base look(Holder &h)
{
	Base b;
	const Holder &c = h;
	b.kind = int(h.getCurrentIndex()) + 1;
	if (b.kind < 0)
		b.kind = 0;
	if (bool(h) != (b.kind > 0) || h.isSet() != (b.kind > 0))
		b.wrong = "index and isSet disagree";
	if (b.kind == 1 && h.get<Tok>()) b.value = h.get<Tok>()->value;
	if (b.kind == 2 && h.get<long>()) b.value = *h.get<long>();
	if (b.kind == 3 && h.get<Tok2>()) b.value = h.get<Tok2>()->value;
	const void *p[] = { h.get<Tok>(), h.get<long>(), h.get<Tok2>() };
	const void *q[] = { c.get<Tok>(), c.get<long>(), c.get<Tok2>() };
	const void *r[] = { h.get<0>(), h.get<1>(), h.get<2>() };
	const void *s[] = { c.get<0>(), c.get<1>(), c.get<2>() };
	for (int k = 0; k < 3; ++k)
	{
		bool mine = k + 1 == b.kind;
		if ((p[k] != nullptr) != mine || (q[k] != nullptr) != mine || (r[k] != nullptr) != mine || (s[k] != nullptr) != mine)
			b.wrong = "alternatives accessible disagree with the index";
		else if (p[k] != q[k] || p[k] != r[k] || p[k] != s[k])
			b.wrong = "ways of access disagree";
	}
	{
		Tok t(-7);
		long n = -7;
		Tok2 u(-7);
		if (c.get(t) != (b.kind == 1) || (b.kind == 1 ? t.value != b.value : t.value != -7))
			b.wrong = "get(object) wrong for the first alternative";
		if (c.get(n) != (b.kind == 2) || (b.kind == 2 ? n != b.value : n != -7))
			b.wrong = "get(object) wrong for the second alternative";
		if (c.get(u) != (b.kind == 3) || (b.kind == 3 ? u.value != b.value : u.value != -7))
			b.wrong = "get(object) wrong for the third alternative";
	}
	return b;
}

template<typename T, typename F>
static bool constructAs(F put, const std::string &op, long n)
{
	T t{ int(n) };
	if (op == "newCopy") put(new Holder(static_cast<const T &>(t)));
	else if (op == "newMove") put(new Holder(move(t)));
	else { put(new Holder(t)); return t == T{ int(n) }; }
	return true;
}
template<typename F>
static bool construct(F put, const std::string &op, int k, long n)
{
	return k == 1 ? constructAs<Tok>(put, op, n) : k == 2 ? constructAs<long>(put, op, n) : constructAs<Tok2>(put, op, n);
}
template<typename T>
static bool assignAs(Holder &h, const std::string &op, int k, long n)
{
	T t{ int(n) };
	if (op == "setCopy") return h.set(static_cast<const T &>(t)) == k - 1;
	else if (op == "setMove") return h.set(move(t)) == k - 1;
	else if (op == "valCopy") h = Holder(static_cast<const T &>(t));
	else if (op == "valMove") h = Holder(move(t));
	else return h.set(t) == k - 1 && t == T{ int(n) };
	return true;
}
static bool assign(Holder &h, const std::string &op, int k, long n)
{
	return k == 1 ? assignAs<Tok>(h, op, k, n) : k == 2 ? assignAs<long>(h, op, k, n) : assignAs<Tok2>(h, op, k, n);
}
static void setOwn(Holder &h, int k)
{
	if (k == 1) h.set(static_cast<const Tok &>(*h.get<Tok>()));
	else if (k == 2) h.set(static_cast<const long &>(*h.get<long>()));
	else h.set(static_cast<const Tok2 &>(*h.get<Tok2>()));
}
static void init(Holder &) {}
static void reset(Holder &h) { h.reset(); }
static void write(Holder &h, int k, long n)
{
	if (k == 1) *h.get<Tok>() = Tok(int(n));
	else if (k == 2) *h.get<long>() = n;
	else *h.get<Tok2>() = Tok2(int(n));
}
static void copyInto(Holder &a, Holder &b) { a = static_cast<const Holder &>(b); }
template<typename F> static void copyNew(F put, Holder &b) { put(new Holder(b)); }
static std::string eq(Holder &a, Holder &b)
{
	bool e = a == b;
	return e == !(a != b) ? boolean(e) : str("== and != disagree");
}

#elif defined(OBJECT)

using Holder = flame_ide::templates::Object<64>;
static int kindOf[3]; // the holder is type-erased: the user remembers the type

static Base look(Holder &) { return Base(); }

template<typename T, typename F>
static bool constructAs(F put, const std::string &op, long n)
{
	T t{ int(n) };
	if (op == "newCopy") put(new Holder(static_cast<const T &>(t)));
	else if (op == "newMove") put(new Holder(move(t)));
	else { put(new Holder(t)); return t == T{ int(n) }; }
	return true;
}
template<typename F>
static bool construct(F put, const std::string &op, int k, long n)
{
	return k == 1 ? constructAs<Tok>(put, op, n) : k == 2 ? constructAs<long>(put, op, n) : constructAs<Tok2>(put, op, n);
}
template<typename T>
static bool assignAs(Holder &h, const std::string &op, long n)
{
	T t{ int(n) };
	if (op == "valCopy") h = static_cast<const T &>(t);
	else if (op == "valMove") h = move(t);
	else { h = t; return t == T{ int(n) }; }
	return true;
}
static bool assign(Holder &h, const std::string &op, int k, long n)
{
	return k == 1 ? assignAs<Tok>(h, op, n) : k == 2 ? assignAs<long>(h, op, n) : assignAs<Tok2>(h, op, n);
}
static void setOwn(Holder &h, int k)
{
	if (k == 1) h = static_cast<const Tok &>(h.get<Tok>());
	else if (k == 2) h = static_cast<const long &>(h.get<long>());
	else h = static_cast<const Tok2 &>(h.get<Tok2>());
}
static void init(Holder &) {}
static void reset(Holder &h) { h = Holder(); }
static void write(Holder &h, int k, long n)
{
	if (k == 1) h.get<Tok>() = Tok(int(n));
	else if (k == 2) h.get<long>() = n;
	else h.get<Tok2>() = Tok2(int(n));
}
static void copyInto(Holder &, Holder &) {}
template<typename F> static void copyNew(F, Holder &) {}
static std::string eq(Holder &, Holder &) { return str("no comparison"); }

#endif

struct World
{
	Holder *v[3] = { nullptr, nullptr, nullptr };
	int kind[3] = { 0, 0, 0 }; // what the user believes is held

	void reset()
	{
		Registry::reset();
		v[1] = new Holder;
		v[2] = new Holder;
		kind[1] = kind[2] = 0;
	}
	std::string finish()
	{
		delete v[1];
		delete v[2];
		return liveEnd();
	}

	std::string step(In &in)
	{
		const std::string op = in.op();
		int i = int(in.num());
		int j = 3 - i;
		Holder &x = *v[i];
		auto put = [&](Holder *n) { delete v[i]; v[i] = n; };
		std::string ret = "0";
		if (op == "newCopy" || op == "newMove" || op == "newLvalue")
		{
			kind[i] = int(in.num());
			if (!construct(put, op, kind[i], in.num())) ret = str("source or result wrong");
		}
		else if (op == "setCopy" || op == "setMove" || op == "setLvalue" || op == "valCopy" || op == "valMove" || op == "valLvalue")
		{
			kind[i] = int(in.num());
			if (!assign(x, op, kind[i], in.num())) ret = str("source or result wrong");
		}
		else if (op == "setOwn") setOwn(x, kind[i]);
		else if (op == "init") { init(x); kind[i] = 1; }
		else if (op == "reset") { ::reset(x); kind[i] = 0; }
		else if (op == "write") write(x, kind[i], in.num());
		else if (op == "copyCtor") { copyNew(put, *v[j]); kind[i] = kind[j]; }
		else if (op == "copyAssign") { copyInto(x, *v[j]); kind[i] = kind[j]; }
		else if (op == "moveCtor") { put(new Holder(move(*v[j]))); ::reset(*v[j]); kind[i] = kind[j]; kind[j] = 0; }
		else if (op == "moveAssign") { x = move(*v[j]); ::reset(*v[j]); kind[i] = kind[j]; kind[j] = 0; }
		else if (op == "selfAssign") copyInto(x, x);
		else if (op == "selfMove") { Holder &y = x; x = move(y); }
		else if (op == "new") { put(new Holder); kind[i] = 0; }
		else if (op == "eq") ret = eq(x, *v[j]);
		else return str("unknown operation " + op);
		return ret;
	}

	std::string show(int i)
	{
#ifdef OBJECT
		Holder &h = *v[i];
		const Holder &c = h;
		if (bool(h) != (kind[i] > 0))
			return str(kind[i] ? "reports empty" : "reports held");
		long a = 0, b = 0;
		if (kind[i] == 1) { a = h.get<Tok>().value; b = c.get<Tok>().value; }
		if (kind[i] == 2) { a = h.get<long>(); b = c.get<long>(); }
		if (kind[i] == 3) { a = h.get<Tok2>().value; b = c.get<Tok2>().value; }
		if (a != b)
			return str("ways of reading disagree");
		return list({ num(kind[i]), num(a) });
#else
		Base b = look(*v[i]);
		return b.wrong.empty() ? list({ num(b.kind), num(b.value) }) : str(b.wrong);
#endif
	}
	std::string obs() { return list({ show(1), show(2) }); }
	std::string live() { return liveColumn(); }
};

int main()
{
	World w;
	return drive(w);
}
