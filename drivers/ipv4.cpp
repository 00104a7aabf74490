// Replays Ipv4.tla behaviours on os::network::Ipv4.
#include <FlameIDE/Os/Network/Ipv4.hpp>
#include <memory>
#include "vf.hpp"

using namespace vf;
using flame_ide::os::network::Ipv4;

struct World
{
	Ipv4 e;

	void reset() { e = Ipv4(); }
	std::string finish() { return ""; }
	std::string live() { return "0"; }

	// a text in memory of exactly its size
	static std::unique_ptr<char[]> text(const std::vector<int> &t)
	{
		std::unique_ptr<char[]> r(new char[t.size() + 1]);
		for (size_t i = 0; i < t.size(); ++i)
			r[i] = char(t[i]);
		r[t.size()] = 0;
		return r;
	}
	static Ipv4::Address address(const std::vector<int> &t, int port)
	{
		Ipv4::Address a;
		for (size_t i = 0; i < t.size(); ++i)
			a.ip[i] = char(t[i]);
		a.ip[t.size()] = 0;
		a.port = port;
		return a;
	}

	std::string act(In &in)
	{
		const std::string op = in.op();
		if (op == "set" || op == "make" || op == "setAddress" || op == "makeAddress")
		{
			std::vector<int> t = in.nums();
			int port = int(in.num());
			if (op == "set") return boolean(e.set(text(t).get(), port));
			if (op == "make") { e = Ipv4(text(t).get(), port); return "0"; }
			if (op == "setAddress") return boolean(e.set(address(t, port)));
			e = Ipv4(address(t, port));
			return "0";
		}
		if (op == "setNumbers" || op == "makeNumbers")
		{
			Ipv4::Number q[4];
			for (auto &i : q)
				i = Ipv4::Number(in.num());
			int port = int(in.num());
			if (op == "setNumbers") e.set(q, port);
			else e = Ipv4(q, port);
			return "0";
		}
		if (op == "local") { e = Ipv4::localhost(int(in.num())); return "0"; }
		if (op == "again")
		{
			Ipv4::Address a = e;
			Ipv4 other;
			if (!other.set(a))
				return str("the written text is refused");
			e = other;
			return "0";
		}
		if (op == "copied") { Ipv4 other(e), moved(static_cast<Ipv4 &&>(other)); e = moved; return "0"; }
		return str("unknown operation " + op);
	}
	std::string seen()
	{
		if (!e)
			return "{\"ok\":false,\"port\":0,\"text\":[]}";
		Ipv4::Address a = e;
		std::vector<int> t;
		for (size_t i = 0; i < sizeof a.ip && a.ip[i]; ++i)
			t.push_back((unsigned char)a.ip[i]);
		return "{\"ok\":true,\"port\":" + num(a.port) + ",\"text\":" + ints(t) + "}";
	}
#if defined(CASES)
	std::string step(In &in) { reset(); std::string r = act(in); return "[" + r + "," + seen() + "]"; }
	std::string obs() { return "0"; }
#else
	std::string step(In &in) { return act(in); }
	std::string obs() { return seen(); }
#endif
};

int main()
{
	World w;
	return drive(w);
}
