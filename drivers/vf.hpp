// Shared helpers of the conformance drivers: line reader, JSON writer and an
// element type whose whole life is tracked.
#ifndef VF_HPP
#define VF_HPP

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <functional>
#include <new>
#include <memory>
#include <unistd.h>
#ifdef BLOCKS
#include <unordered_set>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif

namespace vf
{

#ifdef BLOCKS
// ----------------------------------------------------------- memory blocks

/// Blocks that were allocated while counting and are not yet released
struct Blocks
{
	static bool &counting() { static bool c = false; return c; }
	static bool &busy() { static bool b = false; return b; }
	static std::unordered_set<const volatile void *> &held() { static auto &h = *new std::unordered_set<const volatile void *>; return h; }
	static void gained(const volatile void *p, size_t)
	{
		if (!counting() || busy() || !p)
			return;
		busy() = true;
		held().insert(p);
		busy() = false;
	}
	static void lost(const volatile void *p)
	{
		if (busy() || held().empty())
			return;
		busy() = true;
		held().erase(p);
		busy() = false;
	}
	static void install() { held(); __sanitizer_install_malloc_and_free_hooks(gained, lost); }
};
struct Counted
{
	bool was = Blocks::counting();
	explicit Counted(bool now = true) { Blocks::counting() = now; }
	~Counted() { Blocks::counting() = was; }
};
#else
struct Counted
{
	explicit Counted(bool = true) {}
	~Counted() {}
};
#endif

// ---------------------------------------------------------------- elements

struct Registry
{
	// state of every element ever constructed: 1 alive, 0 destroyed
	static std::vector<char> &states() { static std::vector<char> s; return s; }
	static std::string &error() { static std::string e; return e; }
	static long &alive() { static long n = 0; return n; }
	static void fail(const char *what) { Counted c(false); if (error().empty()) error() = what; }
	static void reset() { states().clear(); error().clear(); alive() = 0; }
	static unsigned add() { Counted c(false); states().push_back(1); ++alive(); return unsigned(states().size() - 1); }
	static bool isAlive(unsigned id) { return id < states().size() && states()[id] == 1; }
};

enum : int { MOVED = -1, DEAD = -2 };

struct Tok
{
	enum : unsigned { MAGIC = 0x5EED0BEE };

	Tok() : magic(MAGIC), id(Registry::add()), value(0) {}
	Tok(int v) : magic(MAGIC), id(Registry::add()), value(v) {}
	Tok(const Tok &o) : magic(MAGIC), id(0), value(0)
	{
		o.check("copied from an object that is not alive");
		value = o.value;
		id = Registry::add();
	}
	Tok(Tok &&o) noexcept : magic(MAGIC), id(0), value(0)
	{
		o.check("moved from an object that is not alive");
		value = o.value;
		o.value = MOVED;
		id = Registry::add();
	}
	~Tok()
	{
		if (check("destroyed an object that is not alive"))
		{
			Registry::states()[id] = 0;
			--Registry::alive();
		}
	}
	Tok &operator=(const Tok &o)
	{
		check("assigned to an object that is not alive");
		o.check("assigned from an object that is not alive");
		value = o.value;
		return *this;
	}
	Tok &operator=(Tok &&o) noexcept
	{
		check("assigned to an object that is not alive");
		o.check("assigned from an object that is not alive");
		int v = o.value;
		o.value = MOVED;
		value = v;
		return *this;
	}
	bool check(const char *what) const
	{
		if (magic != MAGIC || !Registry::isAlive(id))
		{
			Registry::fail(what);
			return false;
		}
		return true;
	}
	bool operator==(const Tok &o) const { return value == o.value; }
	bool operator!=(const Tok &o) const { return value != o.value; }
	bool operator<(const Tok &o) const { return value < o.value; }
	bool operator>(const Tok &o) const { return value > o.value; }

	unsigned magic;
	unsigned id;
	int value;
};

inline int valueOf(const Tok &t) { return t.value; }
inline int valueOf(int v) { return v; }

// ------------------------------------------------------------------- output

struct Out
{
	std::string s;
	Out &raw(const std::string &x) { s += x; return *this; }
	Out &num(long long v) { s += std::to_string(v); return *this; }
	static std::string quote(const std::string &x)
	{
		std::string r = "\"";
		for (unsigned char c : x)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += char(c);
		}
		return r + "\"";
	}
};

inline std::string num(long long v) { return std::to_string(v); }
inline std::string str(const std::string &x) { return Out::quote(x); }
inline std::string boolean(bool b) { return b ? "true" : "false"; }
inline std::string list(const std::vector<std::string> &v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i)
		r += (i ? "," : "") + v[i];
	return r + "]";
}
inline std::string ints(const std::vector<int> &v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i)
		r += (i ? "," : "") + std::to_string(v[i]);
	return r + "]";
}
template<typename T>
std::string ints(const std::vector<T> &v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i)
		r += (i ? "," : "") + std::to_string(v[i]);
	return r + "]";
}

// -------------------------------------------------------------------- input

struct In
{
	std::vector<std::string> w;
	size_t at;
	bool read()
	{
		static char buf[1 << 16];
		if (!fgets(buf, sizeof buf, stdin))
			return false;
		w.clear();
		at = 0;
		char *save = nullptr;
		for (char *p = strtok_r(buf, " \n", &save); p; p = strtok_r(nullptr, " \n", &save))
			w.push_back(p);
		return true;
	}
	const std::string &op() const { static std::string none; return w.empty() ? none : w[0]; }
	std::string word() { ++at; std::string r = at < w.size() ? w[at] : std::string(); return r == "_" ? std::string() : r; }
	long num() { ++at; return at < w.size() ? atol(w[at].c_str()) : 0; }
	std::vector<int> nums()
	{
		std::vector<int> r;
		long n = num();
		for (long i = 0; i < n; ++i)
			r.push_back(int(num()));
		return r;
	}
};

/// Run a world: World must have reset(), finish() -> string ("" when clean),
/// step(In &) -> return value as JSON, obs() -> JSON, live() -> JSON.
template<typename World>
int drive(World &world)
{
	In in;
	bool flush = getenv("VF_FLUSH") != nullptr;
#ifdef BLOCKS
	Blocks::install();
#endif
	bool open = false;
	auto close = [&]()
	{
		if (!open)
			return;
		std::string e = world.finish();
#ifdef BLOCKS
		if (e.empty() && !Blocks::held().empty())
			e = "life: memory blocks are left";
		Blocks::held().clear();
#endif
		if (!e.empty())
			printf("!%s\n", e.c_str());
		fflush(stdout);
	};
	while (in.read())
	{
		if (in.op() == "quit")
			break;
		if (in.op() == "@reset")
		{
			// a history that does not come back is ended
			alarm(30);
			close();
			{
				Counted c;
				world.reset();
			}
			printf("#reset\n");
			if (flush)
				fflush(stdout);
			open = true;
			continue;
		}
		std::string ret;
		{
			Counted c;
			ret = world.step(in);
		}
		std::string o = world.obs();
		std::string l = world.live();
		printf("[%s,%s]\t%s\n", ret.c_str(), o.c_str(), l.c_str());
		if (flush)
			fflush(stdout);
	}
	close();
	return 0;
}

/// Live-object column: the number of live elements, or the first misuse.
inline std::string liveColumn()
{
	return Registry::error().empty() ? num(Registry::alive()) : str(Registry::error());
}

inline std::string liveEnd()
{
	if (!Registry::error().empty())
		return "life: " + Registry::error();
	if (Registry::alive())
		return "life: " + std::to_string(Registry::alive()) + " elements never destroyed";
	return "";
}

/// Contents of a container through every way of walking it; "?what" on
/// disagreement between them.
template<typename C>
bool seenBy(C &c, std::vector<int> &fwd)
{
	for (auto it = c.begin(); it != c.end(); ++it)
	{
		fwd.push_back(valueOf(*it));
		if (fwd.size() > 100000)
			return false;
	}
	return true;
}

} // namespace vf

#endif
