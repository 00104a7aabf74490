// Replays Libraries.tla behaviours on os::Library.  The dynamic loader is
// replaced (-Wl,--wrap) by one that knows two libraries, counts how often
// they are open and records every call with a handle that is not open.
#include <FlameIDE/Common/Utils.hpp>
#include <FlameIDE/Os/Library.hpp>
#include <dlfcn.h>
#include <map>
#include <memory>
#include "vf.hpp"

using namespace vf;
using flame_ide::os::Library;

enum { N = PLACES, NL = 2 };
static char handles[NL + 1], symbols[NL + 1], global;
static long refs[NL + 1], strays;
static bool inside; // in a call of the code under test
#include "blocks.hpp"
static bool counting() { return inside; }
static bool denied() { return false; }
static std::string wanted; // directory of the library being opened and what its name begins with

// the loader's own memory does not count
struct Outside
{
	bool was = inside;
	Outside() { inside = false; }
	~Outside() { inside = was; }
};
static std::string nameOf(long k) { return k == 1 ? "One" : k == 2 ? "Two" : "None"; }
static bool known(void *h)
{
	for (int k = 1; k <= NL; ++k)
		if (h == handles + k && refs[k] > 0)
			return true;
	++strays;
	return false;
}
extern "C"
{
void *__wrap_dlopen(const char *path, int)
{
	Outside o;
	for (int k = 1; k <= NL; ++k)
		if (path && wanted + nameOf(k) + ".so" == path)
		{
			++refs[k];
			return handles + k;
		}
	return nullptr;
}
void *__wrap_dlsym(void *h, const char *name)
{
	Outside o;
	if (!known(h))
		return &global;
	const long k = static_cast<char *>(h) - handles;
	return name == std::string("common") || name == "of" + nameOf(k) ? symbols + k : nullptr;
}
int __wrap_dlclose(void *h)
{
	if (known(h))
		--refs[static_cast<char *>(h) - handles];
	return 0;
}
}

struct World
{
	alignas(Library) char room[N + 1][sizeof(Library)];
	Library *v[N + 1] = {};

	void reset()
	{
		for (int k = 1; k <= NL; ++k)
			refs[k] = 0;
		strays = blocks = 0;
	}
	void drop(int i)
	{
		if (v[i])
			v[i]->~Library();
		v[i] = nullptr;
	}
	std::string finish()
	{
		inside = true;
		for (int i = 1; i <= N; ++i)
			drop(i);
		inside = false;
		if (strays)
			return "a handle that is not open was used";
		for (int k = 1; k <= NL; ++k)
			if (refs[k])
				return "a library is left open";
		return blocks ? "memory is left allocated" : "";
	}
	std::string step(In &in)
	{
		const std::string op = in.op();
		const int i = int(in.num());
		std::string r = "0";
		if (op == "new")
		{
			inside = true;
			v[i] = new (room[i]) Library;
			inside = false;
		}
		else if (op == "open")
		{
			std::string name = nameOf(in.num());
			const long n = in.num();
			std::string begin(size_t(in.num()), 'x');
			name = begin + name;
			std::string dir;
			for (long k = 0; k < n; ++k)
				dir += k % 7 == 3 ? '/' : char('a' + k % 26);
			wanted = (n ? dir + "/lib" : "lib") + begin;
			inside = true;
			v[i] = n ? new (room[i]) Library(name.c_str(), dir.c_str()) : new (room[i]) Library(name.c_str());
			const bool ok = *v[i];
			inside = false;
			r = boolean(ok);
		}
		else if (op == "destroy")
		{
			inside = true;
			drop(i);
			inside = false;
		}
		else if (op == "selfMove")
		{
			Library &x = *v[i];
			inside = true;
			x = flame_ide::move(x);
			inside = false;
		}
		else if (op == "moveCtor")
		{
			Library &from = *v[in.num()];
			inside = true;
			v[i] = new (room[i]) Library(flame_ide::move(from));
			inside = false;
		}
		else if (op == "moveAssign")
		{
			Library &from = *v[in.num()];
			inside = true;
			*v[i] = flame_ide::move(from);
			inside = false;
		}
		else if (op == "find")
		{
			const long s = in.num();
			const std::string name = s < 0 ? "nowhere" : s == 0 ? "common" : "of" + nameOf(s);
			inside = true;
			char *p = v[i]->find<char *>(name.c_str());
			inside = false;
			if (p == &global) r = str("a symbol of another module");
			else if (p) r = num(p - symbols);
		}
		else
			return str("unknown operation " + op);
		return r;
	}
	std::string obs()
	{
		std::vector<std::string> r, c;
		// which library an object holds shows in its symbols
		for (int i = 1; i <= N; ++i)
		{
			if (!v[i])
			{
				r.push_back("-1");
				continue;
			}
			const bool valid = *v[i];
			char *p = valid ? v[i]->find<char *>("common") : nullptr;
			r.push_back(!valid ? "0" : p >= symbols + 1 && p <= symbols + NL ? num(p - symbols) : str("no library"));
		}
		for (int k = 1; k <= NL; ++k)
			c.push_back(num(refs[k]));
		return "{\"refs\":" + list(c) + ",\"stray\":" + num(strays) + ",\"v\":" + list(r) + "}";
	}
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
