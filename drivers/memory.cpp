// Replays Memory.tla behaviours on the allocators; malloc() is replaced to
// count blocks and to fail on request.
#include <FlameIDE/Templates/Allocator.hpp>
#include <FlameIDE/Templates/Allocator/ArrayAllocator.hpp>
#include <FlameIDE/Templates/Allocator/MallocAllocator.hpp>
#include <FlameIDE/Templates/Allocator/ObjectAllocator.hpp>
#include <FlameIDE/Templates/Allocator/ProxingAllocator.hpp>
#include <FlameIDE/Templates/AlignObject.hpp>
#include "vf.hpp"

using namespace vf;
namespace al = flame_ide::templates::allocator;

static bool failing = false;
#include "blocks.hpp"
static bool counting() { return true; }
static bool denied() { return failing; }

struct Failing
{
	explicit Failing(bool f) { failing = f; }
	~Failing() { failing = false; }
};

using Traits = flame_ide::SizeTraits;
using Base = al::BaseAllocator<Traits>;

template<int ALIGN>
std::string aligned(int v)
{
	using Storage = flame_ide::templates::AlignedObject<Tok, ALIGN>;
	struct Made
	{
		explicit Made(int v) : s(v) {}
		char before = 1;
		Storage s;
	} made(v);
	const Storage &constant = made.s;
	Tok *p = made.s.getAddress();
	bool ok = reinterpret_cast<size_t>(p) % ALIGN == 0
			&& constant.getAddress() == p
			&& reinterpret_cast<char *>(p) >= reinterpret_cast<char *>(&made.s)
			&& reinterpret_cast<char *>(p + 1) <= reinterpret_cast<char *>(&made.s + 1);
	p->check("the aligned storage holds no object");
	int value = p->value;
	p->~Tok();
	return list({ boolean(ok), num(value) });
}

struct World
{
	struct Slot
	{
		std::string kind;
		Tok *object;
		int *raw;
		unsigned char *bytes;
		long n;
	};
	Slot s[3];
	al::ObjectAllocator<Tok> objects;
	al::ArrayAllocator<Tok> arrays;
	al::ArrayAllocator<int> elements;
	al::MallocAllocator<Traits> plain;
	al::ProxingAllocator<Traits> proxy{ plain };

	void reset()
	{
		Registry::reset();
		blocks = 0;
		for (auto &x : s)
			x = Slot{ "none", nullptr, nullptr, nullptr, 0 };
	}
	std::string finish()
	{
		for (auto &x : s)
		{
			if (x.kind == "object") objects.destroy(x.object);
			else if (x.kind == "array") arrays.destroy(x.object, x.n);
			else if (x.kind == "elements") elements.freeArray(x.raw);
			else if (x.kind == "bytes") plain.deallocate(x.bytes);
		}
		if (blocks)
			return "blocks of memory not balanced: " + std::to_string(blocks);
		return liveEnd();
	}
	Base &base(const std::string &via)
	{
		if (via == "malloc") return plain;
		if (via == "proxy") return proxy;
		return al::DefaultAllocator<al::MallocAllocator<Traits>>::get();
	}
	std::string step(In &in)
	{
		const std::string op = in.op();
		if (op == "aligned")
		{
			int n = int(in.num());
			int v = int(in.num());
			switch (n)
			{
				case 1: case 4: return aligned<4>(v); // Tok itself needs four
				case 16: return aligned<16>(v);
				case 64: return aligned<64>(v);
				case 256: return aligned<256>(v);
				default: return aligned<1024>(v);
			}
		}
		if (op == "largest")
			return boolean(base(in.word()).maxAllocateSize() == plain.maxAllocateSize());
		Slot &x = s[in.num()];
		if (op == "huge")
		{
			const std::string via = in.word();
			const long e = in.num();
			const size_t n = (size_t(1) << e) + size_t(in.num());
			const size_t size = via == "array" || via == "made" ? sizeof(int) : 1;
			size_t need;
			const bool fits = !__builtin_mul_overflow(n, size, &need);
			void *p;
			requests = 0;
			{
				Failing f(true);
				if (via == "made") p = elements.construct(n, 1);
				else if (via == "array") p = x.kind == "none" ? elements.createArray(n) : elements.reallocateArray(x.raw, n);
				else p = x.kind == "none" ? base(via).allocate(n) : base(via).reallocate(x.bytes, n);
			}
			const bool asked = requests && fits && smallest >= need;
			return list({ boolean(p != nullptr), boolean(asked || (!requests && e > 40)) });
		}
		if (op == "new")
		{
			std::string how = in.word();
			int v = int(in.num());
			Tok source(v);
			{
				Failing f(in.num() != 0);
				if (how == "default") x.object = objects.construct();
				else if (how == "copy") x.object = objects.construct(static_cast<const Tok &>(source));
				else if (how == "move") x.object = objects.construct(flame_ide::move(source));
				else x.object = objects.construct(v);
			}
			x.kind = x.object ? "object" : "none";
			return list({ boolean(x.object != nullptr), num(source.value) });
		}
		if (op == "destroy")
		{
			objects.destroy(x.object);
			x.kind = "none";
			return boolean(x.object == nullptr);
		}
		if (op == "newArray")
		{
			x.n = in.num();
			int v = int(in.num());
			{
				Failing f(in.num() != 0);
				x.object = arrays.construct(x.n, v);
			}
			x.kind = x.object ? "array" : "none";
			return boolean(x.object != nullptr);
		}
		if (op == "destroyArray")
		{
			arrays.destroy(x.object, x.n);
			x.kind = "none";
			return boolean(x.object == nullptr);
		}
		if (op == "room")
		{
			long room = in.num();
			{
				Failing f(in.num() != 0);
				x.object = arrays.createArray(room);
			}
			x.n = 0;
			x.kind = x.object ? "array" : "none";
			return boolean(x.object != nullptr);
		}
		if (op == "build")
		{
			new (x.object + x.n) Tok(int(in.num()));
			++x.n;
			return "0";
		}
		std::string via = in.word();
		if (op == "raw")
		{
			std::vector<int> v = in.nums();
			x.n = long(v.size());
			bool fail = in.num() != 0;
			if (via == "array")
			{
				{
					Failing f(fail);
					x.raw = elements.createArray(x.n);
				}
				for (long k = 0; x.raw && k < x.n; ++k)
					x.raw[k] = v[k];
				x.kind = x.raw ? "elements" : "none";
				return boolean(x.raw != nullptr);
			}
			{
				Failing f(fail);
				x.bytes = static_cast<unsigned char *>(base(via).allocate(x.n));
			}
			for (long k = 0; x.bytes && k < x.n; ++k)
				x.bytes[k] = (unsigned char)v[k];
			x.kind = x.bytes ? "bytes" : "none";
			return boolean(x.bytes != nullptr);
		}
		if (op == "again")
		{
			long n = in.num();
			std::vector<int> more = in.nums();
			bool fail = in.num() != 0;
			long kept = n < x.n ? n : x.n;
			void *p;
			{
				Failing f(fail);
				p = via == "array" ? static_cast<void *>(elements.reallocateArray(x.raw, n)) : base(via).reallocate(x.bytes, n);
			}
			if (!p)
				return boolean(false);
			x.n = n;
			if (via == "array")
			{
				x.raw = static_cast<int *>(p);
				for (size_t k = 0; k < more.size(); ++k)
					x.raw[kept + long(k)] = more[k];
			}
			else
			{
				x.bytes = static_cast<unsigned char *>(p);
				for (size_t k = 0; k < more.size(); ++k)
					x.bytes[kept + long(k)] = (unsigned char)more[k];
			}
			return boolean(true);
		}
		if (op == "free")
		{
			if (via == "array") elements.freeArray(x.raw);
			else base(via).deallocate(x.bytes);
			x.kind = "none";
			return "0";
		}
		return str("unknown operation");
	}
	std::string show(const Slot &x)
	{
		std::vector<int> v;
		if (x.kind == "object")
		{
			x.object->check("looked at an object that is not alive");
			v.push_back(x.object->value);
		}
		for (long k = 0; k < x.n; ++k)
			if (x.kind == "array")
			{
				x.object[k].check("looked at an element that is not alive");
				v.push_back(x.object[k].value);
			}
			else if (x.kind == "elements") v.push_back(x.raw[k]);
			else if (x.kind == "bytes") v.push_back(x.bytes[k]);
		return ints(v);
	}
	std::string obs() { return list({ list({ show(s[1]), show(s[2]) }), num(blocks) }); }
	std::string live() { return liveColumn(); }
};

int main()
{
	World w;
	return drive(w);
}
