// Replays Vector.tla behaviours on templates::Vector.
#include <FlameIDE/Templates/Vector.hpp>
#include "seq.hpp"

using namespace vf;

#ifdef MOVING
// an allocator that never grows a block where it is, so that elements are moved one by one
using TokTraits = flame_ide::ContainerTraits<Tok>;
struct Moving: flame_ide::templates::allocator::MallocAllocator<TokTraits>
{
	VoidPointer vReallocate(VoidPointer, TokTraits::SizeType) noexcept override { return nullptr; }
};
using Vec = flame_ide::templates::Vector<Tok, TokTraits, flame_ide::templates::allocator::ArrayAllocator<Tok, TokTraits, Moving>>;
#else
using Vec = flame_ide::templates::Vector<Tok>;
#endif

struct World: SeqWorld<Vec, RandomAt<Vec>>
{
	bool extra(const std::string &op, int i, int j, In &in, std::string &) override
	{
		Vec &x = *v[i];
		if (op == "resize") x.resize(Vec::SizeType(in.num()));
		else if (op == "reserve") x.reserve(Vec::SizeType(in.num()));
		else if (op == "clone") renew(i, new Vec(v[j]->clone()));
		else if (op == "newSize") renew(i, new Vec(Vec::SizeType(in.num())));
		else if (op == "newList")
		{
			std::vector<int> n = in.nums();
			if (n.size() == 2) renew(i, new Vec{ { Tok(n[0]), Tok(n[1]) } });
			else renew(i, new Vec{ { Tok(n[0]), Tok(n[1]), Tok(n[2]) } });
		}
		else return false;
		return true;
	}
	std::string inconsistent(Vec &x, const std::vector<int> &a) override
	{
		if (x.capacity() < x.size())
			return "capacity below size";
		std::string e = indexWalk(x, a);
		if (e.empty())
			e = reverseWalk(x, a);
		if (e.empty())
			e = reverseWalk(static_cast<const Vec &>(x), a);
		return e;
	}
};

int main()
{
	World w;
	return drive(w);
}
