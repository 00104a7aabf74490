// Answers SoftModule.tla cases with the software module's exported functions.
#include <FlameIDE/Crypto/Oasis/Oasis.hpp>
#include <cstddef>
#include <cstring>
#include <map>
#include "vf.hpp"

using namespace vf;
using Function = void (*)();

struct Entry
{
	Function function;
	size_t at[4];
};
static std::map<std::string, Entry> entries()
{
	std::map<std::string, Entry> m;
#undef CK_NEED_ARG_LIST
#define CK_PKCS11_FUNCTION_INFO(name) \
	m[#name].function = reinterpret_cast<Function>(name), m[#name].at[3] = offsetof(CK_FUNCTION_LIST_3_0, name);
#include <FlameIDE/Crypto/Oasis/pkcs11f.h>
#undef CK_PKCS11_FUNCTION_INFO
#define CK_PKCS11_2_0_ONLY 1
#define CK_PKCS11_FUNCTION_INFO(name) m[#name].at[2] = offsetof(CK_FUNCTION_LIST, name);
#include <FlameIDE/Crypto/Oasis/pkcs11f.h>
#undef CK_PKCS11_FUNCTION_INFO
#undef CK_PKCS11_2_0_ONLY
	return m;
}

struct World
{
	std::map<std::string, Entry> all = entries();

	void reset() {}
	std::string finish() { return ""; }
	const char *listOf(long which)
	{
		if (which == 2)
		{
			CK_FUNCTION_LIST_PTR p = nullptr;
			return C_GetFunctionList(&p) == 0 ? reinterpret_cast<const char *>(p) : nullptr;
		}
		CK_INTERFACE i[1];
		CK_ULONG n = 1;
		return C_GetInterfaceList(i, &n) == 0 ? static_cast<const char *>(i[0].pFunctionList) : nullptr;
	}
	std::string step(In &in)
	{
		const std::string op = in.op();
		if (op == "entry")
		{
			const long which = in.num();
			const std::string name = in.word();
			const char *list = listOf(which);
			auto e = all.find(name);
			if (!list || e == all.end())
				return str("missing");
			Function f;
			memcpy(&f, list + e->second.at[which], sizeof f);
			return boolean(f && f == e->second.function);
		}
		if (op == "version")
		{
			const char *list = listOf(in.num());
			if (!list)
				return str("missing");
			const auto &v = *reinterpret_cast<const CK_VERSION *>(list);
			return ints(std::vector<int>{ v.major, v.minor });
		}
		if (op == "interfaces")
		{
			const bool hasList = in.num() != 0, hasCount = in.num() != 0;
			CK_ULONG n = static_cast<CK_ULONG>(in.num());
			CK_INTERFACE room[8];
			memset(room, 0xA5, sizeof room);
			const CK_RV r = C_GetInterfaceList(hasList ? room : nullptr, hasCount ? &n : nullptr);
			long written = 0;
			for (auto &x : room)
			{
				char blank[sizeof x];
				memset(blank, 0xA5, sizeof blank);
				if (!memcmp(&x, blank, sizeof blank))
					continue;
				const bool good = x.pInterfaceName && x.pFunctionList && x.flags == 0
					&& !strcmp(reinterpret_cast<const char *>(x.pInterfaceName), "PKCS 11");
				written += good ? 1 : 100;
			}
			return ints(std::vector<long>{ static_cast<long>(r), hasCount ? static_cast<long>(n) : 0, written });
		}
		if (op == "functions")
		{
			CK_FUNCTION_LIST_PTR p = nullptr, q = nullptr;
			const bool has = in.num() != 0;
			const CK_RV r = C_GetFunctionList(has ? &p : nullptr);
			if (has && (!p || C_GetFunctionList(&q) != r || p != q))
				return str("no lasting list");
			return num(static_cast<long>(r));
		}
		if (op == "info")
		{
			CK_INFO info;
			memset(&info, 0xA5, sizeof info);
			const bool has = in.num() != 0;
			const CK_RV r = C_GetInfo(has ? &info : nullptr);
			if (has && (info.flags != 0 || info.manufacturerID[0] == 0xA5 || info.libraryDescription[0] == 0xA5))
				return str("nothing filled in");
			return num(static_cast<long>(r));
		}
		if (op == "interface")
		{
			CK_UTF8CHAR name[] = "PKCS 11";
			return num(static_cast<long>(C_GetInterface(in.num() ? name : nullptr, nullptr, nullptr, 0)));
		}
		return "unknown operation";
	}
	std::string obs() { return "0"; }
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
