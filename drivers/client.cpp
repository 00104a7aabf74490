// Replays ClientModule.tla behaviours on wrapper::Pkcs11Library and
// wrapper::Slot.  The dynamic loader is replaced (-Wl,--wrap) by one that knows
// a single library: a module written here, whose functions fail when told to
// and which records every call it gets while it is not initialised.
#include <FlameIDE/Crypto/Pkcs11/Pkcs11.hpp>
#include <cstdint>
#include <cstring>
#include <memory>
#include "vf.hpp"

using namespace vf;
using namespace flame_ide::pkcs11;
using flame_ide::templates::SharedPointer;
using wrapper::Pkcs11Library;
using wrapper::Slot;

namespace module
{
int handle, opened;
long state, strays;   // number of the arguments it was initialised with, 0: none
bool foreign;         // another user initialised it
long slots, later;    // slots now and after the next call
bool loadable;
std::string fail;     // the step that fails
long ifaces;
char reserved, lists[4];
::CK_FUNCTION_LIST functions;

CK_RV create(CK_VOID_PTR_PTR) { return 0; }
CK_RV destroy(CK_VOID_PTR) { return 0; }
CK_RV lock(CK_VOID_PTR) { return 0; }
CK_RV unlock(CK_VOID_PTR) { return 0; }

structs::InitializeArgs plain() { return wrapper::InitializeArgs().getOriginal(); }
structs::InitializeArgs own() { return structs::InitializeArgs(create, destroy, lock, unlock, 1, &reserved); }
bool same(const CK_C_INITIALIZE_ARGS &a, const CK_C_INITIALIZE_ARGS &b)
{
	return a.CreateMutex == b.CreateMutex && a.DestroyMutex == b.DestroyMutex && a.LockMutex == b.LockMutex
		&& a.UnlockMutex == b.UnlockMutex && a.flags == b.flags && a.pReserved == b.pReserved;
}
bool needs()
{
	strays += !state;
	return state;
}
void pad(unsigned char *p, size_t n, const std::string &s)
{
	memset(p, ' ', n);
	memcpy(p, s.data(), s.size());
}

/// the code with which a step fails, 0 when it does not
CK_RV failing(const std::string &step, CK_RV plain)
{
	if (fail == step)
		return plain;
	if (fail.compare(0, step.size(), step) == 0 && isdigit(fail[step.size()]))
		return static_cast<CK_RV>(atol(fail.c_str() + step.size()));
	return 0;
}

CK_RV initialize(CK_VOID_PTR args)
{
	if (CK_RV r = failing("init", 9))
		return r;
	if (state)
		return 401;
	auto &a = *static_cast<CK_C_INITIALIZE_ARGS *>(args);
	state = same(a, plain()) ? 1 : same(a, own()) ? 2 : 9;
	return 0;
}
CK_RV finalize(CK_VOID_PTR p)
{
	if (!needs() || p)
		return 400;
	if (fail == "finalize")
		return 6;
	state = 0;
	foreign = false;
	return 0;
}
CK_RV getInfo(CK_INFO *info)
{
	if (!needs())
		return 400;
	if (CK_RV r = failing("info", 48))
		return r;
	info->cryptokiVersion = { 2, static_cast<unsigned char>(40 + state) };
	pad(info->manufacturerID, sizeof info->manufacturerID, "maker " + num(state));
	info->flags = static_cast<CK_FLAGS>(state) << 32 | 5;
	pad(info->libraryDescription, sizeof info->libraryDescription, "module with a description  " + num(state));
	info->libraryVersion = { static_cast<unsigned char>(state), 7 };
	return 0;
}
// slot k has a number that needs all 64 bits
CK_SLOT_ID wide(long k) { return static_cast<CK_SLOT_ID>(k) << 44 | 7u << 20 | static_cast<CK_SLOT_ID>(k); }
long narrow(CK_SLOT_ID id)
{
	const long k = static_cast<long>(id >> 44);
	return wide(k) == id ? k : -1;
}
CK_RV getSlotList(CK_BBOOL present, CK_SLOT_ID *list, CK_ULONG *count)
{
	if (!needs())
		return 400;
	if (!list && fail == "first")
		return 50;
	if (list && fail == "second")
		return 48;
	CK_ULONG n = 0, room = *count;
	CK_SLOT_ID found[1024];
	for (long k = 1; k <= slots; ++k)
		if (!present || k % 2)
			found[n++] = wide(k);
	slots = later;
	*count = n;
	if (!list)
		return 0;
	if (room < n)
		return 336;
	std::copy(found, found + n, list);
	return 0;
}
CK_RV getSlotInfo(CK_SLOT_ID id, CK_SLOT_INFO *info)
{
	if (!needs())
		return 400;
	if (fail == "slot")
		return 48;
	if (narrow(id) < 1 || narrow(id) > slots)
		return 3;
	pad(info->slotDescription, sizeof info->slotDescription, "slot " + num(static_cast<long>(id)));
	pad(info->manufacturerID, sizeof info->manufacturerID, "maker of " + num(static_cast<long>(id)));
	info->flags = id << 20 | 1;
	info->hardwareVersion = { static_cast<unsigned char>(id), 1 };
	info->firmwareVersion = { 2, static_cast<unsigned char>(id) };
	return 0;
}
CK_RV waitForSlotEvent(CK_FLAGS flags, CK_SLOT_ID *id, CK_VOID_PTR reserved)
{
	if (!needs())
		return 400;
	if (!id || reserved || flags != 1)
		return 7;
	return fail == "slot" ? 8 : 0;
}
CK_RV getFunctionList(CK_FUNCTION_LIST_PTR_PTR list)
{
	if (CK_RV r = failing("fl", 5))
		return r;
	*list = &functions;
	return 0;
}
CK_RV getInterfaceList(CK_INTERFACE *list, CK_ULONG *count)
{
	if (CK_RV r = list ? failing("il", 6) : failing("ilcount", 2))
		return r;
	const CK_ULONG n = static_cast<CK_ULONG>(ifaces == 21 ? list ? 1 : 2 : ifaces), room = *count;
	*count = n;
	if (!list)
		return 0;
	if (room < n)
		return 336;
	for (CK_ULONG k = 0; k < n; ++k)
	{
		static CK_UTF8CHAR names[] = "PKCS 11";
		list[k].pInterfaceName = names;
		list[k].pFunctionList = lists + k + 1;
		list[k].flags = k + 1;
	}
	return 0;
}
void restart()
{
	opened = 0;
	state = strays = 0;
	foreign = false;
	slots = later = 1;
	fail.clear();
	auto words = reinterpret_cast<uintptr_t *>(&functions);
	for (size_t k = 0; k < sizeof functions / sizeof *words; ++k)
		words[k] = 0x1001 * (k + 1);
	functions.C_Initialize = initialize;
	functions.C_Finalize = finalize;
	functions.C_GetInfo = getInfo;
	functions.C_GetFunctionList = getFunctionList;
	functions.C_GetSlotList = getSlotList;
	functions.C_GetSlotInfo = getSlotInfo;
	functions.C_WaitForSlotEvent = waitForSlotEvent;
}
} // namespace module

extern "C"
{
void *__wrap_dlopen(const char *, int)
{
	if (!module::loadable)
		return nullptr;
	++module::opened;
	return &module::handle;
}
void *__wrap_dlsym(void *h, const char *name)
{
	if (h != &module::handle || module::opened < 1)
	{
		++module::strays;
		return nullptr;
	}
	if (!strcmp(name, "C_GetFunctionList") && module::fail != "nofl")
		return reinterpret_cast<void *>(module::getFunctionList);
	if (!strcmp(name, "C_GetInterfaceList") && module::ifaces >= 0)
		return reinterpret_cast<void *>(module::getInterfaceList);
	return nullptr;
}
int __wrap_dlclose(void *h)
{
	if (h != &module::handle || module::opened < 1 || (module::state && !module::foreign))
		++module::strays;
	else
		--module::opened;
	return 0;
}
}

static long code(enums::ReturnType r) { return static_cast<long>(enums::value(r)); }

struct World
{
	std::unique_ptr<SharedPointer<Pkcs11Library>> lib;
	std::unique_ptr<SharedPointer<Slot>> slot;

	void reset() { module::restart(); }
	std::string finish()
	{
		module::fail.clear();
		slot.reset();
		lib.reset();
		return module::strays ? "calls of a module that is not initialised" : module::state && !module::foreign ? "module left initialised"
			: module::opened ? "library left open" : "";
	}
	const SharedPointer<Pkcs11Library> &l() { return lib ? *lib : (*slot)->getLibrary(); }
	Pkcs11Library &library() { return const_cast<Pkcs11Library &>(*l()); }
	template<typename E, typename F>
	static std::string answer(E &&e, F &&f)
	{
		std::string r = "none";
		e.ifResult([&](auto v) { r = f(v); }).ifError([&](auto c) { r = num(code(c)); });
		return r;
	}
	template<typename E, typename F>
	static std::string answers(E &&e, F &&f)
	{
		std::vector<long> r;
		e.ifResult([&](const auto &v)
		{
			r = { 0 };
			f(v, r);
		}).ifError([&](auto c) { r = { code(c) }; });
		return ints(r);
	}
	void prepare(In &in)
	{
		module::fail = in.word();
		module::ifaces = in.num();
	}
	std::string step(In &in)
	{
		const std::string op = in.op();
		module::fail.clear();
		module::later = module::slots;
		if (op == "create")
		{
			module::loadable = in.num() != 0;
			lib.reset(new SharedPointer<Pkcs11Library>(Pkcs11Library::create("module")));
			return boolean(static_cast<bool>(library()));
		}
		if (op == "createWith")
		{
			module::loadable = in.num() != 0;
			const long a = in.num();
			prepare(in);
			lib.reset(new SharedPointer<Pkcs11Library>(Pkcs11Library::create("module", nullptr, a == 1 ? module::plain()
				: module::own())));
			return boolean(static_cast<bool>(library()));
		}
		if (op == "initialize")
		{
			const long a = in.num();
			prepare(in);
			const long r = a == 1 ? code(library().initialize(wrapper::InitializeArgs()))
				: code(library().initialize(wrapper::InitializeArgs(module::own())));
			const bool some = module::fail == "nofl" || !library();
			return num(some && r != 0 && r != 401 ? -1 : r);
		}
		if (op == "finalize")
		{
			module::fail = in.num() ? "finalize" : "";
			return num(code(library().finalize()));
		}
		if (op == "foreignInit")
			return module::state = 3, module::foreign = true, "0";
		if (op == "foreignEnd")
			return module::state = 0, module::foreign = false, "0";
		if (op == "drop")
			return lib.reset(), "0";
		if (op == "slotNew")
		{
			slot.reset(new SharedPointer<Slot>(Slot::create(*lib, module::wide(in.num()))));
			return num(module::narrow((*slot)->getSlotId()));
		}
		if (op == "slotDrop")
			return slot.reset(), "0";
		if (op == "info")
			return answer(library().getInfo(), [](const structs::Info &i)
			{
				CK_INFO w;
				module::getInfo(&w);
				const bool ok = !memcmp(i.manufacturerID, w.manufacturerID, sizeof w.manufacturerID)
					&& !memcmp(i.libraryDescription, w.libraryDescription, sizeof w.libraryDescription)
					&& i.flags == w.flags && i.cryptokiVersion.minor == w.cryptokiVersion.minor
					&& i.cryptokiVersion.major == 2 && i.libraryVersion.major == w.libraryVersion.major
					&& i.libraryVersion.minor == 7;
				return ok ? num(module::state) : str("differs");
			});
		if (op == "functions")
			return answer(library().getFunctionList(), [](wrapper::FunctionList f)
			{
				const CK_FUNCTION_LIST &got = *f.operator->();
				const auto skip = offsetof(CK_FUNCTION_LIST, C_Initialize);
				const bool ok = !memcmp(reinterpret_cast<const char *>(&got) + skip,
					reinterpret_cast<const char *>(&module::functions) + skip, sizeof got - skip)
					&& got.version.major == module::functions.version.major
					&& got.version.minor == module::functions.version.minor;
				return ok ? num(0) : str("differs");
			});
		if (op == "interfaces")
			return answers(library().getInterfaceList(), [](const structs::InterfaceList *l, std::vector<long> &r)
			{
				for (auto &i : *l)
					r.push_back(i.pFunctionList == module::lists + i.flags ? static_cast<long>(i.flags) : -1);
			});
		if (op == "interface")
		{
			const std::string r = answer(library().getInterface(), [](const structs::Interface *i)
			{
				return num(1000 + static_cast<long>(i->flags));
			});
			return module::state && !module::foreign && r != "0" && r != "none" && r.size() < 4 ? "-1" : r;
		}
		if (op == "slotInfo")
		{
			module::fail = in.num() ? "slot" : "";
			const auto id = (*slot)->getSlotId();
			return answer((*slot)->getSlotInfo(), [&](const structs::SlotInfo &i)
			{
				CK_SLOT_INFO w;
				module::fail.clear();
				module::getSlotInfo(id, &w);
				const bool ok = !memcmp(i.slotDescription, w.slotDescription, sizeof w.slotDescription)
					&& !memcmp(i.manufacturerID, w.manufacturerID, sizeof w.manufacturerID) && i.flags == w.flags
					&& i.hardwareVersion.major == w.hardwareVersion.major
					&& i.hardwareVersion.minor == w.hardwareVersion.minor
					&& i.firmwareVersion.major == w.firmwareVersion.major
					&& i.firmwareVersion.minor == w.firmwareVersion.minor;
				return ok ? num(1000 + module::narrow(id)) : str("differs");
			});
		}
		if (op == "slotWait")
		{
			module::fail = in.num() ? "slot" : "";
			return num(code((*slot)->waitForSlotEvent(enums::WaitForSlotEventFlags::DONT_BLOCK)));
		}
		const auto yes = enums::Bool::OASIS_TRUE, no = enums::Bool::OASIS_FALSE;
		if (op == "slotCount")
		{
			const bool present = in.num() != 0;
			module::fail = in.num() ? "first" : "";
			return answers(library().getSlotIdCount(present ? yes : no), [](CK_ULONG n, std::vector<long> &r)
			{
				r.push_back(static_cast<long>(n));
			});
		}
		if (op == "slotList")
		{
			const bool present = in.num() != 0;
			module::fail = in.word();
			module::later = in.num();
			return answers(library().getSlotIdList(present ? yes : no), [](const structs::SlotIdList &l, std::vector<long> &r)
			{
				for (auto id : l)
					r.push_back(module::narrow(id));
			});
		}
		if (op == "setSlots")
			return module::slots = in.num(), "0";
		return "unknown operation";
	}
	std::string obs()
	{
		return std::string("{\"alive\":") + boolean(lib || slot) + ",\"mod\":" + num(module::state) + ",\"open\":"
			+ num(module::opened) + ",\"stray\":" + num(module::strays) + "}";
	}
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
