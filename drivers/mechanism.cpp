// Replays Mechanism.tla behaviours on mechanisms of the software module and
// on the variant of all parameters they may be given.
#include <src/Crypto/SoftPkcs11/Mechanisms/Base/Mechanism.hpp>
#include <cstring>
#include <memory>
#include <new>
#include "vf.hpp"

using namespace vf;
using flame_ide::soft_pkcs11::mechanisms::Decryptor;
using flame_ide::soft_pkcs11::mechanisms::Encryptor;
using flame_ide::soft_pkcs11::mechanisms::Mechanism;
using flame_ide::soft_pkcs11::mechanisms::Signer;
using flame_ide::soft_pkcs11::mechanisms::Verifier;
namespace en = flame_ide::pkcs11::enums;
namespace st = flame_ide::pkcs11::structs;
using Parameter = Mechanism::Parameter;

// all bytes of all fields; padding is zero
template<typename P> P pattern(long v)
{
	P p;
	auto b = reinterpret_cast<unsigned char *>(&p);
	for (size_t k = 0; k < sizeof p; ++k)
		b[k] = static_cast<unsigned char>((k * 7 + k / 8 * 3 + 1) % 120 * 2 + v % 2);
	__builtin_clear_padding(&p);
	return p;
}

struct Kind
{
	virtual ~Kind() {}
	virtual void make(Parameter *at, const std::string &how, long v) = 0;
	virtual bool found(const Parameter &p) = 0;
	virtual long value(const Parameter &p) = 0;
};
template<typename S>
struct KindOf : Kind
{
	using P = typename S::Parent;
	void make(Parameter *at, const std::string &how, long v) override
	{
		const P fields = pattern<P>(v);
		const S s(fields);
		S t(fields);
		if (how == "assign") *at = Parameter(s);
		if (how == "set") at->set(s);
		if (how == "setMoved") at->set(flame_ide::move(t));
		if (how != "new" && how != "newMoved")
			return;
		at->~Parameter();
		memset(static_cast<void *>(at), 0x5B, sizeof *at);
		if (how == "new") new (at) Parameter(s);
		if (how == "newMoved") new (at) Parameter(flame_ide::move(t));
	}
	bool found(const Parameter &p) override { return p.template get<S>() != nullptr; }
	long value(const Parameter &p) override
	{
		P got;
		memcpy(&got, static_cast<const P *>(p.template get<S>()), sizeof got);
		__builtin_clear_padding(&got);
		S out{ P() };
		P copied;
		if (!p.get(out))
			return -8;
		memcpy(&copied, static_cast<const P *>(&out), sizeof copied);
		__builtin_clear_padding(&copied);
		for (long v = 1; v <= 2; ++v)
		{
			const P q = pattern<P>(v);
			if (!memcmp(&got, &q, sizeof q) && !memcmp(&copied, &q, sizeof q))
				return v;
		}
		return -9;
	}
};
template<typename V>
struct KindsOf;
template<typename... S>
struct KindsOf<flame_ide::templates::Variant<S...>>
{
	static std::vector<std::unique_ptr<Kind>> all()
	{
		std::vector<std::unique_ptr<Kind>> r;
		std::unique_ptr<Kind> k[] = { std::unique_ptr<Kind>(new KindOf<S>())... };
		for (auto &x : k)
			r.push_back(std::move(x));
		return r;
	}
};
static std::vector<std::unique_ptr<Kind>> kinds = KindsOf<Parameter>::all();

static std::vector<long> shown(const Parameter &p)
{
	const long at = static_cast<long>(p.getCurrentIndex());
	if (!p.isSet())
		return { -1, 0 };
	if (at < 0 || at >= static_cast<long>(kinds.size()) || !p)
		return { -7, at };
	for (size_t k = 0; k < kinds.size(); ++k)
		if (kinds[k]->found(p) != (static_cast<long>(k) == at))
			return { -6, static_cast<long>(k) };
	return { at, kinds[static_cast<size_t>(at)]->value(p) };
}

// mechanisms with callbacks: every answer tells the family of the callbacks,
// the question and the mechanism that was passed
struct Own;
static std::vector<long> processed;
template<long FAMILY>
struct Answers
{
	static long number(const Mechanism *m, long question);
	static en::Mechanism type(const Mechanism *m) { return en::toMechanism(static_cast<CK_MECHANISM_TYPE>(number(m, 1))); }
	static st::MechanismInfo info(const Mechanism *m)
	{
		const CK_ULONG n = static_cast<CK_ULONG>(number(m, 2));
		return st::MechanismInfo(n, n << 33, n);
	}
	template<typename Expected, typename T, long QUESTION>
	static Expected part(Mechanism *m)
	{
		// never followed, only carries the number
		if (number(m, QUESTION) % 2)
			return Expected(reinterpret_cast<T *>(number(m, QUESTION) * 16));
		return Expected(en::toReturnType(static_cast<CK_RV>(number(m, QUESTION))));
	}
	static en::ReturnType process(Mechanism *m, const Parameter &p)
	{
		processed = shown(p);
		return en::toReturnType(static_cast<CK_RV>(number(m, 0)));
	}
};
struct Own : Mechanism
{
	long id;
	template<long FAMILY>
	Own(long n, Answers<FAMILY>)
			: Mechanism(Answers<FAMILY>::type, Answers<FAMILY>::info
				, Answers<FAMILY>::template part<ExpectedEncryptor, Encryptor, 3>
				, Answers<FAMILY>::template part<ExpectedDecryptor, Decryptor, 4>
				, Answers<FAMILY>::template part<ExpectedSigner, Signer, 5>
				, Answers<FAMILY>::template part<ExpectedVerifier, Verifier, 6>
				, Answers<FAMILY>::process), id(n)
	{}
};
static Own *own[4];
template<long FAMILY>
long Answers<FAMILY>::number(const Mechanism *m, long question)
{
	for (long k = 1; k <= 3; ++k)
		if (own[k] == m)
			return 1000 * FAMILY + 10 * question + own[k]->id;
	return 999; // another object was passed
}
template<typename E>
static std::string answer(E &&e)
{
	std::string r = "none";
	e.ifResult([&](auto p) { r = num(reinterpret_cast<long>(p) / 16); })
		.ifError([&](auto c) { r = num(static_cast<long>(en::value(c))); });
	return r;
}

struct World
{
	Mechanism plain;
	std::unique_ptr<Own> made[4];
	alignas(Parameter) unsigned char room[9][sizeof(Parameter)];
	Parameter &at(long i) { return *reinterpret_cast<Parameter *>(room[i]); }

	void reset()
	{
		made[1].reset(new Own(1, Answers<1>()));
		made[2].reset(new Own(2, Answers<1>()));
		made[3].reset(new Own(3, Answers<2>()));
		for (int k = 1; k <= 3; ++k)
			own[k] = made[k].get();
		for (long i = 1; i <= PLACES; ++i)
		{
			memset(room[i], 0x5B, sizeof room[i]);
			new (room[i]) Parameter();
		}
	}
	std::string finish()
	{
		for (long i = 1; i <= PLACES; ++i)
			at(i).~Parameter();
		return "";
	}
	void afresh(long i)
	{
		at(i).~Parameter();
		memset(room[i], 0x5B, sizeof room[i]);
	}
	Mechanism &mechanism(long m) { return m ? static_cast<Mechanism &>(*made[m]) : plain; }
	std::string step(In &in)
	{
		const std::string op = in.op();
		const long i = in.num();
		if (op == "ask")
		{
			const std::string q = in.word();
			Mechanism &m = mechanism(i);
			if (q == "type")
			{
				const auto n = en::value(static_cast<const Mechanism &>(m).getType());
				return num(!i && n == CKM_VENDOR_DEFINED ? 0 : !i ? -1 : static_cast<long>(n));
			}
			if (q == "info")
			{
				const st::MechanismInfo n = static_cast<const Mechanism &>(m).getInfo();
				return num(n.ulMaxKeySize == n.ulMinKeySize << 33 && n.flags == n.ulMinKeySize ? static_cast<long>(n.flags) : -1);
			}
			return q == "encryptor" ? answer(m.getEncryptor()) : q == "decryptor" ? answer(m.getDecryptor())
				: q == "signer" ? answer(m.getSigner()) : answer(m.getVerifier());
		}
		if (op == "process")
		{
			processed.clear();
			const long r = static_cast<long>(en::value(mechanism(i).processParameter(at(in.num()))));
			processed.insert(processed.begin(), r);
			return ints(processed);
		}
		if (op == "reset")
			return at(i).reset(), "0";
		const long j = in.num();
		if (op == "copyTo")
			at(i) = static_cast<const Parameter &>(at(j));
		else if (op == "moveTo")
			at(i) = flame_ide::move(at(j));
		else if (op == "copyNew" || op == "moveNew")
		{
			afresh(i);
			if (op == "copyNew")
				new (room[i]) Parameter(static_cast<const Parameter &>(at(j)));
			else
				new (room[i]) Parameter(flame_ide::move(at(j)));
		}
		else
			kinds[static_cast<size_t>(j)]->make(&at(i), op, in.num());
		if (op == "moveTo" || op == "moveNew")
		{
			afresh(j);
			new (room[j]) Parameter();
		}
		return "0";
	}
	std::string obs()
	{
		std::vector<std::string> r;
		for (long i = 1; i <= PLACES; ++i)
			r.push_back(ints(shown(at(i))));
		return list(r);
	}
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
