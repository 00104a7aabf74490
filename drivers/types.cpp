// Answers Types.tla cases with the library's compile-time functions.
// types.inc is written by the check: one entry per case of the specification.
#include <FlameIDE/Common/Traits.hpp>
#include <FlameIDE/Common/Utils.hpp>
#include <map>
#include <type_traits>
#include <utility>
#include "vf.hpp"

using namespace vf;
namespace fi = flame_ide;

struct A {};
struct B {};
struct C {};
struct Derived : A {};
using Numbers = fi::Types;

/// Spelling of a type, with dots for blanks
template<typename T>
struct Base { static std::string name() { return "other"; } };
#define BASE(T) template<> struct Base<T> { static std::string name() { return #T; } }
BASE(int);
BASE(A);
BASE(B);
BASE(C);
#undef BASE
template<typename T>
struct Name
{
	using Bare = typename std::remove_cv<T>::type;
	static std::string get()
	{
		return Base<Bare>::name() + (std::is_const<T>::value ? ".const" : "") + (std::is_volatile<T>::value ? ".volatile" : "");
	}
};
template<typename T>
struct PointerName
{
	static std::string get(const char *qualifiers) { return Name<T>::get() + "*" + qualifiers; }
};
template<typename T> struct Name<T *> { static std::string get() { return PointerName<T>::get(""); } };
template<typename T> struct Name<T *const> { static std::string get() { return PointerName<T>::get(".const"); } };
template<typename T> struct Name<T *volatile> { static std::string get() { return PointerName<T>::get(".volatile"); } };
template<typename T> struct Name<T *const volatile> { static std::string get() { return PointerName<T>::get(".const.volatile"); } };
template<typename T> struct Name<T &> { static std::string get() { return Name<T>::get() + "&"; } };
template<typename T> struct Name<T &&> { static std::string get() { return Name<T>::get() + "&&"; } };

template<typename ...>
struct Void { using Type = void; };
template<typename ...Ts>
using VoidOf = typename Void<Ts...>::Type;

// functions from types to types; "none" when there is no such type
template<template<typename> class Op, typename T, typename = void>
struct TypeAnswer { static std::string get() { return str("none"); } };
template<template<typename> class Op, typename T>
struct TypeAnswer<Op, T, VoidOf<Op<T>>> { static std::string get() { return str(Name<Op<T>>::get()); } };

#define BOTH(N) template<typename T> using N = typename fi::N##Trait<T>::Type; template<typename T> using N##Short = fi::N##Type<T>;
BOTH(RemovePointer)
BOTH(RemoveReference)
BOTH(RemoveConst)
BOTH(RemoveVolatile)
BOTH(RemoveAll)
BOTH(AddReference)
BOTH(AddMoveReference)
BOTH(AddConst)
BOTH(AddVolatile)
BOTH(AddPointer)
#undef BOTH
template<template<typename> class Op, template<typename> class Short, typename T>
struct BothAnswer
{
	static std::string get()
	{
		const std::string r = TypeAnswer<Op, T>::get();
		return r == TypeAnswer<Short, T>::get() ? r : str("different answers to one question");
	}
};
template<typename T> using Type = typename fi::DefaultTraits<T>::Type;
template<typename T> using Reference = typename fi::DefaultTraits<T>::Reference;
template<typename T> using MoveReference = typename fi::DefaultTraits<T>::MoveReference;
template<typename T> using ConstReference = typename fi::DefaultTraits<T>::ConstReference;
template<typename T> using Pointer = typename fi::DefaultTraits<T>::Pointer;
template<typename T> using PointerToConst = typename fi::DefaultTraits<T>::PointerToConst;
template<typename T> using ConstPointer = typename fi::DefaultTraits<T>::ConstPointer;
template<typename T> using Moved = decltype(fi::move(std::declval<T>()));
template<typename T> using Forwarded = decltype(fi::forward<T>(std::declval<typename std::remove_reference<T>::type &>()));
template<typename T> using Declared = decltype(fi::declareValue<T>());

// functions from types to truth
template<template<typename> class Op, typename T>
struct BoolAnswer { static std::string get() { return boolean(Op<T>::VALUE); } };
template<typename T>
struct ConstFunction { static constexpr bool VALUE = fi::isConst<T>(); };

// numbers
template<typename T>
static std::string numberName()
{
#define NAMED(X) if (std::is_same<T, Numbers::X>::value) return str(#X);
	NAMED(ichar_t) NAMED(short_t) NAMED(int_t) NAMED(long_t)
	NAMED(uichar_t) NAMED(ushort_t) NAMED(uint_t) NAMED(ulong_t)
#undef NAMED
	return str("other");
}
template<typename T>
static std::string bytes(T x)
{
	std::vector<int> r;
	for (size_t k = sizeof(T); k-- > 0;)
		r.push_back(int((static_cast<unsigned long>(x) >> (8 * k)) & 0xFF));
	return ints(r);
}
template<typename T>
struct NumberAnswer
{
	static std::string get()
	{
		using Limit = fi::NumberLimitTrait<T>;
		const bool same = Limit::MIN_VALUE == fi::NumberLimitValueMin<T> && Limit::MAX_VALUE == fi::NumberLimitValueMax<T>
				&& fi::NumberLimitTrait<volatile T>::MIN_VALUE == Limit::MIN_VALUE
				&& fi::NumberLimitTrait<volatile T>::MAX_VALUE == Limit::MAX_VALUE
				&& fi::IsSignedValue<T> == fi::IsSignedTrait<T>::VALUE && fi::IsUnsignedValue<T> == fi::IsUnsignedTrait<T>::VALUE
				&& std::is_same<fi::MakeSignedType<T>, typename fi::MakeSignedTrait<T>::Type>::value
				&& std::is_same<fi::MakeUnsignedType<T>, typename fi::MakeUnsignedTrait<T>::Type>::value;
		if (!same)
			return str("different answers to one question");
		return list({ num(long(sizeof(T))), boolean(fi::IsSignedTrait<T>::VALUE), boolean(fi::IsUnsignedTrait<T>::VALUE),
				numberName<typename fi::MakeSignedTrait<T>::Type>(), numberName<typename fi::MakeUnsignedTrait<T>::Type>(),
				bytes<T>(Limit::MIN_VALUE), bytes<T>(Limit::MAX_VALUE) });
	}
};
template<typename Number, typename T>
struct KindAnswer
{
	static std::string get()
	{
		const bool same = fi::IsPrimitiveTrait<Number>::VALUE == fi::isPrimitiveType<T>()
				&& fi::IsFloatTrait<Number>::VALUE == fi::isFloatType<T>()
				&& fi::IsIntegralTrait<Number>::VALUE == fi::isIntegralType<T>()
				&& fi::IsPrimitiveValue<Number> == fi::isPrimitiveType<T>()
				&& fi::IsFloatValue<Number> == fi::isFloatType<T>()
				&& fi::IsIntegralValue<Number> == fi::isIntegralType<T>();
		if (!same)
			return str("different answers to one question");
		return list({ boolean(fi::isPrimitiveType<T>()), boolean(fi::isFloatType<T>()), boolean(fi::isIntegralType<T>()) });
	}
};
template<typename T>
struct SignAnswer
{
	static std::string get() { return list({ boolean(fi::isSigned<T>()), boolean(fi::isUnsigned<T>()) }); }
};

// lists
template<typename ...Ts>
struct IndexAnswer { static std::string get() { return num(long(fi::GetIndexOfType<Ts...>::INDEX)); } };
template<typename ...Ts>
struct AmongAnswer { static std::string get() { return boolean(fi::ComparingTypeWithPack<Ts...>::VALUE); } };
template<size_t INDEX, typename ...Ts>
struct AtAnswer { static std::string get() { return str(Name<typename fi::GetTypeByIndex<INDEX, Ts...>::Type>::get()); } };
template<typename ...Ts>
struct UniqueAnswer { static std::string get() { return boolean(fi::IsUniqueParameterPack<Ts...>::VALUE); } };
template<size_t SIZE, size_t FROM>
struct CopyAnswer
{
	static std::string get()
	{
		int to[SIZE], from[SIZE];
		for (size_t k = 0; k < SIZE; ++k)
		{
			to[k] = 0;
			from[k] = int(k) + 1;
		}
		fi::DoSomeByIndex<int, FROM, SIZE>::copy(to, from);
		return ints(std::vector<int>(to, to + SIZE));
	}
};

// the others
template<bool WHICH>
struct ChooseAnswer { static std::string get() { return str(Name<typename fi::ChooseType<WHICH, A, B>::Type>::get()); } };
template<typename E, typename = void>
struct HasType { static constexpr bool VALUE = false; };
template<typename E>
struct HasType<E, VoidOf<typename E::Type>> { static constexpr bool VALUE = std::is_same<typename E::Type, A>::value; };
template<bool WHICH>
struct EnableAnswer
{
	using E = fi::EnableType<WHICH, A>;
	static std::string get() { return list({ boolean(E::VALUE), boolean(HasType<E>::VALUE) }); }
};
template<typename T, typename U>
struct SameAnswer
{
	static std::string get()
	{
		const bool r = fi::ComparingTypes<T, U>::VALUE;
		return r == fi::isSameTypes<T, U>() && r == fi::CompareTypesResult<T, U> ? boolean(r) : str("different answers to one question");
	}
};
template<typename F>
struct ResultAnswer { static std::string get() { return str(Name<fi::FunctionReturnType<F>>::get()); } };
template<typename F, typename T>
struct CastAnswer { static std::string get() { return boolean(fi::IsStaticCastable<F, T>::VALUE); } };

struct Entry
{
	const char *question;
	std::string (*answer)();
};
static const Entry entries[] = {
#include "types.inc"
};

struct World
{
	std::map<std::string, std::string (*)()> all;
	World()
	{
		for (const Entry &e : entries)
			all[e.question] = e.answer;
	}
	void reset() {}
	std::string finish() { return ""; }
	std::string step(In &in)
	{
		std::string question;
		for (const std::string &w : in.w)
			question += (question.empty() ? "" : " ") + w;
		auto it = all.find(question);
		return it == all.end() ? str("unknown question") : it->second();
	}
	std::string obs() { return "0"; }
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
