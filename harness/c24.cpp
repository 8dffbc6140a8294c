// C24: the type queries for every list of types up to a length and every pair of types of a universe,
// against what the language accepts (own requires-expressions) and positions computed at run time.
#include "mc.hpp"
#include <string>
#include <type_traits>
#include "metaprogramming.hpp"
using mc::Ctx; using std::declval;
#ifndef PART
#define PART 0
#endif
template<class T> struct Box { }; template<class T> static std::type_info const* name_of() { return &typeid(Box<T>); }
// ---- type lists: list number n of length L over an alphabet of K types, digits give the types
struct S { }; struct S2 : S { };
#ifdef LONGER
template<int K> struct Letter; template<> struct Letter<0> { typedef int T; }; template<> struct Letter<1> { typedef S T; }; template<> struct Letter<2> { typedef S& T; }; enum { LETTERS = 3, LONGEST = 7 };
#else
template<int K> struct Letter; template<> struct Letter<0> { typedef int T; }; template<> struct Letter<1> { typedef const int T; }; template<> struct Letter<2> { typedef S T; }; template<> struct Letter<3> { typedef S2 T; }; enum { LETTERS = 4, LONGEST = 5 };
#endif
static constexpr int power(int k, int n) { int r = 1; for (int i = 0; i != n; ++i) r *= k; return r; }
static constexpr int digit(int n, int i) { for (int k = 0; k != i; ++k) n /= LETTERS; return n % LETTERS; }
struct ListAnswers { bool same, same2, one[LETTERS], one2[LETTERS]; int index[LETTERS]; std::type_info const *first, *second, *first2, *second2; };
template<class T, class... TS> static int index_of() { if constexpr ((std::is_same<T, TS>::value || ...)) return (int)Helper::IndexOf<T, TS...>::N; else return -1; }
template<class... TS> static ListAnswers ask() { ListAnswers a{}; a.same = Helper::AreAllSame<TS...>::value; a.same2 = Helper::AllSame<TS...>; 
    [&]<int... K>(std::integer_sequence<int, K...>) { ((a.one[K] = Helper::IsOneOf<typename Letter<K>::T, TS...>::value, a.one2[K] = Helper::OneOf<typename Letter<K>::T, TS...>, a.index[K] = index_of<typename Letter<K>::T, TS...>()), ...); }(std::make_integer_sequence<int, LETTERS>());
    if constexpr (sizeof...(TS) >= 1) { a.first = name_of<Helper::FirstType<TS...>>(); a.first2 = name_of<typename Helper::First<TS...>::Type>(); } if constexpr (sizeof...(TS) >= 2) { a.second = name_of<Helper::SecondType<TS...>>(); a.second2 = name_of<typename Helper::Second<TS...>::Type>(); } return a; }
template<int L, int N, int... I> static ListAnswers ask_list(std::integer_sequence<int, I...>) { return ask<typename Letter<digit(N, I)>::T...>(); }
template<int L, int N> static ListAnswers ask_number() { return ask_list<L, N>(std::make_integer_sequence<int, L>()); }
template<int L, int... N> static ListAnswers const* lists(std::integer_sequence<int, N...>) { static const ListAnswers table[] = {ask_number<L, N>()...}; return table; }
template<int L> static ListAnswers const* lists() { return lists<L>(std::make_integer_sequence<int, power(LETTERS, L)>()); }
template<int... K> static std::type_info const* letter_names(int k, std::integer_sequence<int, K...>) { std::type_info const* t[] = {name_of<typename Letter<K>::T>()...}; return t[k]; }
static std::type_info const* letter(int k) { return letter_names(k, std::make_integer_sequence<int, LETTERS>()); }
#if PART == 0
MC_SCENARIO(type_lists) { int L = c.choose(LONGEST + 1, "length"), d[LONGEST], n = 0; std::string text; for (int i = 0; i != L; ++i) { d[i] = c.choose(LETTERS, "type"); text += " " + std::to_string(d[i]); } for (int i = L; i--;) n = n * LETTERS + d[i];
    ListAnswers const* t = nullptr; switch (L) { case 0: t = lists<0>(); break; case 1: t = lists<1>(); break; case 2: t = lists<2>(); break; case 3: t = lists<3>(); break; case 4: t = lists<4>(); break; case 5: t = lists<5>(); break;
#ifdef LONGER
        case 6: t = lists<6>(); break; case 7: t = lists<7>(); break;
#endif
    }
    ListAnswers const& a = t[n]; c.op("list%s", text.c_str()); bool same = true; for (int i = 1; i < L; ++i) same = same && d[i] == d[0];
    MC_CHECK(c, a.same == same && a.same2 == same, "AreAllSame of the list" << text << " is " << a.same << " and " << a.same2);
    for (int k = 0; k != LETTERS; ++k) { int pos = -1; for (int i = L; i--;) if (d[i] == k) pos = i; MC_CHECK(c, a.one[k] == (pos >= 0) && a.one2[k] == (pos >= 0), "IsOneOf of " << k << " in the list" << text << " is " << a.one[k] << " and " << a.one2[k]); MC_CHECK(c, a.index[k] == pos, "IndexOf of " << k << " in the list" << text << " is " << a.index[k] << ", expected " << pos); }
    if (L >= 1) MC_CHECK(c, *a.first == *letter(d[0]) && *a.first2 == *letter(d[0]), "First of the list" << text << " is " << a.first->name()); if (L >= 2) MC_CHECK(c, *a.second == *letter(d[1]) && *a.second2 == *letter(d[1]), "Second of the list" << text << " is " << a.second->name()); c.state(mc::mix((mc::u64)L, (mc::u64)n)); c.outcome(same); }
#else
// ---- a universe of types
enum Plain { PLAIN }; enum class Scoped { SCOPED };
struct Source { int v; Source(); }; struct Implicit { Implicit(Source const&); Implicit(int); }; struct Explicit { explicit Explicit(Source const&); explicit Explicit(int); }; struct ToInt { operator int() const; }; struct ToBool { explicit operator bool() const; }; struct ToSource { operator Source() const; explicit operator Implicit() const; };
struct Derived : Source { Derived(); }; struct PrivatelyDerived : private Source { PrivatelyDerived(); }; struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); }; struct Pinned { Pinned(); Pinned(Pinned const&) = delete; Pinned& operator=(Pinned const&) = delete; }; struct NoDefault { NoDefault(int, int); }; struct Fixed { const int v; Fixed(); Fixed(Fixed const&); Fixed& operator=(Fixed const&) = delete; Fixed& operator=(int); }; struct Anything { template<class T> Anything(T const&); }; struct OnlyLvalue { OnlyLvalue(); OnlyLvalue(OnlyLvalue&); OnlyLvalue& operator=(OnlyLvalue&); };
class Hidden { Hidden(); Hidden(int); public: Hidden(Hidden const&); };
// classes with operators
struct Num { }; struct Res { }; struct Vec { }; Num operator+(Num, Num); Num operator-(Num, Num); Res operator*(Num, Num); Num& operator/(Num const&, Num const&); Num operator+(Res, Res); bool operator==(Num, Num); Res operator<(Num, Num); Res operator==(Num, Vec); Vec operator*(Num, Vec); Vec operator*(Vec, Num); Num operator*(Vec const&, Vec const&); Vec operator+(Vec&, Vec const&); Vec const operator-(Vec const&, Vec const&); Vec operator/(Vec, Num); Num const operator-(Num); Res operator!(Num); Res operator&&(Num, Num); Vec operator||(Num, Vec); Num& operator+=(Num&, Num); Num& operator+=(Num&, int); void operator-=(Num&, Num); Num operator*=(Num&, Num) ; Num const& operator/=(Num&, Vec); bool operator!=(Num, Vec); Res mag(Num); Num& mag(Vec const&);
struct Member { Member operator+(Member const&) const; Member operator-(Member const&); bool operator==(Member const&) const = default; Member& operator+=(Member const&); Member& operator*=(double); private: Member operator*(Member const&) const; Member operator/(Member const&) const = delete; };
template<class... TS> struct List { static constexpr int n = sizeof...(TS); };
template<int I, class L> struct At; template<int I, class... TS> struct At<I, List<TS...>> { typedef typename std::tuple_element<I, std::tuple<Box<TS>...>>::type B; }; template<class B> struct Unbox; template<class T> struct Unbox<Box<T>> { typedef T Type; }; template<int I, class L> using Get = typename Unbox<typename At<I, L>::B>::Type;
template<class L> static std::string type_name(int i) { return [&]<class... TS>(List<TS...>*) { const char* t[] = {typeid(Box<TS>).name()...}; return std::string(t[i]); }((L*)nullptr); }
// ---- what the language accepts
template<class T> void take(T); template<class F, class T> concept Passes = requires { take<T>(declval<F>()); };
template<class T, class... US> struct Makes { static constexpr bool value = requires { ::new T(declval<US>()...); }; }; template<class T, class... US> struct Makes<T&, US...> : std::is_constructible<T&, US...> { }; template<class T, class... US> struct Makes<T&&, US...> : std::is_constructible<T&&, US...> { }; // variables of reference type: the compiler's own answer
template<class T, class F> concept Sets = requires { declval<T>() = declval<F>(); };
template<class B> struct PointerTo { static void accept(B const volatile*); }; template<class D, class B> static constexpr bool derived() { if constexpr (std::is_class<B>::value && std::is_class<D>::value) return requires(D const volatile* d) { PointerTo<B>::accept(d); }; else return false; }
template<class T> struct Keep { typedef T Type; };
struct Answer { const char* query; bool got, want; };
typedef std::vector<Answer> Answers;
#define ANSWER(text, got, want) {text, (bool)(got), (bool)(want)}
#if PART == 1 || PART == 2
#if PART == 1
typedef List<bool, char, signed char, unsigned, int, long, float, double, int*, const int*, void*, int&, const int&, int&&, const int, std::nullptr_t, Plain, Scoped, Source, Source&, const Source, const Source&, Implicit, Explicit, const char*, std::string, int(&)(int), Source*, Derived*> Universe;
#else
typedef List<int, const int&, Source, Source&, Source&&, const Source&, Implicit, Implicit&, const Implicit&, Explicit, ToInt, const ToInt, ToBool, ToSource, Derived, Derived&, const Derived&, PrivatelyDerived, MoveOnly, MoveOnly&, Pinned, Pinned&, NoDefault, Fixed, Fixed&, Anything, OnlyLvalue, OnlyLvalue&, Hidden, std::vector<int>, std::unique_ptr<Source>, std::shared_ptr<const Source>, bool, bool&> Universe;
#endif
template<class F, class T> static Answers pair_answers() { using namespace Helper; const bool implicit = Passes<F, T>, makes = Makes<T, F>::value, same = std::is_same<Box<F>, Box<T>>::value;
    return {ANSWER("Convertible", (Convertible<F, T>), implicit), ANSWER("ConvertibleTo", (ConvertibleTo<F, T>), implicit), ANSWER("Constructible", (Constructible<T, F>), makes), ANSWER("ConstructibleFrom", (ConstructibleFrom<T, F>), makes), ANSWER("ExplicitlyConvertible", (ExplicitlyConvertible<F, T>), makes && !implicit), ANSWER("ExplicitlyConvertibleTo", (ExplicitlyConvertibleTo<F, T>), makes && !implicit), ANSWER("Assignable", (Assignable<T, F>), (Sets<T, F>)), ANSWER("AssignableFrom", (AssignableFrom<T, F>), (Sets<T, F>)), ANSWER("AssignableTo", (AssignableTo<F, T>), (Sets<T, F>)), ANSWER("SameAs", (SameAs<F, T>), same), ANSWER("Same", (Same<F, T>), same), ANSWER("SameAsOrConvertibleTo", (SameAsOrConvertibleTo<F, T>), same || implicit), ANSWER("DerivedFrom", (DerivedFrom<F, T>), (derived<F, T>())), ANSWER("BaseOf", (BaseOf<T, F>), (derived<F, T>())), ANSWER("Constructible from two", (Constructible<T, F, int>), (Makes<T, F, int>::value)), ANSWER("ConstructibleFrom two", (ConstructibleFrom<T, int, F>), (Makes<T, int, F>::value))}; }
template<class T> struct NoConst { typedef T Type; }; template<class T> struct NoConst<const T> { typedef T Type; }; template<class T> struct NoRef { typedef T Type; }; template<class T> struct NoRef<T&> { typedef T Type; }; template<class T> struct NoRef<T&&> { typedef T Type; };
template<class T, class U> constexpr bool one = std::is_same<Box<T>, Box<U>>::value;
template<class T> static void simple(Answers& r) { using namespace Helper; r.push_back(ANSWER("RemoveConst", (one<RemoveConst<T>, typename NoConst<T>::Type>), true)); r.push_back(ANSWER("RemoveReference", (one<RemoveReference<T>, typename NoRef<T>::Type>), true)); r.push_back(ANSWER("SelfType", (one<SelfType<T>, T>), true)); r.push_back(ANSWER("ReturnType", (one<ReturnType<Return<T>>, T>), true)); }
template<class T> static Answers single_answers();
template<class T> static Answers transformed() { Answers r = single_answers<T>(); simple<T>(r); simple<const T>(r); simple<volatile T>(r); simple<const volatile T>(r); simple<std::add_lvalue_reference_t<const T>>(r); simple<std::add_lvalue_reference_t<volatile T>>(r); simple<std::add_rvalue_reference_t<const T>>(r); simple<std::add_pointer_t<const T>>(r); return r; }
template<class T> static Answers single_answers() { using namespace Helper; typedef std::remove_cv_t<T> U; const bool integral = std::is_same<U, bool>::value || std::is_same<U, char>::value || std::is_same<U, signed char>::value || std::is_same<U, unsigned>::value || std::is_same<U, int>::value || std::is_same<U, long>::value, real = std::is_same<U, float>::value || std::is_same<U, double>::value; bool negative = false; if constexpr (std::is_same<U, char>::value || std::is_same<U, signed char>::value || std::is_same<U, int>::value || std::is_same<U, long>::value) negative = true;
    return {ANSWER("DefaultConstructible", DefaultConstructible<T>, Makes<T>::value), ANSWER("DefaultInitializable", DefaultInitializable<T>, Makes<T>::value), ANSWER("Constructible from nothing", Constructible<T>, Makes<T>::value), ANSWER("CopyConstructible", CopyConstructible<T>, (Makes<T, std::add_lvalue_reference_t<std::add_const_t<T>>>::value)), ANSWER("BuiltinArithmetic", BuiltinArithmetic<T>, integral || real), ANSWER("BuiltinIntegral", BuiltinIntegral<T>, integral), ANSWER("BuiltinFloatingPoint", BuiltinFloatingPoint<T>, real), ANSWER("BuiltinSignedIntegral", BuiltinSignedIntegral<T>, integral && negative), ANSWER("BuiltinUnsignedIntegral", BuiltinUnsignedIntegral<T>, integral && !negative), ANSWER("SelfType", (std::is_same<Box<SelfType<T>>, Box<T>>::value), true), ANSWER("RemoveReference", (std::is_same<Box<RemoveReference<T>>, Box<std::remove_reference_t<T>>>::value && !std::is_reference<RemoveReference<T>>::value), true), ANSWER("RemoveConst", (!std::is_const<RemoveConst<T>>::value && std::is_same<std::add_const_t<RemoveConst<T>>, std::add_const_t<T>>::value), true), ANSWER("ReturnType", (std::is_same<Box<ReturnType<Return<T>>>, Box<T>>::value), true)}; }
template<int I, int... J> static Answers const* row(std::integer_sequence<int, J...>) { static const Answers t[] = {pair_answers<Get<I, Universe>, Get<J, Universe>>()...}; return t; }
template<int... I> static Answers const* rows(int i, std::integer_sequence<int, I...> s) { Answers const* t[] = {row<I>(s)...}; return t[i]; }
template<int... I> static Answers const& single(int i, std::integer_sequence<int, I...>) { static const Answers t[] = {transformed<Get<I, Universe>>()...}; return t[i]; }
static void judge(Ctx& c, Answers const& a, std::string const& what) { for (auto const& x : a) { MC_CHECK(c, x.got == x.want, x.query << " of " << what << " is " << x.got << ", the language says " << x.want); c.outcome(mc::mix(mc::hash_str(x.query), x.got)); } c.ops(a.size()); }
MC_SCENARIO(pairs_of_types) { int i = c.choose(Universe::n, "first"), j = c.choose(Universe::n, "second"); c.op("pair %d %d", i, j); judge(c, rows(i, std::make_integer_sequence<int, Universe::n>())[j], type_name<Universe>(i) + " and " + type_name<Universe>(j)); c.state((mc::u64)(i * 100 + j)); }
MC_SCENARIO(single_types) { int i = c.choose(Universe::n, "type"); c.op("type %d", i); judge(c, single(i, std::make_integer_sequence<int, Universe::n>()), type_name<Universe>(i)); c.state((mc::u64)(90000 + i)); }
#elif PART == 3
// ---- operators
typedef List<int, bool, char, unsigned, long long, double, int&, const double&, int*, const int*, Plain, Scoped, Num, Num&, const Num&, Res, Vec, Vec&, const Vec&, Member, const Member&, std::string, const char*, std::nullptr_t, Source, void*> Universe;
struct TypeAnswer { const char* query; std::type_info const *got, *want; };
typedef std::vector<TypeAnswer> TypeAnswers;
#define COMMA ,
template<class T> T&& value();
template<class A> struct Lv { typedef std::remove_reference_t<A>& T; };
#define RESULT(text, alias, ...) { std::type_info const *g = nullptr, *w = nullptr; if constexpr (requires { typename Keep<Helper::alias>::Type; }) g = name_of<Helper::alias>(); if constexpr (requires { typename Box<decltype(__VA_ARGS__)>; }) w = name_of<decltype(__VA_ARGS__)>(); r.push_back({text, g, w}); }
#define RESULT_NO_REF(text, alias, ...) { std::type_info const *g = nullptr, *w = nullptr; if constexpr (requires { typename Keep<Helper::alias>::Type; }) g = name_of<Helper::alias>(); if constexpr (requires { typename Box<decltype(__VA_ARGS__)>; }) w = name_of<std::remove_reference_t<decltype(__VA_ARGS__)>>(); r.push_back({text, g, w}); }
template<class X, class Y> static TypeAnswers operator_answers() { TypeAnswers r; typedef typename Lv<X>::T L;
    RESULT("SumType", SumType<X COMMA Y>, value<X>() + value<Y>()) RESULT("DifferenceType", DifferenceType<X COMMA Y>, value<X>() - value<Y>()) RESULT("ProductType", ProductType<X COMMA Y>, value<X>() * value<Y>()) RESULT("QuotientType", QuotientType<X COMMA Y>, value<X>() / value<Y>()) RESULT("ArithmeticType", ArithmeticType<X COMMA Y>, (value<X>() * value<Y>()) + (value<X>() * value<Y>())) RESULT("EqualsType", EqualsType<X COMMA Y>, value<X>() == value<Y>()) RESULT("EqualityType", EqualityType<X COMMA Y>, value<X>() == value<Y>()) RESULT("InequalityType", InequalityType<X COMMA Y>, value<X>() != value<Y>()) RESULT("LessType", LessType<X COMMA Y>, value<X>() < value<Y>()) RESULT("ComparisonType", ComparisonType<X COMMA Y>, value<X>() < value<Y>()) RESULT("LogicalConjunctionType", LogicalConjunctionType<X COMMA Y>, value<X>() && value<Y>()) RESULT("LogicalDisjunctionType", LogicalDisjunctionType<X COMMA Y>, value<X>() || value<Y>())
    RESULT_NO_REF("InplaceSumType", InplaceSumType<X COMMA Y>, value<L>() += value<Y>()) RESULT_NO_REF("InplaceDifferenceType", InplaceDifferenceType<X COMMA Y>, value<L>() -= value<Y>()) RESULT_NO_REF("InplaceProductType", InplaceProductType<X COMMA Y>, value<L>() *= value<Y>()) RESULT_NO_REF("InplaceQuotientType", InplaceQuotientType<X COMMA Y>, value<L>() /= value<Y>())
    if (typeid(Box<X>) == typeid(Box<Y>)) { RESULT("SumType of one", SumType<X>, value<X>() + value<X>()) RESULT("DifferenceType of one", DifferenceType<X>, value<X>() - value<X>()) RESULT("ProductType of one", ProductType<X>, value<X>() * value<X>()) RESULT("QuotientType of one", QuotientType<X>, value<X>() / value<X>()) RESULT("EqualsType of one", EqualsType<X>, value<X>() == value<X>()) RESULT("InequalityType of one", InequalityType<X>, value<X>() != value<X>()) RESULT("LessType of one", LessType<X>, value<X>() < value<X>()) RESULT("NegationType", NegationType<X>, -value<X>()) RESULT("LogicalNegationType", LogicalNegationType<X>, !value<X>()) RESULT("LogicalConjunctionType of one", LogicalConjunctionType<X>, value<X>() && value<X>()) RESULT("LogicalDisjunctionType of one", LogicalDisjunctionType<X>, value<X>() || value<X>()) RESULT_NO_REF("InplaceSumType of one", InplaceSumType<X>, value<L>() += value<X>()) RESULT_NO_REF("InplaceDifferenceType of one", InplaceDifferenceType<X>, value<L>() -= value<X>()) RESULT_NO_REF("InplaceProductType of one", InplaceProductType<X>, value<L>() *= value<X>()) if constexpr (std::is_class<std::remove_reference_t<X>>::value) { RESULT("MagType", MagType<X>, mag(value<X>())) } }
    return r; }
template<class X, class Y> static Answers available() { typedef typename Lv<X>::T L; typedef typename Lv<Y>::T M; using namespace Helper; return {ANSWER("HasEquality", (HasEquality<X, Y>), (requires { value<L>() == value<M>(); })), ANSWER("CanAdd", (CanAdd<X, Y>), (requires { value<L>() + value<M>(); })), ANSWER("CanSubtract", (CanSubtract<X, Y>), (requires { value<L>() - value<M>(); })), ANSWER("CanMultiply", (CanMultiply<X, Y>), (requires { value<L>() * value<M>(); })), ANSWER("CanDivide", (CanDivide<X, Y>), (requires { value<L>() / value<M>(); }))}; }
template<int I, int... J> static TypeAnswers const& trow(int j, std::integer_sequence<int, J...>) { static const TypeAnswers t[] = {operator_answers<Get<I, Universe>, Get<J, Universe>>()...}; return t[j]; }
template<int I, int... J> static Answers const& arow(int j, std::integer_sequence<int, J...>) { static const Answers t[] = {available<Get<I, Universe>, Get<J, Universe>>()...}; return t[j]; }
template<int... I> static TypeAnswers const& types_at(int i, int j, std::integer_sequence<int, I...> s) { typedef TypeAnswers const& (*F)(int, decltype(s)); static const F t[] = {&trow<I>...}; return t[i](j, s); }
template<int... I> static Answers const& available_at(int i, int j, std::integer_sequence<int, I...> s) { typedef Answers const& (*F)(int, decltype(s)); static const F t[] = {&arow<I>...}; return t[i](j, s); }
MC_SCENARIO(operators) { int i = c.choose(Universe::n, "first"), j = c.choose(Universe::n, "second"); c.op("pair %d %d", i, j); auto s = std::make_integer_sequence<int, Universe::n>(); std::string what = type_name<Universe>(i) + " and " + type_name<Universe>(j);
    for (auto const& x : types_at(i, j, s)) { MC_CHECK(c, !x.got == !x.want && (!x.got || *x.got == *x.want), x.query << " of " << what << " is " << (x.got ? x.got->name() : "none") << ", the expression has " << (x.want ? x.want->name() : "none")); c.outcome(mc::mix(mc::hash_str(x.query), x.got != nullptr)); c.ops(1); }
    for (auto const& x : available_at(i, j, s)) { MC_CHECK(c, x.got == x.want, x.query << " of " << what << " is " << x.got << ", the language says " << x.want); c.outcome(mc::mix(mc::hash_str(x.query), x.got)); c.ops(1); } c.state((mc::u64)(i * 100 + j)); }
#else
// ---- calls
struct Overloaded { int operator()(int) const; double operator()(double) const; Source& operator()(Source&) const; const char* operator()() const; }; struct Mutable { int operator()(int); long operator()(int) const; }; struct OnlyMutable { int operator()(int); }; struct OnlyRvalue { Source operator()(int) &&; int& operator()(Source) &; }; struct Generic { template<class T> T operator()(T) const; template<class T, class U> U operator()(T, U) const; }; struct Defaulted { bool operator()(int, double = 0) const; }; struct Variadic { int operator()(...) const; }; struct PrivateCall { private: int operator()(int) const; }; struct Deleted { int operator()(int) const = delete; double operator()(double) const; }; struct ToPointer { typedef int (*P)(int); operator P() const; }; struct Nothing { void operator()(int) const; Explicit operator()(Source const&) const; Implicit operator()(double) const; const int operator()() const; };
typedef List<int(*)(int), void(*)(), Source&(*)(Source const&), const Source(*)(int, double), int(&)(Source&), Overloaded, Overloaded&, const Mutable, Mutable&, OnlyMutable, const OnlyMutable, OnlyRvalue, OnlyRvalue&, Generic, Defaulted, Variadic, PrivateCall, Deleted, ToPointer, Nothing, int, Source, int*, std::function<int(int)>, std::function<Source(Source, int)>> Functions;
typedef List<int, double, Source, Source&, const Source&, const char*, Derived> Arguments;
typedef List<int, double, bool, Source, Source&, const Source&, Implicit, Explicit, std::string, void, MoveOnly, int&> Results;
template<class F, class... AS> concept Calls = requires { declval<F>()(declval<AS>()...); };
template<class F, class... AS> static constexpr bool usable() { return !std::is_reference<F>::value && !std::is_const<F>::value; }
struct CallAnswers { Answers a; std::type_info const *got = nullptr, *want = nullptr, *sig = nullptr; bool has_sig = false; };
template<class R, class F, class... AS> static constexpr bool returns() { if constexpr (Calls<F, AS...>) { if constexpr (std::is_void<R>::value || std::is_void<decltype(declval<F>()(declval<AS>()...))>::value) return std::is_void<R>::value && std::is_void<decltype(declval<F>()(declval<AS>()...))>::value; else return Passes<decltype(declval<F>()(declval<AS>()...)), R>; } else return false; }
template<class F, class... AS> static CallAnswers call_answers() { using namespace Helper; CallAnswers x; x.a.push_back(ANSWER("Invocable", (Invocable<F, AS...>), (Calls<F, AS...>))); if constexpr (sizeof...(AS) == 1) x.a.push_back(ANSWER("IsInvocable", (IsInvocable<F, AS...>::value), (Calls<F, AS...>)));
    [&]<class... R>(List<R...>*) { ((x.a.push_back(ANSWER("InvocableReturning", (InvocableReturning<R, F, AS...>), (returns<R, F, AS...>())))), ...); if constexpr (sizeof...(AS) == 1) { ([&]<class RR>(Keep<RR>) { if constexpr (!std::is_void<RR>::value) x.a.push_back(ANSWER("IsInvocableReturning", (IsInvocableReturning<RR, F, AS...>::value), (returns<RR, F, AS...>()))); }(Keep<R>()), ...); } }((Results*)nullptr);
    if constexpr (requires { typename Keep<InvokeResult<F, AS...>>::Type; }) x.got = name_of<InvokeResult<F, AS...>>(); if constexpr (Calls<F, AS...>) x.want = name_of<decltype(declval<F>()(declval<AS>()...))>(); if constexpr (usable<F>() && Calls<F, AS...>) { x.has_sig = true; x.sig = name_of<ResultOf<F(AS...)>>(); } return x; }
enum { A = Arguments::n, F = Functions::n, LISTS = 1 + A + A * A };
template<int I, int N> static CallAnswers call_at() { typedef Get<I, Functions> G; if constexpr (N == 0) return call_answers<G>(); else if constexpr (N <= A) return call_answers<G, Get<N - 1, Arguments>>(); else return call_answers<G, Get<(N - 1 - A) / A, Arguments>, Get<(N - 1 - A) % A, Arguments>>(); }
template<int I, int... N> static CallAnswers const& crow(int n, std::integer_sequence<int, N...>) { static const CallAnswers t[] = {call_at<I, N>()...}; return t[n]; }
template<int... I> static CallAnswers const& call(int i, int n, std::integer_sequence<int, I...>) { typedef std::make_integer_sequence<int, LISTS> L; typedef CallAnswers const& (*P)(int, L); static const P t[] = {&crow<I>...}; return t[i](n, L()); }
MC_SCENARIO(calls) { int i = c.choose(F, "function"), n = c.choose(LISTS, "arguments"); c.op("call %d %d", i, n); CallAnswers const& x = call(i, n, std::make_integer_sequence<int, F>()); std::string what = type_name<Functions>(i) + " with argument list " + std::to_string(n); int k = 0; for (auto const& y : x.a) { MC_CHECK(c, y.got == y.want, y.query << " (answer " << k << ") of " << what << " is " << y.got << ", the language says " << y.want); c.outcome(mc::mix(mc::hash_str(y.query), y.got)); ++k; c.ops(1); }
    MC_CHECK(c, !x.got == !x.want && (!x.got || *x.got == *x.want), "InvokeResult of " << what << " is " << (x.got ? x.got->name() : "none") << ", the call has " << (x.want ? x.want->name() : "none")); if (x.has_sig) MC_CHECK(c, *x.sig == *x.want, "ResultOf of " << what << " is " << x.sig->name() << ", the call has " << x.want->name()); c.state((mc::u64)(i * 1000 + n)); }
// pointers to members
struct Holder { int field; Source method(int); int reader() const; }; struct SubHolder : Holder { };
template<class M, class... AS> static void member(Ctx& c, const char* what, bool want, bool want_int) { c.op("%s", what); MC_CHECK(c, (Helper::Invocable<M, AS...>) == want, "Invocable of " << what << " is " << !want); MC_CHECK(c, (Helper::InvocableReturning<int, M, AS...>) == want_int, "InvocableReturning int of " << what << " is " << !want_int); c.state(mc::hash_str(what)); }
MC_SCENARIO(members) { typedef int Holder::* Fld; typedef Source (Holder::* Met)(int); typedef int (Holder::* Rd)() const; member<Fld, Holder&>(c, "field of an object", true, true); member<Fld, SubHolder*>(c, "field through a pointer", true, true); member<Fld, int>(c, "field of an int", false, false); member<Fld, Holder, int>(c, "field with an argument", false, false); member<Met, Holder&, int>(c, "method", true, false); member<Met, Holder&>(c, "method without its argument", false, false); member<Met, const Holder&, int>(c, "method of a constant", false, false); member<Rd, const Holder&>(c, "reader of a constant", true, true); member<Rd, SubHolder>(c, "reader of a derived object", true, true); member<Rd>(c, "reader of nothing", false, false); MC_CHECK(c, (std::is_same<Helper::InvokeResult<Fld, Holder&>, int&>::value && std::is_same<Helper::InvokeResult<Met, Holder&, int>, Source>::value && std::is_same<Helper::ResultOf<Rd(Holder)>, int>::value), "results of member calls"); }
#endif
#endif
MC_MAIN
