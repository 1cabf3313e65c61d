"""Unusual declarations (accepted or rejected), each with the compiler options it needs."""
ODD = {
    'anon_ostream': ('typedef struct { int v; } Anon;\nstruct GENPYBIND(visible) X {};\nGENPYBIND(visible) Anon &operator<<(Anon &a, const X &);\n', []),
    'anon_ostream2': ('struct GENPYBIND(visible) X {};\nauto lam = []{}; GENPYBIND(visible) int operator<<(decltype(lam) &a, const X &);\n', []),
    'anon_param': ('typedef struct { int v; } Anon;\nGENPYBIND(visible) int f(Anon &, Anon *, const Anon);\n', []),
    'anon_vis': ('typedef struct GENPYBIND(visible) { int v; } Anon;\n', []),
    'anon_vis2': ('namespace n GENPYBIND(visible) { typedef struct { int v; } Anon; struct { int q; } var; union { int a; }; }\n', []),
    'anon_union': ('struct GENPYBIND(visible) X { union { int a; float b; }; struct { int c; }; union { int a; } u; };\n', []),
    'unnamed_enum': ('enum GENPYBIND(visible) { e1, e2 };\nstruct GENPYBIND(visible) X { enum { a, b }; enum class GENPYBIND(visible) { }; };\n', []),
    'bitfield': ('struct GENPYBIND(visible) X { int a : 3; int : 2; const int b : 2; };\n', []),
    'lambda': ('namespace n GENPYBIND(visible) { inline auto l = [](int x) { return x; }; }\n', []),
    'vartpl': ('namespace n GENPYBIND(visible) { template <typename T> T v = T(); template int v<int>; inline int z = v<int>; }\n', []),
    'sb': ('namespace n GENPYBIND(visible) { struct P { int a, b; }; inline auto [x, y] = P{1,2}; }\n', []),
    'guide': ('template <typename T> struct G { G(T); }; template <typename T> G(T) -> G<T>; namespace n GENPYBIND(visible) { template <typename T> struct H { H(T); }; H(int) -> H<int>; }\ntemplate struct GENPYBIND(visible) G<int>;\n', []),
    'lit': ('namespace n GENPYBIND(visible) { int operator""_x(unsigned long long); }\n', []),
    'newdel': ('struct GENPYBIND(visible) X { void *operator new(unsigned long); void operator delete(void *); void *operator new[](unsigned long); int operator->*(int); int operator,(int); X *operator->(); X &operator++(); X operator++(int); int operator[](int); int operator()(int, int); bool operator!() const; bool operator&&(X) const; };\n', []),
    'not': ('struct GENPYBIND(visible) X { bool operator!() const; };\n', []),
    'freenot': ('struct GENPYBIND(visible) X { }; GENPYBIND(visible) bool operator!(X); GENPYBIND(visible) bool operator&&(X, X); GENPYBIND(visible) X &operator++(X &); GENPYBIND(visible) X operator++(X &, int); GENPYBIND(visible) int operator->*(X, int); GENPYBIND(visible) int operator,(X, int);\n', []),
    'conv': ('struct GENPYBIND(visible) X { operator int() const; explicit operator bool() const; template <typename T> operator T() const; };\n', []),
    'optpl': ('struct GENPYBIND(visible) X { template <typename T> X operator+(T); template <typename T> friend X operator-(X, T); };\ntemplate X X::operator+<int>(int);\n', []),
    'friendop': ('struct GENPYBIND(visible) X { friend bool operator==(const X &, const X &) { return true; } friend X operator+(int, const X &) { return {}; } };\n', []),
    'spaceship': ('#include <compare>\nstruct GENPYBIND(visible) X { auto operator<=>(const X &) const = default; };\n', ['-std=c++20']),
    'concept': ('template <typename T> concept Cc = true; namespace n GENPYBIND(visible) { template <Cc T> void f(T); void g(Cc auto x); template <typename T> requires Cc<T> struct S {}; template struct GENPYBIND(visible) S<int>; }\n', ['-std=c++20']),
    'usingenum': ('enum class E { a }; struct GENPYBIND(visible) X { using enum E; };\n', ['-std=c++20']),
    'thisparam': ('struct GENPYBIND(visible) X { int f(this X &self, int a); template <typename S> int g(this S &&s); };\n', ['-std=c++2b']),
    'thisop': ('struct GENPYBIND(visible) X { int operator+(this X &self, int a); int operator-(this X self); };\n', ['-std=c++2b']),
    'coro': ('struct GENPYBIND(visible) X { int operator co_await(); };\n', ['-std=c++20']),
    'staticcall': ('struct GENPYBIND(visible) X { static int operator()(int); static int operator[](int); };\n', ['-std=c++2b']),
    'multisub': ('struct GENPYBIND(visible) X { int operator[](int, int); int operator[](); };\n', ['-std=c++2b']),
    'crtp': ('template <typename D> struct B { D *self(); int f(D &); }; struct GENPYBIND(visible, inline_base("B")) X : B<X> {};\nstruct GENPYBIND(visible) Y : B<Y> {};\n', []),
    'virt': ('struct GENPYBIND(visible) A { virtual ~A(); virtual void f() = 0; }; struct GENPYBIND(visible) L : virtual A {}; struct GENPYBIND(visible) R : virtual A {}; struct GENPYBIND(visible) D : L, R { void f() override; };\n', []),
    'pack': ('template <typename... T> struct GENPYBIND(visible) Tp { int f(T...); Tp(T... t); }; template struct GENPYBIND(visible) Tp<int, char, Tp<>>; template struct GENPYBIND(visible) Tp<>;\n', []),
    'packbase': ('struct A1 {}; struct A2 {}; template <typename... T> struct GENPYBIND(visible) Tp : T... { using T::T...; }; template struct GENPYBIND(visible) Tp<A1, A2>;\n', []),
    'ttp': ('template <template <typename> class T> struct W { T<int> x; }; template <typename T> struct I {}; template struct GENPYBIND(visible) W<I>;\n', []),
    'nttp': ("struct Q { int x; }; template <Q q> struct W { int y = q.x; }; template struct GENPYBIND(visible) W<Q{3}>; template <auto v> struct Z {}; template struct GENPYBIND(visible) Z<'c'>; template struct GENPYBIND(visible) Z<nullptr>;\n", ['-std=c++20']),
    'partial': ('template <typename T, typename U> struct S {}; template <typename T> struct S<T, int> { int p; }; template struct GENPYBIND(visible) S<char, int>; template <> struct GENPYBIND(visible) S<int, int> { int q; };\n', []),
    'localclass': ('GENPYBIND(visible) inline auto f() { struct L { int x; }; return L{}; }\n', []),
    'decltype_': ('GENPYBIND(visible) inline auto f() { return [](int q) { return q; }; }\nnamespace n GENPYBIND(visible) { using T = decltype(f()); inline T g(T t) { return t; } }\n', []),
    'anonns': ('namespace { struct GENPYBIND(visible) X { int a; }; GENPYBIND(visible) int f(X); }\nnamespace GENPYBIND(visible) { int q; }\n', []),
    'inlinens': ('inline namespace v1 GENPYBIND(module) { struct X {}; }\n inline namespace v2 GENPYBIND(visible, module(a)) { struct Y {}; }\n', []),
    'nested_ns': ('namespace a::b::inline c GENPYBIND(visible) { struct X {}; }\n', ['-std=c++20']),
    'extern_': ('extern "C" { struct GENPYBIND(visible) X { int a; }; GENPYBIND(visible) int f(X *); }\nextern "C" GENPYBIND(visible) int g(void);\n', []),
    'attr': ('struct [[nodiscard]] GENPYBIND(visible) alignas(16) X { [[deprecated("no")]] int f(); [[no_unique_address]] int z; };\n', []),
    'variadic': ('GENPYBIND(visible) int f(int, ...);\nstruct GENPYBIND(visible) X { X(int, ...); };\n', []),
    'fnptr': ('GENPYBIND(visible) int f(int (*cb)(int, void *), int (&r)[3], int a[4]) ;\n', []),
    'memptr': ('struct GENPYBIND(visible) X { int a; int X::*p; int (X::*q)(int); static constexpr int k = 3; static inline int m = 4; mutable int mm; thread_local static int tl; int &ref; int arr[3]; };\n', []),
    'noex': ('struct GENPYBIND(visible) X { int f() noexcept; int g() const volatile; int h() &; int i() const &&; int j() && noexcept; };\n', []),
    'ctors': ('struct GENPYBIND(visible) X { X() = delete; X(const X &) = delete; X(X &&) = default; template <typename T> X(T); explicit X(int); protected: X(char); };\ntemplate X::X(double);\n', []),
    'inhctor': ('struct B { B(int); B(const char *); template <typename T> B(T, T); }; struct GENPYBIND(visible) X : B { using B::B; };\n', []),
    'fwd': ('struct GENPYBIND(visible) X; struct GENPYBIND(visible) Y; struct X { Y *y; };\nenum class GENPYBIND(visible) E : int;\n', []),
    'fwdenum': ('enum class GENPYBIND(visible) E : int; enum class E : int { a };\n', []),
    'redecl': ('GENPYBIND(visible) int f(int a); int f(int b); GENPYBIND(visible) int f(int c = 3);\n', []),
    'defaulted': ('GENPYBIND(visible) int f(int a = [](int q) { return q; }(3), const char *s = "a\\"b\\n", char c = \'\\0\', decltype(nullptr) n = nullptr, unsigned long z = sizeof(int), bool b = noexcept(1));\n', []),
    'default_stmt': ('GENPYBIND(visible) int f(int a = ({ int q = 3; q; }));\n', []),
    'this_default': ('struct GENPYBIND(visible) X { static int k; int f(int a = k, int b = sizeof(X), X *x = new X(), int c = X{}.k); };\n', []),
    'utf': ('struct GENPYBIND(visible) \xdcber { int gr\xf6\xdfe; };\nnamespace \u540d GENPYBIND(visible) { struct X {}; }\n', []),
    'dollar': ('struct GENPYBIND(visible) X$y { int a$; };\n', []),
    'objfwd': ('struct GENPYBIND(visible) X { class In; In *p; friend class Fr; }; class X::In { int q; };\n', []),
    'outofline': ('struct GENPYBIND(visible) X { struct In; }; struct GENPYBIND(visible) X::In { int q; };\n', []),
    'usingdecl': ('namespace a { int f(int); struct S {}; } namespace b GENPYBIND(visible) { using a::f; using a::S; }\n', []),
    'usingdir': ('namespace a GENPYBIND(visible) { int f(int); } namespace b GENPYBIND(visible) { using namespace a; namespace c = a; }\n', []),
    'tplalias': ('template <typename T> struct S { using type = T; }; template <typename T> using A = S<T>; using B GENPYBIND(expose_here) = A<int>; using C GENPYBIND(encourage) = A<char>;\n', []),
    'aliasauto': ('struct S {}; using B GENPYBIND(expose_here) = decltype(S{}); typedef struct S2_ {} S2 GENPYBIND(visible); typedef struct {} S3 GENPYBIND(expose_here);\n', []),
    'aliasanon': ('using B GENPYBIND(expose_here) = struct { int a; };\n', []),
    'aliasenum': ('typedef enum { a1, b1 } E1 GENPYBIND(expose_here); typedef enum GENPYBIND(visible) { a2 } E2;\n', []),
    'asm': ('namespace n GENPYBIND(visible) { asm(""); static_assert(true); ; }\n', []),
    'vec': ('typedef float v4 __attribute__((vector_size(16))); GENPYBIND(visible) v4 f(v4 x, _Complex double c, __int128 i, _Float16 h);\n', []),
    'block': ('struct GENPYBIND(visible) X { friend int operator+(X, X); template <int N> friend int operator*(X, int (&)[N]); };\n', []),
    'holder': ('#include <memory>\nstruct GENPYBIND(visible, holder_type("std::shared_ptr<X>")) X {};\n', []),
    'opnew_free': ('void *operator new(unsigned long, int) GENPYBIND(visible);\n', []),
    'main': ('GENPYBIND(visible) int main();\n', []),
    'abstracttpl': ('template <typename T> struct GENPYBIND(visible) A { virtual T f() = 0; virtual ~A(); }; template struct GENPYBIND(visible) A<int>;\n', []),
    'recursive': ('template <int N> struct R : R<N-1> { int x; }; template <> struct R<0> {}; template struct GENPYBIND(visible) R<50>;\n', []),
    'privbase': ('struct B {}; struct GENPYBIND(visible) X : private B { using P = B; }; class GENPYBIND(visible) Y : B {};\n', []),
    'ambig': ('struct GENPYBIND(visible) B {}; struct GENPYBIND(visible) B1 : B {}; struct GENPYBIND(visible) X : B, B1 {};\n', []),
    'const_': ('struct GENPYBIND(visible) X { const int a = 1; static const int b; volatile int c; constexpr static auto d = 3.0; };\n', []),
    'requires_': ('struct GENPYBIND(visible) X { int f() requires true; template <typename T> struct In { int g() requires (sizeof(T) == 1); using A GENPYBIND(visible) = T; }; }; template struct GENPYBIND(visible) X::In<int>;\n', ['-std=c++20']),
    'consteval': ('GENPYBIND(visible) consteval int f(int x) { return x; } namespace n GENPYBIND(visible) { constinit int z = 3; }\n', ['-std=c++20']),
    'noann': ('int f(); struct X {};\n', []),
    'empty': ('', []),
    'ostream': ('#include <ostream>\nstruct GENPYBIND(visible) X { friend std::ostream &operator<<(std::ostream &o, const X &) GENPYBIND(expose_as(__str__)); };\nGENPYBIND(visible) std::ostream &operator<<(std::ostream &o, X *);\n', []),
    'ostrtpl': ('#include <ostream>\nstruct GENPYBIND(visible) X {}; template <typename S> GENPYBIND(expose_as(__str__)) S &operator<<(S &s, const X &) { return s; }\ntemplate std::ostream &operator<<(std::ostream &, const X &);\n', []),
    'shift_int': ('struct GENPYBIND(visible) X {}; GENPYBIND(visible) int operator<<(int, X); GENPYBIND(visible) X operator<<(X *, X); GENPYBIND(visible) X operator<<(X (&)[2], X); union U {}; GENPYBIND(visible) X operator<<(U &, X);\n', []),
    'sb_': ('namespace n GENPYBIND(visible) { struct P { int a, b; }; static auto [x, y] = P{1,2}; }\nGENPYBIND(visible) static auto [p, q] = n::P{1, 2};\n', []),
    'anonns_': ('namespace { struct GENPYBIND(visible) X { int a; }; GENPYBIND(visible) int f(X); }\n', []),
    'anonns2': ('namespace GENPYBIND(visible) { struct X { int a; }; int f(X); }\nnamespace GENPYBIND(visible) { struct Y {}; }\n', []),
    'anonnsmod': ('namespace GENPYBIND(module) { struct X { int a; }; int f(X); }\n', []),
    'unnamed_enum2': ('namespace n GENPYBIND(visible) { enum { e1, e2 }; struct X { enum { a, b }; enum : char { q } z; }; }\n', []),
    'anonstatic': ('namespace n GENPYBIND(visible) { static union { int a; float b; }; struct { int q; } var; }\n', []),
    'optpl2': ('struct GENPYBIND(visible) X { template <typename T> X operator+(T) { return *this; } template <typename T> friend X operator-(X a, T) { return a; } template <typename T> int operator()(T) { return 1; } };\ntemplate X X::operator+<int>(int); template X operator-<int>(X, int); template int X::operator()<char>(char);\n', []),
    'ctors2': ('struct GENPYBIND(visible) X { X() = delete; X(const X &) = delete; template <typename T> X(T) {} template <typename T> GENPYBIND(implicit_conversion) X(T, int = 3) {} };\ntemplate X::X(double); template X::X(char, int);\n', []),
    'implconv0': ('struct GENPYBIND(visible) X { GENPYBIND(implicit_conversion) X(); };\n', []),
    'implconv2': ('struct GENPYBIND(visible) X { GENPYBIND(implicit_conversion) X(int, int); };\n', []),
    'implconvv': ('struct GENPYBIND(visible) X { GENPYBIND(implicit_conversion) X(...); };\n', []),
    'implconvp': ('struct GENPYBIND(visible) X { GENPYBIND(implicit_conversion) X(const X &); GENPYBIND(implicit_conversion) X(X &&); };\n', []),
    'implconvt': ('template <typename... T> struct GENPYBIND(visible) X { GENPYBIND(implicit_conversion) X(T...); };\ntemplate struct GENPYBIND(visible) X<>;\n', []),
    'implconvt1': ('template <typename... T> struct GENPYBIND(visible) X { GENPYBIND(implicit_conversion) X(T...); };\ntemplate struct GENPYBIND(visible) X<int>;template struct GENPYBIND(visible) X<int, int>;\n', []),
    'implconvdef': ('struct GENPYBIND(visible) X { GENPYBIND(implicit_conversion) X(int a = 3); };\n', []),
    'kalive': ('struct GENPYBIND(visible) X { GENPYBIND(keep_alive(this, a)) X(X *a); GENPYBIND(keep_alive(return, this)) X &f(); GENPYBIND(keep_alive(this, nope)) void g(int q); };\n', []),
    'kaliveunn': ('struct GENPYBIND(visible) X { GENPYBIND(keep_alive(this, a)) void f(X *); };\n', []),
    'kalivet': ('template <typename... T> struct GENPYBIND(visible) X { GENPYBIND(keep_alive(this, a)) void f(T *...a); };\ntemplate struct GENPYBIND(visible) X<int, char>; template struct GENPYBIND(visible) X<>;\n', []),
    'getter': ('struct GENPYBIND(visible) X { GENPYBIND(getter_for(a)) static int g(); };\n', []),
    'getter2': ('struct GENPYBIND(visible) X { template <typename T> GENPYBIND(getter_for(a)) T g() { return T(); } };\ntemplate int X::g<int>(); template char X::g<char>();\n', []),
    'getterop': ('struct GENPYBIND(visible) X { GENPYBIND(getter_for(a)) int operator()() const; GENPYBIND(getter_for(b)) operator int() const; GENPYBIND(getter_for(c)) int operator+() const; };\n', []),
    'getterctor': ('struct GENPYBIND(visible) X { GENPYBIND(getter_for(a)) X(); GENPYBIND(getter_for(a)) ~X(); };\n', []),
    'setter2': ('struct GENPYBIND(visible) X { GENPYBIND(getter_for(a)) int g(int x = 1) const; GENPYBIND(setter_for(a)) void s(int, int = 2); };\n', []),
    'manual': ('GENPYBIND_MANUAL({ parent.attr("x") = 3; })\n#include <genpybind/genpybind.h>\n', []),
    'manualtpl': ('template <typename T> struct GENPYBIND(visible) X { GENPYBIND_MANUAL({ using X = GENPYBIND_PARENT_TYPE; (void)parent; (void)sizeof(X); }) };\ntemplate struct GENPYBIND(visible) X<int>;\n', []),
    'manualns': ('namespace n GENPYBIND(module) { GENPYBIND_MANUAL({ (void)parent; auto l = [&](auto x) { return x; }; for (int i : {1,2}) l(i); if (true) return; try { throw 1; } catch (...) {} switch (1) { case 1: break; } }) }\n', []),
    'manualann': ('GENPYBIND(visible) auto x = [](auto &parent) { return 1; };\nGENPYBIND(manual) int y;\n', []),
    'manualann2': ('GENPYBIND(manual) auto x = [](auto &parent) { };\nGENPYBIND(manual) auto y = 3;\n', []),
    'manualann3': ('GENPYBIND(manual) auto x = [](int parent) { };\n', []),
    'manualann4': ('GENPYBIND(manual) auto x = []() { };\n', []),
    'manualann5': ('GENPYBIND(manual) auto x = [](auto &a, auto &b) { };\n', []),
    'manualann6': ('int zz; GENPYBIND(manual) auto x = [&](auto &a) { zz = 1; };\n', []),
    'manualann7': ('GENPYBIND(manual) inline const auto x = +[](int &a) { };\n', []),
    'manualann8': ('struct GENPYBIND(visible) S { GENPYBIND(manual) static constexpr auto x = [](auto &) { }; GENPYBIND(manual) int f; };\n', []),
    'postamble': ('struct GENPYBIND(visible) S { GENPYBIND(postamble) static int x; };\n', []),
    'postamble2': ('GENPYBIND(postamble) int x;\nextern "C" { GENPYBIND(postamble) GENPYBIND_MANUAL({}) }\n', []),
    'postamble3': ('GENPYBIND(postamble, visible) auto x = 3;\n', []),
    'holder2': ('struct GENPYBIND(visible, holder_type("")) X {};\n', []),
    'exposeas': ('struct GENPYBIND(expose_as(class)) X { GENPYBIND(expose_as(__init__)) int f(); GENPYBIND(expose_as("not ident")) int g(); };\n', []),
    'exposeas2': ('struct GENPYBIND(visible) X { GENPYBIND(expose_as(a)) X(); GENPYBIND(expose_as(b)) X operator+(X); GENPYBIND(expose_as(c)) int operator()(int); GENPYBIND(expose_as(d)) operator int(); };\n', []),
    'onlyexposein': ('namespace n GENPYBIND(visible, only_expose_in(mod)) { struct X {}; }\nnamespace n2 GENPYBIND(visible, only_expose_in(onlyexposein)) { struct Y {}; }\n', []),
    'exposeherecyc': ('struct A; struct B { using X GENPYBIND(expose_here) = A; }; struct A { using X GENPYBIND(expose_here) = B; };\n', []),
    'exposehere_base': ('struct Bs { struct In {}; }; struct GENPYBIND(visible, inline_base) D : Bs { using In2 GENPYBIND(expose_here) = Bs::In; };\n', []),
    'inlbasetpl': ('template <typename T> struct Bs { int f(T); struct In { T t; }; enum E { a }; }; struct GENPYBIND(visible, inline_base) D : Bs<int>, Bs<char> {};\n', []),
    'hidebase': ('struct GENPYBIND(visible) Bs {}; struct GENPYBIND(visible, hide_base) D : Bs {}; struct GENPYBIND(visible, hide_base("Bs"), inline_base("Bs")) D2 : Bs {}; struct GENPYBIND(visible, hide_base("nope")) D3 : Bs {};\n', []),
    'inlbaseself': ('template <typename T> struct Bs { }; struct GENPYBIND(visible, inline_base("Bs")) D : Bs<D> {}; struct GENPYBIND(visible, inline_base("D")) E : D {};\n', []),
    'stmt': ('GENPYBIND(visible) GENPYBIND(hidden) int f();\nGENPYBIND(visible(default)) int g();\nGENPYBIND(hidden, visible) int h();\n', []),
    'paramann': ('int f(GENPYBIND(visible) int x) GENPYBIND(visible);\nstruct GENPYBIND(visible) X { int f(GENPYBIND(hidden) int y = 1); };\n', []),
    'tparamann': ('template <GENPYBIND(visible) typename T> struct X {};\n', []),
    'enumann': ('enum class GENPYBIND(visible) E { a GENPYBIND(expose_as(b)), c GENPYBIND(hidden), d GENPYBIND(arithmetic) };\n', []),
    'friendann': ('struct GENPYBIND(visible) X { friend struct GENPYBIND(visible) Y; GENPYBIND(visible) friend int f(X); GENPYBIND(visible) friend int g(X) { return 1; } friend X operator+(X, X) GENPYBIND(hidden); };\n', []),
    'usingann': ('struct B { int f(); }; struct GENPYBIND(visible) X : B { using B::f GENPYBIND(visible); };\n', []),
    'labelann': ('GENPYBIND(visible) inline int f() { GENPYBIND(visible) int x = 3; struct GENPYBIND(visible) L { int q; }; return x; }\n', []),
    'localtpl': ('template <typename T> GENPYBIND(visible) inline int f() { struct GENPYBIND(visible) L { T q; using A GENPYBIND(expose_here) = T; }; return sizeof(L); }\ntemplate int f<int>();\n', []),
    'attribute': ('__attribute__((annotate("\\\\genpybind visible"))) int f(); __attribute__((annotate("\\\\genpybind"))) int g();[[clang::annotate("\\\\genpybind visible")]] int h(); [[clang::annotate("x", 3)]] int j();\n', []),
    'attribute2': ('[[clang::annotate("\\\\genpybind visible", 3)]] int h();\n__attribute__((annotate("genpybind visible"))) int g();\n', []),
    'annstr': ('struct __attribute__((annotate("\\\\genpybind visible\\0x"))) X {};\n', []),
    'annutf': ('struct GENPYBIND(expose_as("\xdc\u540d")) X {};\n', []),
    'fncv': ('using F = int(int) const; struct GENPYBIND(visible) X { F f; int g(int) const; typedef int Q(int); Q h; static Q i; };\nGENPYBIND(visible) X::Q freefn;\n', []),
    'autofn': ('struct GENPYBIND(visible) X { auto f() -> int; auto g() { return 3; } decltype(auto) h() { return (a); } int a; };\n', []),
    'undeduced': ('struct GENPYBIND(visible) X { auto f(); static auto g(int = 3); };\nGENPYBIND(visible) auto q();\n', []),
    'undeducedop': ('struct GENPYBIND(visible) X { auto operator+(X); auto operator-(); GENPYBIND(getter_for(a)) auto g() const; };\nGENPYBIND(visible) auto operator*(X, X);\n', []),
    'incpar': ('struct Inc; GENPYBIND(visible) Inc f(Inc); struct GENPYBIND(visible) X { Inc *p; Inc &g(); Inc h(Inc); static Inc z; }; GENPYBIND(visible) Inc operator+(X, Inc);\n', []),
    'refq': ('struct GENPYBIND(visible) X { X operator+(X) &; X operator-(X) &&; X operator*(X) const &; X operator/(X) volatile; };\n', []),
    'opdef': ('struct GENPYBIND(visible) X { bool operator==(const X &) const = default; bool operator<(const X &) const = delete; auto operator<=>(const X &) const = default; };\n', ['-std=c++20']),
    'opcall': ('struct GENPYBIND(visible) X { int operator()(); int operator()(int a = 2, ...) const; template <typename T> int operator()(T, T); };\n', []),
    'postfix': ('struct GENPYBIND(visible) X { X operator--(int); X operator~() const; X operator-() const; X operator+() const; X &operator*(); X *operator&(); };\nGENPYBIND(visible) X operator~(X, ...) ;\n', []),
    'opdflt': ('struct GENPYBIND(visible) X { int operator()(int = 3); }; GENPYBIND(visible) int operator+(X a, X b);\n', []),
    'openum': ('enum class GENPYBIND(visible) E { a }; GENPYBIND(visible) E operator|(E, E); GENPYBIND(visible) E operator~(E);\n', []),
    'opother': ('namespace a { struct GENPYBIND(visible) X {}; } namespace b GENPYBIND(visible) { a::X operator+(a::X, a::X); }\n', []),
    'opint': ('struct GENPYBIND(visible) X { operator double(); }; GENPYBIND(visible) bool operator<(double, const X &); GENPYBIND(visible) bool operator<(const X &, double); GENPYBIND(visible) bool operator<(X *, X &);\n', []),
    'opright': ('struct GENPYBIND(visible) X {}; GENPYBIND(visible) X &operator+=(int &, X); GENPYBIND(visible) bool operator<=(int, X &&); GENPYBIND(visible) int operator%(int, const volatile X &);\n', []),
    'tplmeth': ('struct GENPYBIND(visible) X { template <typename T> T f(T t) { return t; } template <int N> static int g() { return N; } };\ntemplate int X::f(int); template int X::g<3>(); template <> inline char X::f<char>(char c) { return c; }\n', []),
    'tplspecmem': ('template <typename T> struct S { T f(); struct In { T t; }; }; template <> inline int S<int>::f() { return 1; } template struct GENPYBIND(visible) S<int>; template <> struct GENPYBIND(visible) S<char>::In { int z; };\n', []),
    'externtpl': ('template <typename T> struct S { T f(); }; extern template struct GENPYBIND(visible) S<int>; template struct S<int>;\n', []),
    'externtpl2': ('template <typename T> struct GENPYBIND(visible) S { T f(); }; extern template struct S<int>; extern template struct S<char>;\n', []),
    'memtplcls': ('struct GENPYBIND(visible) O { template <typename T> struct S { T f(); using A GENPYBIND(expose_here) = S<T *>; }; using B GENPYBIND(expose_here) = S<int>; };\n', []),
    'infinite': ('template <typename T> struct S { using A GENPYBIND(expose_here) = S<T *>; }; using B GENPYBIND(expose_here) = S<int>;\n', []),
    'infinite2': ('template <typename T> struct S { using A GENPYBIND(encourage) = S<T *>; }; template struct GENPYBIND(visible) S<int>;\n', []),
    'infinite3': ('template <int N> struct S { using A GENPYBIND(encourage) = S<N + 1>; }; using B GENPYBIND(visible) = S<0>;\n', []),
    'depdflt': ('template <typename T> struct S { int f(T t = T{}, T *p = nullptr, int n = sizeof(T), T q = T(3)); static T z(T t = S<T>{}.f()); }; template struct GENPYBIND(visible) S<int>;\n', []),
    'stdstring': ('#include <string>\n#include <vector>\n#include <map>\nGENPYBIND(visible) std::string f(std::string s = "x", std::vector<int> v = {1, 2}, std::map<std::string, std::vector<int>> m = {{"a", {1}}});\nusing V GENPYBIND(expose_here) = std::vector<int>;\n', []),
    'stdstring2': ('#include <string>\nusing V GENPYBIND(encourage) = std::string;\n', []),
}
ODD["longname"] = ("struct GENPYBIND(visible) " + "X" * 5000 + " { };\n", [])
ODD["deep"] = ("namespace n GENPYBIND(visible) { " + "".join("struct S%d { " % i for i in range(200)) + "}; " * 200 + "}\n", [])
ODD["annbig"] = ("struct GENPYBIND(visible, " + "keep_alive, " * 3000 + "visible) X {};\n", [])
ODD["annparen"] = ("struct GENPYBIND(" + "(" * 3000 + ") X {};\n", [])
ODD["manybase"] = ("".join("struct GENPYBIND(visible) B%d {};\n" % i for i in range(300)) + "struct GENPYBIND(visible) D : "
                   + ", ".join("B%d" % i for i in range(300)) + " {};\n", [])
ODD["chainbase"] = ("struct GENPYBIND(visible) B0 {};\n" + "".join(
    "struct GENPYBIND(visible, inline_base) B%d : B%d {};\n" % (i, i - 1) for i in range(1, 300)), [])
ODD["many"] = ("".join("struct GENPYBIND(visible) Many%d { enum class E%d { a, b }; struct In { int x = %d; }; };\n" % (i, i, i)
                       for i in range(70)), [])
ODD["manyns"] = ("".join("namespace many%d GENPYBIND(visible) { struct S%d { int x = 0; }; inline int f%d() { return 1; } }\n" % (i % 23, i, i)
                         for i in range(90)), [])
ODD["manymod"] = ("".join("namespace mod%d GENPYBIND(module) { struct S { struct T {}; }; enum E { e%d }; }\n" % (i, i)
                          for i in range(40)), [])


def insert(rng, h, p):
    """Some unusual declarations in between; returns the options they need."""
    if rng.random() >= p:
        return []
    text, flags = ODD[rng.choice(sorted(ODD))]
    h["blocks"].insert(rng.randrange(len(h["blocks"]) + 1), text)
    return list(flags)
