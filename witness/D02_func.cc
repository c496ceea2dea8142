// D02: function wrappers call what they wrap: the right function, once, with the arguments given, on the object given.
#include "vecsup.h"
#include "best/container/option.h"
#include "best/func/call.h"
#include "best/func/arrow.h"
#include "best/func/defer.h"
#include "best/func/fnref.h"
#include "best/func/tap.h"
#define END() MUST(vp_live_count() == 0 && vp_heap_live() == 0, "every object is destroyed exactly once")
#define DONE REACH("done"); } END(); }
static int calls;
static int plus5(int x) { ++calls; return x ^ 5; }
static void nothing(int) { ++calls; }
static void on_ref(int& x) { ++calls; x ^= 3; }
static int by_val(Tracked t) { ++calls; return t.get() ^ 8; }
struct Fn { Tracked t; int n = 0; Fn(int v) : t(v) {} int operator()(int x) { ++n; return t.get() ^ x; } int operator()(int x) const { return t.get() ^ x ^ 1; } };
template <class F> static int via(F f, int x) { return f(x); }  // passes a temporary through a parameter
W(free) { vp_no_crash(true); { int x = any<int>("x"); best::fnref<int(int)> f = plus5; best::fnref<int(int) const> g = plus5; calls = 0; MUST(f(x) == (x ^ 5) && g(x) == (x ^ 5) && calls == 2, "a fnref calls its function"); best::fnref<int(int)> h = f; h = &plus5; MUST(h(x) == (x ^ 5) && via<best::fnref<int(int)>>(plus5, x) == (x ^ 5), "a fnref calls its function"); MUST(f && f != nullptr && h, "a fnref is null exactly if it has no function"); f = nullptr; best::fnref<int(int)> n = nullptr; MUST(!f && f == nullptr && !n && n == nullptr && g, "a fnref is null exactly if it has no function"); best::fnref<void(int&)> r = on_ref; int y = x; r(y); MUST(y == (x ^ 3), "arguments are passed on"); DONE
W(closure) { vp_no_crash(true); { int x = any<int>("x"); best::fnref<int(int)> f = [](int x) { ++calls; return x ^ 7; }; best::fnref<int(int) const> g = [](int x) { ++calls; return x ^ 7; }; calls = 0; MUST(f(x) == (x ^ 7) && g(x) == (x ^ 7) && calls == 2, "a fnref calls its closure"); MUST((via<best::fnref<int(int)>>([](int x) { return x ^ 9; }, x) == (x ^ 9)), "a fnref calls its closure"); best::fnref<void(int&)> r = [](int& y) { y ^= 3; }; int y = x; r(y); MUST(y == (x ^ 3), "arguments are passed on"); DONE
// Closures and functions of another type.
W(convert) { vp_no_crash(true); { int x = any<int>("x"); MUST((via<best::fnref<int(int)>>([](long x) { return x ^ 9; }, x) == (x ^ 9)), "a fnref calls its closure"); MUST((via<best::fnref<int(int) const>>([](long x) { return x ^ 9; }, x) == (x ^ 9)), "a fnref calls its closure"); auto c = [](long x) -> long { ++calls; return x ^ 11; }; best::fnref<int(int)> f = c; MUST(f(x) == (x ^ 11), "a fnref calls its closure"); const auto k = [](auto x) { return x ^ 12; }; best::fnref<int(int) const> g = k; MUST(g(x) == (x ^ 12), "a fnref calls its closure"); DONE
W(discard) { vp_no_crash(true); { int x = any<int>("x"); auto run = [](best::fnref<void(int)> f, int x) { f(x); }; calls = 0; run([](int x) { ++calls; return x; }, x); run([](int) { ++calls; }, x); run(nothing, x); int s = 0; run([&](int x) { s = x; return x; }, x); MUST(calls == 3 && s == x, "a fnref discards the result of its function if told to"); DONE
W(capture) { vp_no_crash(true); { int x = any<int>("x"), v = any<int>("v"); Fn o(v); best::fnref<int(int)> f = o; MUST(f(x) == (v ^ x) && f(x) == (v ^ x) && o.n == 2, "a fnref calls the object it refers to"); best::fnref<int(int) const> g = o; MUST(g(x) == (v ^ x ^ 1) && o.n == 2, "a const fnref calls it as const"); best::fnref<int(int)> c = f; f = nullptr; MUST(c(x) == (v ^ x) && o.n == 3, "copies of a fnref refer to the same object"); Tracked t(v); auto m = [&, y = 0](int z) mutable { y ^= z; return t.get() ^ y; }; best::fnref<int(int)> q = m; MUST(q(x) == (v ^ x) && q(x) == v, "a fnref calls the object it refers to"); MUST((via<best::fnref<int(int)>>([&](int z) { return t.get() ^ z; }, x) == (v ^ x)), "a fnref calls the object it refers to"); DONE
W(args) { vp_no_crash(true); { int v = any<int>("v"), x = any<int>("x"); best::fnref<int(Tracked)> f = by_val; Tracked t(v); MUST(f(t) == (v ^ 8) && f(Tracked(x)) == (x ^ 8), "arguments are passed on"); best::fnref<int(Owner&&, const Owner&, int*)> g = [](Owner&& a, const Owner& b, int* p) { Owner c(std::move(a)); *p = b.get(); return c.get(); }; Owner a(v), b(x); int y = 0; MUST(g(std::move(a), b, &y) == v && y == x && b.get() == x && a.p == nullptr, "arguments are passed on"); best::fnref<Owner()> h = [&] { return Owner(v); }; auto k = [&]() -> Owner& { return b; }; best::fnref<Owner&()> l = k; MUST(&l() == &b, "results are passed on"); auto mk = [&] { return Owner(x); }; h = mk; MUST(h().get() == x, "results are passed on"); DONE
W(bound) { vp_no_crash(true); { int v = any<int>("v"), x = any<int>("x"); Tracked t(v); using F = best::fnref<int(int) const>; F::fnptr p = [](const Tracked& s, int x) { return s.get() ^ x; }; F f(best::unsafe("t"), &t, p); using G = best::fnref<void(int)>; G g(best::unsafe("t"), &t, [](Tracked& s, int x) { s = Tracked(x); }); MUST(f(x) == (v ^ x), "a bound fnref calls its function with its object"); g(x); MUST(t.get() == x, "a bound fnref calls its function with its object"); using H = best::fnref<Tracked&()>; H h(best::unsafe("t"), &t, [](Tracked& s) -> Tracked& { return s; }); MUST(&h() == &t, "a bound fnref calls its function with its object"); MUST(p && p != nullptr, "a fnptr is null exactly if it has no function"); F::fnptr n; MUST(!n && n == nullptr, "a fnptr is null exactly if it has no function"); DONE
// defer
W(defer) { vp_no_crash(true); { int n = 0, at = 0; size_t how = vp_pick(0, 5); { Tracked t(any<int>("v")); best::defer d = [&] { ++n; at = t.get(); }; if (how == 1) d.cancel(); if (how == 2) d.run(); if (how == 3) { d.run(); d.run(); d.cancel(); } if (how == 4) { d.cancel(); d.run(); } if (how == 5) { auto f = [&] { ++n; }; best::defer e(best::bind, f); MUST(n == 0, "a defer waits for the end of its scope"); } MUST(n == (how == 2 || how == 3 || how == 5), "a defer waits for the end of its scope"); } MUST(n == (how == 1 || how == 4 ? 0 : how == 5 ? 2 : 1), "a defer runs once, unless cancelled"); (void)at; DONE
W(defer_own) { vp_no_crash(true); { int v = any<int>("v"), n = 0; { Owner o(v); best::defer d = [&n, o = std::move(o)] { n = o.get(); }; MUST(o.p == nullptr, "a defer owns its closure"); { best::defer e = [&] { n = 1; }; } MUST(n == 1, "a defer waits for the end of its scope"); } MUST(n == v, "a defer owns its closure"); auto mk = [&] { return best::defer([&] { n = 2; }); }; { auto d = mk(); MUST(n == v, "a defer waits for the end of its scope"); } MUST(n == 2, "a defer runs once, unless cancelled"); DONE
static_assert(!std::is_copy_constructible_v<decltype(best::defer([] {}))> && !std::is_copy_assignable_v<decltype(best::defer([] {}))>, "a defer runs once");
// tap
struct X { int x; Tracked t; X(int v) : x(v), t(v) {} int operator()(int y) const { return x ^ y; } int operator[](int y) const { return x ^ y ^ 64; } };
W(tap) { vp_no_crash(true); { int v = any<int>("v"), y = any<int>("y"), n = 0; X x(v); best::tap id = [&](auto&& a) -> decltype(auto) { ++n; return BEST_FWD(a); }; MUST(&(x->*id) == &x && n == 1, "a tap calls its function"); const auto& cid = id; MUST(&(x->*cid) == &x && &(x->*std::move(id)) == &x && n == 3, "a tap calls its function"); best::tap dbl = [](auto&& a) { return a.x ^ 7; }; MUST((X(v)->*dbl) == (v ^ 7) && (x->*best::tap([](const X& a) { return a.t.get(); })) == v, "a tap calls its function"); auto f = [&, k = 0](X& a) mutable { k = a.x ^ k; return k; }; best::tap b(best::bind, f); MUST((x->*b) == v && (x->*best::tap(best::bind, f)) == 0 && (x->*std::move(b)) == v && f(x) == 0, "a bound tap calls the function itself"); (void)y; DONE
W(tap_call) { vp_no_crash(true); { int v = any<int>("v"), y = any<int>("y"); X x(v); best::tap id = [](auto&& a) -> decltype(auto) { return BEST_FWD(a); }; const auto& cid = id; MUST((x->*id(y)) == (v ^ y) && (x->*cid(y)) == (v ^ y) && (x->*best::tap([](const X& a) -> const X& { return a; })(y)) == (v ^ y) && (X(v)->*id(y)) == (v ^ y), "calling a tap calls its result with the arguments"); MUST((x->*id[y]) == (v ^ y ^ 64) && (x->*cid[y]) == (v ^ y ^ 64) && (x->*best::tap([](const X& a) -> const X& { return a; })[y]) == (v ^ y ^ 64) && (x->*std::move(cid)[y]) == (v ^ y ^ 64) && (x->*std::move(cid)(y)) == (v ^ y), "indexing a tap indexes its result"); best::tap two = [](auto&& a) { return [&](int p, Tracked q) { return a.x ^ p ^ q.get(); }; }; int z = any<int>("z"); MUST((x->*two(y, Tracked(z))) == (v ^ y ^ z), "calling a tap calls its result with the arguments"); DONE
W(inspect) { vp_no_crash(true); { int v = any<int>("v"), n = 0; X x(v); auto f = [&](X& a) { ++n; a.x ^= 5; return 99; }; MUST(&(x->*best::inspect(f)) == &x && n == 1 && x.x == (v ^ 5), "inspect() returns its argument"); MUST(&(x->*best::inspect(best::bind, f)) == &x && n == 2 && x.x == v, "inspect() returns its argument"); const X& k = x; MUST(&(k->*best::inspect([&](const X& a) { n = a.x; })) == &k && n == v, "inspect() returns its argument"); MUST((X(v)->*best::inspect([&](auto&& a) { n = a.x ^ 1; })).t.get() == v && n == (v ^ 1), "inspect() returns its argument"); DONE
// call and arrow
struct M { int f; Tracked t; M(int v) : f(v), t(v) {} int m(int x) { f = x; return 1; } int c(int x) const { return f ^ x; } Tracked mv() && { return std::move(t); } template <class T> T operator()(T x) const { return x ^ f; } };
template <int k> struct K { }; struct KK { template <auto k> int operator()(int x) const { return x ^ k; } };
W(call) { vp_no_crash(true); { int v = any<int>("v"), x = any<int>("x"); M m(v); const M& k = m; MUST(&best::call(&M::f, m) == &m.f && &best::call(&M::f, &m) == &m.f && &best::call(&M::t, k) == &k.t && best::call(&M::f, M(v)) == v, "calling a member pointer designates the member"); MUST(best::call(&M::c, m, x) == (v ^ x) && best::call(&M::c, &k, x) == (v ^ x), "calling a member function pointer calls it"); MUST(best::call(&M::m, m, x) == 1 && m.f == x && best::call(&M::m, &m, v) == 1 && m.f == v, "calling a member function pointer calls it"); { M o(v); Tracked t = best::call(&M::mv, std::move(o)); MUST(t.get() == v, "calling a member function pointer calls it"); } MUST(best::call<int>(m, x) == (v ^ x) && best::call<3>(KK{}, x) == (x ^ 3) && best::call(plus5, x) == (x ^ 5), "template arguments are passed on"); static_assert(best::is_void<decltype(best::call())>); MUST(best::call_devoid(plus5, x) == (x ^ 5), "call_devoid() passes results on"); auto e = best::call_devoid(nothing, x); static_assert(std::is_same_v<decltype(e), best::empty>); Owner o(v); auto&& r = best::call_devoid([&](Owner& p) -> Owner& { return p; }, o); MUST(&r == &o, "call_devoid() passes results on"); MUST(BEST_CALLABLE(plus5)(x) == (x ^ 5), "BEST_CALLABLE() calls what it names"); DONE
struct View { Tracked t; View(int v) : t(v) {} Tracked* operator->() { return &t; } };
struct Has { int v; auto operator->() const { return best::arrow<Tracked>(v); } };
struct Deep { int v; auto operator->() const { return best::arrow<View>(View(v)); } };
W(arrow) { vp_no_crash(true); { int v = any<int>("v"); Has h{v}; MUST(h->get() == v, "an arrow designates its value"); Deep d{v}; MUST(d->get() == v, "an arrow follows its value's operator->"); Tracked t(v); Tracked* p = &t; MUST(best::deref_arrow(p) == p, "deref_arrow() ends at a raw pointer"); MUST((best::arrow([](int x) { return x ^ 5; })(v) == (v ^ 5)), "calling an arrow calls its value"); DONE
W(devoid) { vp_no_crash(true); { int x = any<int>("x"), y = 0, n = 0; Tracked t(x); auto v = [&](int a) { y = a; ++n; }; auto r = [&](Tracked& a) -> Tracked& { ++n; return a; };
  static_assert(best::same<decltype(best::call_devoid(v, x)), best::empty>); (void)best::call_devoid(v, x); MUST(y == x && n == 1, "call_devoid() calls a void function, once"); MUST(&best::call_devoid(r, t) == &t && n == 2, "call_devoid() returns what the function does");
  KK kk; MUST(best::call_devoid<3>(kk, x) == (x ^ 3), "call_devoid() passes template arguments"); REACH("devoid"); } END(); }
struct Once { Owner o; int operator()(int x) && { Owner p(std::move(o)); return p.get() ^ x; } int operator()(int x) & { return o.get() ^ x ^ 1; } int operator()(int x) const& { return o.get() ^ x ^ 2; } };
W(tap_category) { vp_no_crash(true); { int v = any<int>("v"), x = any<int>("x"); best::tap t{Once{Owner(v)}}; const auto& c = t; MUST((x->*t) == (v ^ x ^ 1), "a tap calls its function as an lvalue"); MUST((x->*c) == (v ^ x ^ 2), "a const tap calls its function as const"); MUST((x->*std::move(t)) == (v ^ x), "an rvalue tap calls its function as an rvalue"); REACH("done"); } END(); }
CONTROL(defer) { int n = 0; { best::defer d = [&] { ++n; }; d.run(); } MUST(n == 2, "control"); }
