// R01: a result is either ok or err, holding what was put in; every operation respects that.
#include "optsup.h"
#include "best/text/format.h"
using best::result; using best::ok; using best::err;
struct Rs { bool ok; int v; };
template <class T> constexpr bool vd = best::is_void<T>;
inline int val(long x) { return (int)x; }
template <class R> using OkT = typename R::ok_type;
template <class R> using ErT = typename R::err_type;
template <class R> static R make(Rs r) {
  bool f = vp_pick(0, 1);
  if (r.ok) { if constexpr (vd<OkT<R>>) return ok(); else { if (f) return ok(r.v); return R(best::index_t<0>{}, r.v); } }
  else { if constexpr (vd<ErT<R>>) return err(); else { if (f) return err(r.v); return R(best::index_t<1>{}, r.v); } }
}
static Rs pick(const char* n) { return Rs{(bool)vp_pick(0, 1), any<int>(n)}; }
template <class T, class E> static void is(const result<T, E>& x, Rs r) {
  MUST(x.is_ok() == r.ok && x.is_err() == !r.ok && (bool)x == r.ok, "ok exactly when it should be");
  MUST(x.ok().has_value() == r.ok && x.err().has_value() == !r.ok, "ok() and err() are present exactly when they should be");
  if (r.ok) { if constexpr (!vd<T>) { MUST(val(*x.ok()) == r.v && val(*x) == r.v && val(*x.operator->()) == r.v, "the value is the one put in"); MUST(&*x == x.ok().as_ptr(), "accessors designate the same object"); } REACH("ok"); }
  else { if constexpr (!vd<E>) MUST(val(*x.err()) == r.v, "the error is the one put in"); REACH("err"); }
}
template <class T, class E> static void basic() { clean([] {
  using R = result<T, E>; Rs r = pick("a"), q = pick("b"); R a = make<R>(r); is(a, r);
  switch (vp_pick(0, 6)) {
    case 0: { R b(a); is(b, r); break; }
    case 1: { R b(std::move(a)); is(b, r); return; }
    case 2: { R b = make<R>(q); a = b; is(b, q); r = q; break; }
    case 3: { R b = make<R>(q); a = std::move(b); r = q; break; }
    case 4: { auto& s = a; a = s; break; }
    case 5: a = make<R>(q); r = q; break;
    default: { R b = make<R>(q), t = std::move(a); a = std::move(b); b = std::move(t); is(b, r); r = q; break; }
  }
  is(a, r);
}); }
template <class T, class E> static void funct() { clean([] {
  using R = result<T, E>; Rs r = pick("a"); R a = make<R>(r); const R& ca = a; int n = 0; bool keep = vp_pick(0, 1);
  auto f = [&](auto&&... x) -> int { ++n; if constexpr (sizeof...(x)) { MUST(((val(x) == r.v) && ...), "the callback gets the value"); } return r.v ^ 5; };
  auto g = [&](auto&&... x) -> result<int, E> { ++n; if constexpr (sizeof...(x)) { MUST(((val(x) == r.v) && ...), "the callback gets the value"); } if (keep) return ok(r.v ^ 9); if constexpr (vd<E>) return err(); else return err(r.v ^ 3); };
  Rs m{r.ok, r.ok ? r.v ^ 5 : r.v}, me{r.ok, r.ok ? r.v : r.v ^ 5}, t = !r.ok ? r : keep ? Rs{true, r.v ^ 9} : Rs{false, r.v ^ 3};
  size_t form = vp_pick(0, 2);
  switch (vp_pick(0, 2)) {
    case 0: is(form == 0 ? a.map(f) : form == 1 ? ca.map(f) : std::move(a).map(f), m); MUST(n == r.ok, "called exactly once, on an ok value"); break;
    case 1: is(form == 0 ? a.map_err(f) : form == 1 ? ca.map_err(f) : std::move(a).map_err(f), me); MUST(n == !r.ok, "called exactly once, on an error"); break;
    default: is(form == 0 ? a.then(g) : form == 1 ? ca.then(g) : std::move(a).then(g), t); MUST(n == r.ok, "called exactly once, on an ok value"); break;
  }
  if (form != 2) is(a, r);
}); }
#define X(n, ...) W(basic_##n) { basic<__VA_ARGS__>(); } W(funct_##n) { funct<__VA_ARGS__>(); }
X(int, int, long) X(tracked, Tracked, Nich) X(owner, int, Owner) X(same, Tracked, Tracked) X(void, void, Nich) X(voide, Tracked, void) X(niche, Nich, void)
template <class T, class E> static void access() { clean([] {
  using R = result<T, E>; Rs r = pick("a"); R a = make<R>(r);
  if constexpr (!vd<T>) {
    MUST(std::move(a).ok().has_value() == r.ok, "ok()");
    if (r.ok) { T* p = a.ok().as_ptr(); MUST(&*a == p && a.operator->() == p, "accessors designate the value"); auto&& m = *std::move(a); MUST(&m == p && std::move(a).ok().as_ptr() == p, "accessors designate the value"); REACH("ok"); }
  }
  if constexpr (!vd<E>) { MUST(std::move(a).err().has_value() == !r.ok, "err()"); if (!r.ok) { MUST(std::move(a).err().as_ptr() == a.err().as_ptr(), "accessors designate the error"); REACH("err"); } }
  else { MUST(std::move(a).err().has_value() == !r.ok, "err()"); REACH("err"); }
  is(a, r);
}); }
W(access_int) { access<int, long>(); } W(access_tracked) { access<Tracked, Nich>(); } W(access_niche) { access<Nich, void>(); }
template <class T, class E> static void order() { clean([] {
  using R = result<T, E>; Rs r = pick("a"), q = pick("b"); R a = make<R>(r), b = make<R>(q);
  bool v = r.ok ? vd<T> : vd<E>;
  bool eq = r.ok == q.ok && (v || r.v == q.v), lt = r.ok != q.ok ? r.ok : !v && r.v < q.v;
  MUST((a == b) == eq && (a != b) == !eq, "equality");
  MUST((a < b) == lt && (a > b) == (!eq && !lt) && ((a <=> b) == 0) == eq, "ok results order before errors, then by value");
  REACH("done");
}); }
W(order_int) { order<int, long>(); } W(order_nich) { order<Nich, int>(); } W(order_void) { order<void, int>(); } W(order_voide) { order<Nich, void>(); }
struct Ec { int v; bool operator==(const Ec&) const = default; auto operator<=>(const Ec&) const = default; };
W(values) { clean([] {
  using R = result<int, Ec>; Rs r = pick("a"); R a = r.ok ? R(ok(r.v)) : R(err(Ec{r.v})); int y = any<int>("y");
  MUST((a == ok(y)) == (r.ok && r.v == y) && (a == err(Ec{y})) == (!r.ok && r.v == y), "equal to ok(x) or err(x) exactly when that is what it is");
  MUST((a == y) == (r.ok && r.v == y) && (a == Ec{y}) == (!r.ok && r.v == y), "equal to a value exactly when holding it");
  MUST((a == ok()) == r.ok && (a == err()) == !r.ok, "equal to ok() exactly when ok");
  REACH("done");
}); }
W(values_order) { clean([] {
  using R = result<int, Ec>; Rs r = pick("a"), q = pick("b"); R a = r.ok ? R(ok(r.v)) : R(err(Ec{r.v})), b = q.ok ? R(ok(q.v)) : R(err(Ec{q.v}));
  auto o = a <=> b;
  if (q.ok) MUST((a <=> ok(q.v)) == o && (a <=> q.v) == o, "comparing with a value is comparing with a result holding it");
  else MUST((a <=> err(Ec{q.v})) == o && (a <=> Ec{q.v}) == o, "comparing with a value is comparing with a result holding it");
  REACH("done");
}); }
struct Ef { int v; friend void BestFmt(auto& f, const Ef&) { f.write("e"); } };
W(deref_err) { result<int, Ef> a = err(Ef{any<int>("e")}); size_t f = vp_pick(0, 3); if (f == 0) (void)*a; else if (f == 1) (void)*std::as_const(a); else if (f == 2) (void)*std::move(a); else (void)a.operator->(); vp_violation("dereferencing an error goes through"); }
W(deref_err_void) { result<Nich, void> a = err(); size_t f = vp_pick(0, 2); if (f == 0) (void)*a; else if (f == 1) (void)*std::as_const(a); else (void)*std::move(a); vp_violation("dereferencing an error goes through"); }
W(convert) { clean([] {
  Rs r = pick("a"); auto a = make<result<int, int>>(r);
  result<long, Tracked> b = a; is(b, r); is(a, r);
  result<int&, int&> c = a; is(c, r); if (r.ok) MUST(&*c == &*a, "refers to the value"); else MUST(c.err().as_ptr() == a.err().as_ptr(), "refers to the error");
  auto d = make<result<long, Tracked>>(pick("d")); d = a; is(d, r); is(a, r);
}); }
struct Wrap { Tracked t; Wrap(const Tracked& t) : t(t) {} Wrap(Tracked&& t) : t(std::move(t)) {} };
inline int val(const Wrap& w) { return w.t.get(); }
W(convert_owned) { clean([] {
  Rs r = pick("a"); auto a = make<result<Tracked, Tracked>>(r);
  switch (vp_pick(0, 3)) {
    case 0: { result<Wrap, Wrap> b(a); is(b, r); is(a, r); break; }
    case 1: { result<Wrap, Wrap> b(std::move(a)); is(b, r); break; }
    case 2: { result<Wrap, Wrap> b(ok(Tracked(4))); b = a; is(b, r); is(a, r); break; }
    default: { result<Wrap, Wrap> b(err(Tracked(4))); b = std::move(a); is(b, r); break; }
  }
}); }
W(guard) { clean([] {
  Rs r = pick("a"); auto f = [&]() -> result<int, Tracked> { auto a = make<result<int, Nich>>(r); BEST_GUARD(a.map_err([](const Nich& n) { return val(n); })); return ok(val(*a) ^ 7); };
  is(f(), Rs{r.ok, r.ok ? r.v ^ 7 : r.v});
}); }
// Callbacks of an rvalue result may move the value out, and the other side is moved along.
W(category) { clean([] {
  using R = result<Tracked, Nich>; Rs r = pick("a"); R a = make<R>(r); const R& ca = a; size_t form = vp_pick(0, 3), op = vp_pick(0, 2); int n = 0;
  const void* at = r.ok ? (const void*)&*a.ok() : (const void*)&*a.err();
  auto see = [&]<class X>(X&& x) { ++n; MUST(std::is_lvalue_reference_v<X&&> == (form < 2) && std::is_const_v<std::remove_reference_t<X>> == (form % 2 == 1), "callbacks get the value with the category of the result"); MUST((const void*)&x == at, "callbacks get the value itself"); return 1; };
  auto run = [&](auto&& o) {
    if (op == 0) { auto m = BEST_FWD(o).map([&](auto&& x) { return see(BEST_FWD(x)); }); MUST(m.is_ok() == r.ok, "map keeps the side"); }
    else if (op == 1) { auto m = BEST_FWD(o).map_err([&](auto&& x) { return see(BEST_FWD(x)); }); MUST(m.is_ok() == r.ok, "map_err keeps the side"); }
    else { auto m = BEST_FWD(o).then([&](auto&& x) -> result<int, Nich> { return ok(see(BEST_FWD(x))); }); MUST(m.is_ok() == r.ok, "then keeps the side"); } };
  switch (form) { case 0: run(a); break; case 1: run(ca); break; case 2: run(std::move(a)); break; default: run(std::move(ca)); }
  bool called = r.ok != (op == 1); MUST(n == called, "called exactly once, on its side");
  is(a, {r.ok, form == 2 && !called ? -1 : r.v});
}); }
W(sides) { clean([] {
  using R = result<Tracked, Nich>; Rs r = pick("a"); R a = make<R>(r); const R& ca = a; const void* at = r.ok ? (const void*)&*a.ok() : (const void*)&*a.err();
  auto see = [&](auto&& o, auto&& e) { MUST(o.has_value() == r.ok && e.has_value() == !r.ok && (r.ok ? (const void*)o.as_ptr() : (const void*)e.as_ptr()) == at, "ok() and err() refer to the value, on its side"); };
  switch (vp_pick(0, 3)) { case 0: see(a.ok(), a.err()); break; case 1: see(ca.ok(), ca.err()); break; case 2: see(std::move(a).ok(), std::move(a).err()); break; default: see(std::move(ca).ok(), std::move(ca).err()); }
  if (r.ok) switch (vp_pick(0, 3)) { case 0: { auto&& x = *a; MUST(&x == at, "* is the value itself"); break; } case 1: { auto&& x = *ca; MUST(&x == at, "* is the value itself"); break; } case 2: { auto&& x = *std::move(a); MUST(&x == at, "* is the value itself"); break; } default: { auto&& x = *std::move(ca); MUST(&x == at, "* is the value itself"); } }
  is(a, r);
}); }
CONTROL(v) { result<int, int> a = ok(3); is(a, {true, any<int>("x")}); }
