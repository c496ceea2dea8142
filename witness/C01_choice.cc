// C01: a choice holds exactly one alternative; every operation reads, replaces and destroys that one.
#include "optsup.h"
using best::choice; using best::index_t;
template <size_t n> inline constexpr index_t<n> ix;
struct Ch { size_t w; int v; };
// A type that can be copied but not assigned.
struct Fixed { Tracked t; Fixed(int v) : t(v) {} Fixed(const Fixed&) = default; Fixed& operator=(const Fixed&) = delete; };
inline int val(const Fixed& f) { return f.t.get(); }
static Tracked* gref;  // what reference alternatives refer to
template <class C, size_t n> using At = typename C::template type<n>;
template <class C, size_t n> constexpr bool void_ = best::is_void<At<C, n>>;
inline int val(unsigned x) { return (int)x; }
template <class C, size_t n> static void put(C& c, int v) {
  if constexpr (best::is_void<At<C, n>>) c.emplace(ix<n>);
  else if constexpr (best::is_ref<At<C, n>>) c.emplace(ix<n>, *gref);
  else c.emplace(ix<n>, v);
}
template <class C, size_t n> static C make1(int v) {
  if constexpr (best::is_void<At<C, n>>) return C(ix<n>);
  else if constexpr (best::is_ref<At<C, n>>) return C(ix<n>, *gref);
  else return C(ix<n>, v);
}
// Calls f with the index_t of a chosen alternative.
template <class C, size_t n = 0, class F> static decltype(auto) each(size_t w, F f) {
  if constexpr (n + 1 < C::types.size()) { if (w == n) return f(ix<n>); return each<C, n + 1>(w, f); }
  else return f(ix<n>);
}
template <class C> static size_t N = C::types.size();
template <class C> static C make(Ch r) { return each<C>(r.w, [&](auto i) { return make1<C, i.value>(r.v); }); }
template <class C> static Ch pick(const char* n) { Ch r; r.w = vp_pick(0, C::types.size() - 1); r.v = any<int>(n); if (each<C>(r.w, [](auto i) { return best::is_ref<At<C, i.value>>; })) r.v = gref->v; return r; }
template <class C> static void is(const C& c, Ch r) {
  MUST(c.which() == r.w, "holds the alternative put in");
  [&]<size_t... i>(std::index_sequence<i...>) { ([&] {
    MUST(((c.as_ptr(ix<i>) != nullptr) == (r.w == i)) || (void_<C, i>), "as_ptr is null exactly for the other alternatives");
    MUST(c.at(ix<i>).has_value() == (r.w == i), "at is empty exactly for the other alternatives");
    MUST(c.object(ix<i>).has_value() == (r.w == i), "object is empty exactly for the other alternatives");
    if (r.w != i) return;
    if constexpr (!best::is_void<At<C, i>>) {
      MUST(val(c[ix<i>]) == r.v && val(*c.as_ptr(ix<i>)) == r.v && val(*c.at(ix<i>)) == r.v && val(c.at(best::unsafe("t"), ix<i>)) == r.v && val(**c.object(ix<i>)) == r.v, "the value is the one put in");
      if constexpr (best::is_ref<At<C, i>>) MUST(&c[ix<i>] == gref, "refers to the same object");
      else MUST(&c[ix<i>] == c.as_ptr(ix<i>) && &*c.at(ix<i>) == c.as_ptr(ix<i>), "all accessors designate the same object");
    }
    if (i == 0) REACH("first"); else REACH("other");
  }(), ...); }(std::make_index_sequence<C::types.size()>());
}
template <class F> static void with(F f) { Tracked t(any<int>("ref")); gref = &t; f(); vp_live_check(&t); }
#define ALL clean([] { with([] {
#define END }); });
template <class C> static void basic() { ALL
  Ch r = pick<C>("a"), q = pick<C>("b"); C a = make<C>(r); is(a, r);
  switch (vp_pick(0, 7)) {
    case 7: { auto& s = a; a = std::move(s); MUST(a.which() == r.w, "self-assignment keeps the alternative"); return; }
    case 0: each<C>(q.w, [&](auto i) { put<C, i.value>(a, q.v); }); r = q; break;
    case 1: { C b(a); is(b, r); each<C>(q.w, [&](auto i) { put<C, i.value>(b, q.v); }); is(b, q); break; }
    case 2: { C b(std::move(a)); is(b, r); return; }
    case 3: { C b = make<C>(q); a = b; is(b, q); r = q; break; }
    case 4: { C b = make<C>(q); a = std::move(b); r = q; break; }
    case 5: { auto& s = a; a = s; break; }
    default: { C b = make<C>(q); C t(std::move(a)); a = std::move(b); b = std::move(t); is(b, r); r = q; break; }
  }
  is(a, r);
END }
template <class C> static void matching() { ALL
  Ch r = pick<C>("a"); C a = make<C>(r); const C& ca = a; int n = 0;
  auto f = [&](auto i, auto&&... x) -> size_t { ++n; if constexpr (sizeof...(x)) MUST(((val(x) == r.v) && ...), "match passes the value"); return i.value; };
  auto g = [&](auto&&... x) -> int { ++n; if constexpr (sizeof...(x)) return (val(x), ...); else return r.v; };
  size_t w = 0;
  switch (vp_pick(0, 5)) {
    case 0: w = a.index_match(f); break; case 1: w = ca.index_match(f); break; case 2: w = std::move(a).index_match(f); break;
    case 3: MUST(a.match(g) == r.v, "match passes the value"); w = r.w; break; case 4: MUST(ca.match(g) == r.v, "match passes the value"); w = r.w; break;
    default: MUST(std::move(a).match(g) == r.v, "match passes the value"); w = r.w; break;
  }
  MUST(n == 1 && w == r.w, "match calls the callback of the current alternative, once");
  is(a, r);
END }
#define X(n, ...) using C_##n = choice<__VA_ARGS__>; W(basic_##n) { basic<C_##n>(); } W(matching_##n) { matching<C_##n>(); }
X(int, int) X(tracked, Tracked) X(two, Tracked, int) X(same, Nich, Nich) X(niche, Nich, void) X(niche2, void, Nich) X(owner, Owner, Tracked)
X(three, int, Tracked, Nich) X(four, Tracked, void, Owner, unsigned) X(ref, Tracked&, Nich) X(ref3, Owner, Tracked&, void) X(nref, Tracked&, void)
X(fixed, Fixed, Nich)
W(wrong) { C_three a = make<C_three>(Ch{(size_t)vp_pick(0, 2), 5}); size_t w = vp_pick(0, 2), form = vp_pick(0, 3); if (w == a.which()) return;
  each<C_three>(w, [&](auto i) { if (form == 0) (void)a[i]; else if (form == 1) (void)std::as_const(a)[i]; else if (form == 2) (void)std::move(std::as_const(a))[i]; else (void)std::move(a)[i]; });
  vp_violation("reading the wrong alternative goes through"); }
W(wrong_niche) { C_niche2 a(ix<0>); (void)a[ix<1>]; vp_violation("reading the wrong alternative goes through"); }
W(wrong_ref) { with([] { C_ref a(ix<1>, 3); (void)a[ix<0>]; vp_violation("reading the wrong alternative goes through"); }); }
template <class C> static void rvalue() { ALL
  Ch r = pick<C>("a"); C a = make<C>(r); size_t f = vp_pick(0, 7);
  each<C>(r.w, [&](auto i) { if constexpr (!best::is_void<At<C, i.value>>) {
    auto* p = a.as_ptr(i);
    if (f == 0) { auto&& x = std::move(a)[i]; MUST(&x == p, "designates the alternative"); }
    if (f == 1) { auto o = std::move(a).at(i); MUST(o.as_ptr() == p, "designates the alternative"); }
    if (f == 2) { auto o = std::move(a).object(i); MUST(o.has_value() && o->operator->() == p, "designates the alternative"); }
    if (f == 3) { auto&& x = std::move(a).at(best::unsafe("t"), i); MUST(&x == p, "designates the alternative"); }
    if (f == 5) { auto&& x = std::move(std::as_const(a))[i]; MUST(&x == p, "designates the alternative"); }
    if (f == 6) { auto&& x = std::move(std::as_const(a)).at(best::unsafe("t"), i); MUST(&x == p, "designates the alternative"); }
    if (f == 7) { auto o = std::move(std::as_const(a)).object(i); MUST(o.has_value() && o->operator->() == p, "designates the alternative"); }
    if (f == 4) { auto o = std::move(std::as_const(a)).at(i); MUST(o.as_ptr() == p, "designates the alternative"); }
  } });
  each<C>(vp_pick(0, C::types.size() - 1), [&](auto i) { if (i.value != r.w) { MUST(std::move(a).at(i).is_empty() && std::move(a).object(i).is_empty() && std::move(std::as_const(a)).object(i).is_empty() && std::move(std::as_const(a)).at(i).is_empty() && std::as_const(a).at(i).is_empty() && std::as_const(a).object(i).is_empty() && a.at(i).is_empty() && a.object(i).is_empty(), "none for the other alternatives"); REACH("other"); } });
  is(a, r); REACH("done");
END }
W(rvalue_two) { rvalue<C_two>(); } W(rvalue_niche) { rvalue<C_niche>(); } W(rvalue_four) { rvalue<C_four>(); } W(rvalue_ref) { rvalue<C_ref>(); }
template <class C> static void order() { ALL
  Ch r = pick<C>("a"), q = pick<C>("b"); C a = make<C>(r), b = make<C>(q);
  bool vd = each<C>(r.w, [](auto i) { return best::is_void<At<C, i.value>>; });
  bool eq = r.w == q.w && (vd || r.v == q.v), lt = r.w != q.w ? r.w < q.w : !vd && r.v < q.v;
  MUST((a == b) == eq && (a != b) == !eq, "equal exactly when alternative and value are");
  MUST((a < b) == lt && (a > b) == (!eq && !lt) && ((a <=> b) == 0) == eq, "ordered by alternative, then value");
  REACH("done"); is(a, r); is(b, q);
END }
using C_num = choice<int, void, Nich>; using C_num2 = choice<int, int>;
W(order_num) { order<C_num>(); } W(order_num2) { order<C_num2>(); } W(order_niche) { order<C_niche>(); } W(order_niche2) { order<C_niche2>(); } W(order_one) { order<choice<int>>(); }
W(permute) { ALL
  Ch r = pick<C_three>("a"); C_three a = make<C_three>(r); bool mv = vp_pick(0, 1);
  auto b = mv ? std::move(a).template permute<2, 0, 1>() : a.template permute<2, 0, 1>();
  static_assert(best::same<decltype(b), choice<Nich, int, Tracked>>);
  is(b, Ch{r.w == 2 ? 0 : r.w + 1, r.v}); if (!mv) is(a, r);
  auto c = b.template permute<1, 2, 0>(); is(c, r);
END }
W(convert) { ALL
  int x = any<int>("x"); Tracked t(x); choice<int*, Tracked, Nich&> a = t; MUST(a.which() == 1 && val(a[ix<1>]) == x && val(t) == x, "converts to the one alternative that fits"); int y = 4; choice<int*, Tracked> b = &y; MUST(b.which() == 0 && b[ix<0>] == &y, "converts to the one alternative that fits"); REACH("done");
END }
W(emplace_ref) { ALL Ch r = pick<C_four>("a"); C_four a = make<C_four>(r); int x = any<int>("x"); auto& e = a.emplace(ix<0>, x); MUST(&e == a.as_ptr(ix<0>), "emplace returns the new value"); is(a, {0, x}); END }
// Callbacks receive the alternative itself, as an lvalue or rvalue, const or not, as the choice is.
template <class C> static void category() { ALL
  Ch r = pick<C>("a"); C a = make<C>(r); const C& ca = a; size_t form = vp_pick(0, 3); int n = 0;
  auto see = [&]<class X>(size_t w, X&& x) { ++n; using U = std::remove_reference_t<X>;
    MUST(std::is_lvalue_reference_v<X&&> == (form < 2) && std::is_const_v<U> == (form % 2 == 1), "callbacks get the alternative with the category of the choice");
    MUST(w == ~size_t(0) || w == r.w, "the index is the alternative's"); MUST((size_t)&x >= (size_t)&a && (size_t)(&x + 1) <= (size_t)(&a + 1), "callbacks get the alternative itself"); };
  auto f = [&](auto i, auto&&... x) { (see(i.value, BEST_FWD(x)), ...); };
  auto g = [&](auto&&... x) { if constexpr ((!best::same<best::un_qual<decltype(x)>, best::empty> && ...)) (see(~size_t(0), BEST_FWD(x)), ...); };
  if (vp_pick(0, 1)) switch (form) { case 0: a.index_match(f); break; case 1: ca.index_match(f); break; case 2: std::move(a).index_match(f); break; default: std::move(ca).index_match(f); }
  else switch (form) { case 0: a.match(g); break; case 1: ca.match(g); break; case 2: std::move(a).match(g); break; default: std::move(ca).match(g); }
  MUST(n == !each<C>(r.w, [](auto i) { return void_<C, i.value>; }), "called once"); is(a, r); REACH("done");
END }
W(category_two) { category<C_two>(); } W(category_niche) { category<C_niche>(); } W(category_four) { category<C_four>(); }
W(permute_move) { ALL
  int x = any<int>("x"); C_two a(ix<0>, x); auto b = std::move(a).template permute<1, 0>(); MUST(b.which() == 1 && val(b[ix<1>]) == x && val(a[ix<0>]) == -1, "permuting an rvalue moves"); REACH("done");
END }
CONTROL(v) { clean([] { C_three a(ix<1>, 3); is(a, {1, any<int>("x")}); }); }
