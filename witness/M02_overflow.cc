// M02: overflow-tracking, saturating and dividing arithmetic is exact.
#include "vp.h"
#include <limits>
#include "best/container/option.h"
#include "best/math/overflow.h"

template <class I> static best::overflow<I> anyof(const char* n, const char* f) {
  return best::overflow<I>(any<I>(n), any<bool>(f));
}

template <class A, class B> static void arith() {
  vp_no_crash(true);
  using C = best::common_int<A, B>;
  A av = any<A>("a"); B bv = any<B>("b");
  bool af = any<bool>("af"), bf = any<bool>("bf");
  best::overflow<A> a(av, af); best::overflow<B> b(bv, bf);
  C ca = (C)av, cb = (C)bv, e; bool of;
  of = __builtin_add_overflow(ca, cb, &e);
  auto s = a + b;
  static_assert(std::is_same_v<decltype(s), best::overflow<C>>);
  MUST(s.value == e && s.wrap() == e, "sum wraps");
  MUST(s.overflowed == (of || af || bf), "sum reports overflow exactly and is sticky");
  MUST(s.checked().has_value() == !s.overflowed, "checked is some iff no overflow");
  if (!s.overflowed) MUST(*s.checked() == e && s.strict() == e, "checked/strict keep the value");
  of = __builtin_sub_overflow(ca, cb, &e);
  auto d = a - b;
  MUST(d.value == e && d.overflowed == (of || af || bf), "difference");
  of = __builtin_mul_overflow(ca, cb, &e);
  auto m = a * b;
  MUST(m.value == e && m.overflowed == (of || af || bf), "product");
  // mixed with plain integers, compound assignment
  auto s2 = a + bv; MUST(s2.value == (C)((std::make_unsigned_t<C>)ca + (std::make_unsigned_t<C>)cb), "sum with a plain integer");
  auto s3 = av - b; of = __builtin_sub_overflow(ca, cb, &e); MUST(s3.value == e && s3.overflowed == (of || bf), "difference with a plain integer");
  if constexpr (std::is_same_v<A, B>) {
    best::overflow<A> t = a; t += b; MUST(t.value == s.value && t.overflowed == s.overflowed, "+=");
    t = a; t -= b; MUST(t.value == d.value && t.overflowed == d.overflowed, "-=");
    t = a; t *= bv; MUST(t.value == m.value && t.overflowed == (m.overflowed && (af || __builtin_mul_overflow(ca, cb, &e))), "*=");
  }
  // saturation
  of = __builtin_add_overflow(ca, cb, &e);
  C sa = best::saturating_add(av, bv);
  if (!of) MUST(sa == e, "saturating_add without overflow");
  else MUST(sa == (ca < 0 ? std::numeric_limits<C>::min() : std::numeric_limits<C>::max()), "saturating_add clamps to the nearer bound");
  of = __builtin_sub_overflow(ca, cb, &e);
  C ss = best::saturating_sub(av, bv);
  if (!of) MUST(ss == e, "saturating_sub without overflow");
  else MUST(ss == (std::is_unsigned_v<C> || ca < 0 ? std::numeric_limits<C>::min() : std::numeric_limits<C>::max()), "saturating_sub clamps to the nearer bound");
  of = __builtin_mul_overflow(ca, cb, &e);
  C sm = best::saturating_mul(av, bv);
  if (!of) MUST(sm == e, "saturating_mul without overflow");
  else MUST(sm == ((ca < 0) != (cb < 0) ? std::numeric_limits<C>::min() : std::numeric_limits<C>::max()), "saturating_mul clamps to the nearer bound");
  REACH("arith");
}
template <class A> static void conv1() {}
template <class I, class J> static void conv() {
  vp_no_crash(true);
  J j = any<J>("j"); bool f = any<bool>("f");
  best::overflow<I> r = best::overflow<J>(j, f);
  bool neg = j < 0;
  bool fits = neg ? (std::is_signed_v<I> && (int64_t)j >= (int64_t)std::numeric_limits<I>::min())
                  : (uint64_t)j <= (uint64_t)std::numeric_limits<I>::max();
  MUST(r.value == (I)j, "conversion wraps");
  MUST(r.overflowed == (f || !fits), "conversion records overflow exactly when the value does not fit");
  REACH("conv");
}
template <class A, class B> static void bits() {
  vp_no_crash(true);
  using C = best::common_int<A, B>;
  A av = any<A>("a"); B bv = any<B>("b");
  bool af = any<bool>("af"), bf = any<bool>("bf");
  best::overflow<A> a(av, af); best::overflow<B> b(bv, bf);
  auto x = a & b; MUST(x.value == (C)((C)av & (C)bv) && x.overflowed == (af || bf), "and");
  auto y = a | b; MUST(y.value == (C)((C)av | (C)bv) && y.overflowed == (af || bf), "or");
  auto z = a ^ b; MUST(z.value == (C)((C)av ^ (C)bv) && z.overflowed == (af || bf), "xor");
  auto n = ~a; MUST(n.value == (A)~av && n.overflowed == af, "complement");
  auto p = +a; MUST(p.value == av && p.overflowed == af, "plus");
  auto m = -a;
  using U = std::make_unsigned_t<A>;
  bool of = std::is_signed_v<A> ? av == std::numeric_limits<A>::min() : av != 0;
  MUST((U)m.value == (U)(0 - (U)av) && m.overflowed == (of || af), "negation overflows only on the minimum (signed) or a nonzero value (unsigned)");
  REACH("bits");
}
template <class A, class J> static void shift() {
  vp_no_crash(true);
  constexpr unsigned w = sizeof(A) * 8;
  A av = any<A>("a"); J n = any<J>("n");
  bool af = any<bool>("af"), nf = any<bool>("nf");
  bool big = n < 0 || (std::make_unsigned_t<J>)n >= w;
  auto l = best::overflow<A>(av, af) << best::overflow<J>(n, nf);
  auto r = best::overflow<A>(av, af) >> best::overflow<J>(n, nf);
  MUST(l.overflowed == (af || nf || big), "left shift overflows exactly on an oversized or negative amount");
  MUST(r.overflowed == (af || nf || big), "right shift overflows exactly on an oversized or negative amount");
  if (!vp_split(big)) {
    size_t k = vp_pick(0, w - 1);
    vp_assume((size_t)n == k);
    l = best::overflow<A>(av) << best::overflow<J>((J)k);
    r = best::overflow<A>(av) >> best::overflow<J>((J)k);
    MUST(l.value == (A)((std::make_unsigned_t<A>)av << k) && !l.overflowed, "left shift value");
    MUST(r.value == (A)(av >> k) && !r.overflowed, "right shift value");
    REACH("shift");
  }
}
template <class A, class B> static void divs() {
  vp_no_crash(true);
  using C = best::common_int<A, B>;
  A av = any<A>("a"); B bv = any<B>("b");
  vp_assume(bv != 0);
  bool af = any<bool>("af"), bf = any<bool>("bf");
  C ca = (C)av, cb = (C)bv;
  best::overflow<A> a(av, af); best::overflow<B> b(bv, bf);
  auto r = best::div(a, b);
  if (std::is_signed_v<C> && ca == std::numeric_limits<C>::min() && cb == (C)-1) {
    MUST(r.quot.overflowed && r.rem.overflowed && r.quot.value == ca, "minimum / -1 overflows");
    if constexpr (std::is_same_v<A, B>) MUST((a / b).overflowed && (a % b).overflowed, "minimum / -1 overflows");
    MUST(best::ceildiv(a, b).overflowed, "ceildiv(minimum, -1) overflows");
    REACH("min/-1");
    return;
  }
  MUST(r.quot.value == ca / cb && r.quot.overflowed == (af || bf), "quotient");
  MUST(r.rem.value == ca % cb && r.rem.overflowed == (af || bf), "remainder");
  if constexpr (std::is_same_v<A, B>) MUST((a / b).value == ca / cb && (a % b).value == ca % cb, "operator / and %");
  auto r2 = best::div(av, bv);
  MUST(r2.quot.value == ca / cb && r2.rem.value == ca % cb && !r2.quot.overflowed && !r2.rem.overflowed, "div of plain integers");
  REACH("div");
}
template <class A, class B> static void ceils() {
  // sign classes
  A av = any<A>("a"); B bv = any<B>("b");
  vp_no_crash(true);
  using C = best::common_int<A, B>;
  vp_assume(bv != 0);
  C ca = (C)av, cb = (C)bv;
  if (std::is_signed_v<C> && ca == std::numeric_limits<C>::min() && cb == (C)-1) return;
  auto c = best::ceildiv(best::overflow(av), best::overflow(bv));
  C q = ca / cb, r = ca % cb;
  bool up = r != 0 && ((r < 0) == (cb < 0));
  MUST(c.value == (C)(q + (up ? 1 : 0)), "ceildiv rounds towards positive infinity");
  if (!up) MUST(!c.overflowed, "ceildiv does not overflow");
  REACH("ceil");
}
template <class A> static void divzero() {
  A av = any<A>("a");
  switch (vp_pick(0, 3)) {
    case 0: MUST_CRASH(best::div(best::overflow(av), best::overflow(A(0))), "division by zero must crash"); break;
    case 1: MUST_CRASH(best::div(av, A(0)), "division by zero must crash"); break;
    case 2: MUST_CRASH(best::overflow(av) / A(0), "division by zero must crash"); break;
    case 3: MUST_CRASH(best::overflow(av) % A(0), "division by zero must crash"); break;
  }
}
template <class A> static void strict() {
  A av = any<A>("a");
  MUST_CRASH(best::overflow<A>(av, true).strict(), "strict() must crash on overflow");
}
#define AR(A, B) W(arith_##A##_##B) { arith<A, B>(); }
AR(int8_t, int8_t) AR(uint8_t, uint8_t) AR(int16_t, int16_t) AR(uint16_t, uint16_t) AR(int32_t, int32_t) AR(uint32_t, uint32_t) AR(int64_t, int64_t) AR(uint64_t, uint64_t)
AR(int32_t, uint32_t) AR(uint8_t, int32_t) AR(int8_t, int64_t) AR(int64_t, uint32_t) AR(uint64_t, int8_t)
#define CV(I, J) W(conv_##I##_##J) { conv<I, J>(); }
#define CVS(I) CV(I, int8_t) CV(I, uint8_t) CV(I, int16_t) CV(I, uint16_t) CV(I, int32_t) CV(I, uint32_t) CV(I, int64_t) CV(I, uint64_t)
CVS(int8_t) CVS(uint8_t) CVS(int16_t) CVS(uint16_t) CVS(int32_t) CVS(uint32_t) CVS(int64_t) CVS(uint64_t)
#define BT(A, B) W(bits_##A##_##B) { bits<A, B>(); }
BT(int32_t, int32_t) BT(uint32_t, uint32_t) BT(int64_t, int64_t) BT(uint64_t, uint64_t) BT(int32_t, uint64_t)
#define SH(A, B) W(shift_##A##_##B) { shift<A, B>(); }
SH(int32_t, int32_t) SH(uint32_t, uint32_t) SH(int64_t, uint32_t) SH(uint64_t, int64_t) SH(uint32_t, uint64_t) SH(int64_t, int32_t)
#define DV(A, B) W(div_##A##_##B) { divs<A, B>(); } W(ceil_##A##_##B) { ceils<A, B>(); }
DV(int32_t, int32_t) DV(uint32_t, uint32_t) DV(int64_t, int64_t) DV(uint64_t, uint64_t) DV(int32_t, int64_t) DV(uint32_t, int64_t)
#define DZ(A) W(divzero_##A) { divzero<A>(); } W(strict_##A) { strict<A>(); }
DZ(int32_t) DZ(uint32_t) DZ(int64_t) DZ(uint64_t)

template <class A, class B> static void equal() {
  vp_no_crash(true); A a = any<A>("a"); B b = any<B>("b"); bool af = any<bool>("af"), bf = any<bool>("bf"); best::overflow<A> x(a, af); best::overflow<B> y(b, bf);
  MUST((x == y) == (std::cmp_equal(a, b) && af == bf) && (x != y) == !(std::cmp_equal(a, b) && af == bf), "equal exactly when value and flag are");
  MUST((x == b) == (std::cmp_equal(a, b) && !af) && (x != b) == !(std::cmp_equal(a, b) && !af), "equals an integer exactly when it has that value without overflow"); REACH("done");
}
W(equal_i32) { equal<int32_t, int32_t>(); } W(equal_u64) { equal<uint64_t, uint64_t>(); } W(equal_mix) { equal<int32_t, int64_t>(); } W(equal_umix) { equal<uint8_t, uint32_t>(); }
CONTROL(add) {
  auto s = best::overflow(any<int32_t>("a")) + any<int32_t>("b");
  MUST(!s.overflowed, "control: sums overflow");
}
