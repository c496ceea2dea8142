// S02: rearranging, filling, taking apart and iterating over spans.
#include "vecsup.h"
#include "best/container/option.h"
#include "best/container/row.h"
#include "best/memory/span.h"
#include "best/memory/span_sort.h"

template <class T, size_t N> struct Arr {
  alignas(T) char raw[sizeof(T) * (N ? N : 1)]; int v[N ? N : 1]; size_t n; bool alive = true;
  Arr(size_t n, const char* nm) : n(n) { for (size_t i = 0; i < n; ++i) { v[i] = elem<T>(nm); new (p() + i) T(v[i]); } }
  ~Arr() { if (alive) for (size_t i = 0; i < n; ++i) p()[i].~T(); }
  T* p() { return (T*)raw; }
  best::span<T> s() { return best::span<T>(p(), n); }
  void same(const char* m) { for (size_t i = 0; i < n; ++i) MUST(val(p()[i]) == v[i], m); }
};
#define DONE() MUST(vp_heap_live() == 0 && vp_live_count() == 0, "every object is destroyed exactly once")

template <class T> static void swap_() {
  { Arr<T, 4> a(vp_pick(0, 4), "a"); size_t i = any<size_t>("i"), j = any<size_t>("j"); bool ok = i < a.n && j < a.n; vp_no_crash(ok);
    a.s().swap(i, j); MUST(ok, "swapping elements out of range crashes"); for (size_t k = 0; k < a.n; ++k) MUST(val(a.p()[k]) == (k == i ? a.v[j] : k == j ? a.v[i] : a.v[k]), "swap() exchanges two elements and no others"); REACH("done"); } DONE();
}
template <class T> static void reverse() {
  vp_no_crash(true); { Arr<T, 6> a(vp_pick(0, 6), "a"); a.s().reverse(); for (size_t k = 0; k < a.n; ++k) MUST(val(a.p()[k]) == a.v[a.n - 1 - k], "reverse() reverses the order"); REACH("done"); } DONE();
}
template <class T, bool emplace> static void copy() {
  vp_no_crash(true); { Arr<T, 4> a(vp_pick(0, 4), "a"), b(vp_pick(0, 4), "b"); size_t m = a.n < b.n ? a.n : b.n;
    if (emplace) { for (size_t i = 0; i < a.n; ++i) a.p()[i].~T(); a.s().emplace_from(best::span<const T>(b.p(), b.n)); for (size_t i = m; i < a.n; ++i) new (a.p() + i) T(a.v[i]); }
    else a.s().copy_from(best::span<const T>(b.p(), b.n));
    for (size_t k = 0; k < a.n; ++k) MUST(val(a.p()[k]) == (k < m ? b.v[k] : a.v[k]), "exactly the common length is copied, in order"); b.same("copying leaves the source alone"); if (m) REACH("some"); else REACH("none"); } DONE();
}
template <class T> static void destroy() {
  vp_no_crash(true); { Arr<T, 3> a(vp_pick(0, 3), "a"); a.alive = false; a.s().destroy(); REACH("done"); } DONE();
}
// A slice must denote exactly [b, b+k) of the array.
#define IS(sp, a, b, k, msg) do { auto&& s_ = (sp); MUST(s_.size() == size_t(k) && s_.data().raw() == (a).p() + (b), msg); } while (0)
template <class T> static void split_at() {
  vp_no_crash(true); { Arr<T, 4> a(vp_pick(0, 4), "a"); size_t i = any<size_t>("i"); auto r = a.s().split_at(i); MUST(r.has_value() == (i <= a.n), "split_at() succeeds exactly within the span");
    if (r) { IS((*r)[0], a, 0, i, "the first part ends at the index"); IS((*r)[1], a, i, a.n - i, "the second part starts at the index"); REACH("some"); } else REACH("none"); } DONE();
}
template <class T> static void take() {
  vp_no_crash(true); { Arr<T, 4> a(vp_pick(0, 4), "a"); size_t i = any<size_t>("i"); bool front = vp_split(vp_pick(0, 1)); auto s = a.s(); auto r = front ? s.take_first(i) : s.take_last(i); MUST(r.has_value() == (i <= a.n), "taking succeeds exactly if there are enough elements");
    if (r) { if (front) { IS(*r, a, 0, i, "take_first() yields the first elements"); IS(s, a, i, a.n - i, "take_first() leaves the rest"); } else { IS(*r, a, a.n - i, i, "take_last() yields the last elements"); IS(s, a, 0, a.n - i, "take_last() leaves the rest"); } REACH("some"); } else { IS(s, a, 0, a.n, "a failed take changes nothing"); REACH("none"); } } DONE();
}
template <class T, size_t M> static void ends() {
  vp_no_crash(true); { Arr<T, 4> a(vp_pick(0, 4), "a"); auto s = a.s();
    auto f = s.first(); auto l = s.last(); MUST(f.has_value() == (a.n > 0) && l.has_value() == (a.n > 0), "first() and last() are none exactly for an empty span"); if (f) MUST(best::addr(*f) == a.p() && best::addr(*l) == a.p() + a.n - 1, "first() and last() are the outermost elements");
    auto sf = s.split_first(); auto sl = s.split_last(); MUST(sf.has_value() == (a.n > 0) && sl.has_value() == (a.n > 0), "split_first() and split_last() are none exactly for an empty span");
    if (sf) { MUST(best::addr(sf->first()) == a.p(), "split_first() yields the first element"); IS(sf->second(), a, 1, a.n - 1, "split_first() yields the rest"); MUST(best::addr(sl->first()) == a.p() + a.n - 1, "split_last() yields the last element"); IS(sl->second(), a, 0, a.n - 1, "split_last() yields the rest"); }
    bool ok = M <= a.n; auto fm = s.first(best::index<M>); auto lm = s.last(best::index<M>); MUST(fm.has_value() == ok && lm.has_value() == ok, "first(n) and last(n) succeed exactly if there are n elements"); if (ok) { IS(*fm, a, 0, M, "first(n)"); IS(*lm, a, a.n - M, M, "last(n)"); }
    auto pf = s.split_first(best::index<M>); auto pl = s.split_last(best::index<M>); MUST(pf.has_value() == ok && pl.has_value() == ok, "split_first(n) and split_last(n) succeed exactly if there are n elements");
    if (ok) { IS(pf->first(), a, 0, M, "split_first(n)"); IS(pf->second(), a, M, a.n - M, "split_first(n), rest"); IS(pl->first(), a, a.n - M, M, "split_last(n)"); IS(pl->second(), a, 0, a.n - M, "split_last(n), rest"); REACH("some"); } else REACH("none"); } DONE();
}
template <class T> static void statics() {
  vp_no_crash(true); { Arr<T, 4> a(4, "a"); best::span<T, 4> s(a.p(), 4); MUST(best::addr(*s.first()) == a.p() && best::addr(*s.last()) == a.p() + 3, "ends of a static span");
    auto sf = s.split_first(); IS(sf->second(), a, 1, 3, "split_first() of a static span"); auto sl = s.split_last(); IS(sl->second(), a, 0, 3, "split_last() of a static span"); MUST(best::addr(sl->first()) == a.p() + 3, "split_last() of a static span");
    auto pf = s.split_first(best::index<3>); IS(pf->first(), a, 0, 3, "split_first(n) of a static span"); IS(pf->second(), a, 3, 1, "split_first(n) of a static span"); auto pl = s.split_last(best::index<3>); IS(pl->first(), a, 1, 3, "split_last(n) of a static span"); IS(pl->second(), a, 0, 1, "split_last(n) of a static span");
    size_t i = any<size_t>("i"); auto r = s.split_at(i); MUST(r.has_value() == (i <= 4), "split_at() of a static span"); if (r) { IS((*r)[0], a, 0, i, "split_at() of a static span"); IS((*r)[1], a, i, 4 - i, "split_at() of a static span"); }
    s.reverse(); for (size_t k = 0; k < 4; ++k) MUST(val(a.p()[k]) == a.v[3 - k], "reverse() of a static span"); REACH("done"); } DONE();
}
// Iteration from both ends in any interleaving, and the derived operations.
template <class T> static void iter() {
  vp_no_crash(true); { Arr<T, 4> a(vp_pick(0, 4), "a"); auto it = a.s().iter(); size_t lo = 0, hi = a.n;
    for (size_t k = 0; k <= a.n; ++k) { auto h = it.size_hint(); MUST(h.lower == hi - lo && h.upper == hi - lo, "the size hint is exact"); IS(it->rest(), a, lo, hi - lo, "rest() is what has not been yielded");
      bool f = vp_split(vp_pick(0, 1)); auto x = f ? it.next() : it.next_back(); MUST(x.has_value() == (lo < hi), "iteration ends when all elements have been yielded"); if (x) { MUST(best::addr(*x) == a.p() + (f ? lo : hi - 1), "elements are yielded in order"); f ? ++lo : --hi; } }
    REACH("done"); } DONE();
}
template <class T> static void iter2() {
  vp_no_crash(true); { Arr<T, 4> a(vp_pick(0, 4), "a"); auto s = a.s(); size_t i = 0; for (auto& x : s) { MUST(best::addr(x) == a.p() + i, "a range-for visits the elements in order"); ++i; } MUST(i == a.n, "a range-for visits every element");
    for (auto& x : s.iter().rev()) { --i; MUST(best::addr(x) == a.p() + i, "rev() visits the elements in reverse"); } MUST(i == 0, "rev() visits every element");
    for (auto [k, x] : s.iter().enumerate()) { MUST(size_t(k) == i && best::addr(x) == a.p() + i, "enumerate() counts the elements"); ++i; } MUST(i == a.n, "enumerate() visits every element");
    MUST(s.iter().count() == a.n, "count() is the number of elements"); auto l = s.iter().last(); MUST(l.has_value() == (a.n > 0), "last() of an iterator"); if (l) MUST(best::addr(*l) == a.p() + a.n - 1, "last() of an iterator"); REACH("done"); } DONE();
}
template <class C> static void nul() {
  vp_no_crash(true); C c[4]; vp_bytes(c, sizeof c, "c"); c[3] = 0; size_t n = 0; while (c[n] != 0) ++n; best::span<const C> s = best::span<const C>::from_nul(c); MUST(s.size() == n && s.data().raw() == c, "from_nul() ends at the first zero"); auto z = best::span<const C>::from_nul(nullptr); MUST(z.is_empty(), "from_nul(nullptr) is empty"); REACH("done");
}
// Sorting: a permutation (tags, distinct) in order; stable sorts keep equal elements in order.
struct KV { int k, tag; best::ord operator<=>(const KV& o) const { return k <=> o.k; } bool operator==(const KV& o) const { return k == o.k; } };
enum How { NATURAL, KEY, CMP };
template <How how, bool stable, size_t N, bool down = false> static void sort() {
  vp_no_crash(true); { KV a[N]; int k[N]; size_t n = N; for (size_t i = 0; i < n; ++i) { k[i] = any<int>("k"); a[i] = {k[i], int(i)}; } best::span<KV> s(a, n); auto key = [](const KV& x) -> const int& { return x.k; }; auto cmp = [](const KV& x, const KV& y) -> best::partial_ord { return down ? y.k <=> x.k : x.k <=> y.k; };
    if constexpr (how == NATURAL) { if (stable) s.stable_sort(); else s.sort(); } else if constexpr (how == KEY) { if (stable) s.stable_sort(key); else s.sort(key); } else { if (stable) s.stable_sort(cmp); else s.sort(cmp); }
    bool seen[N] = {}; for (size_t i = 0; i < n; ++i) { size_t t = a[i].tag; MUST(t < n && !seen[t], "sorting permutes the elements"); seen[t] = true; MUST(a[i].k == k[t], "sorting changes no element"); if (i) { MUST(down ? a[i - 1].k >= a[i].k : a[i - 1].k <= a[i].k, "the elements are in order"); if (stable) MUST(a[i - 1].k != a[i].k || a[i - 1].tag < a[i].tag, "a stable sort keeps equal elements in order"); } }
    REACH("done"); } MUST(vp_heap_live() == 0, "sorting leaves no memory behind");
}
// Longer inputs, made of two keys in some pattern: the algorithms take other branches.
template <How how, bool stable, size_t N> static void big() {
  vp_no_crash(true); { KV a[N]; int x[2] = {any<int>("x"), any<int>("y")}, k[N]; size_t pat = vp_pick(0, 3); for (size_t i = 0; i < N; ++i) { k[i] = x[pat == 0 ? i % 2 : pat == 1 ? i / 3 % 2 : pat == 2 ? i < N / 2 : i * i % 7 < 3]; a[i] = {k[i], int(i)}; } best::span<KV> s(a, N); auto key = [](const KV& x) -> const int& { return x.k; }; auto cmp = [](const KV& x, const KV& y) -> best::partial_ord { return x.k <=> y.k; };
    if constexpr (how == NATURAL) { if (stable) s.stable_sort(); else s.sort(); } else if constexpr (how == KEY) { if (stable) s.stable_sort(key); else s.sort(key); } else { if (stable) s.stable_sort(cmp); else s.sort(cmp); }
    bool seen[N] = {}; for (size_t i = 0; i < N; ++i) { size_t t = a[i].tag; MUST(t < N && !seen[t], "sorting permutes the elements"); seen[t] = true; MUST(a[i].k == k[t], "sorting changes no element"); if (i) { MUST(a[i - 1].k <= a[i].k, "the elements are in order"); if (stable) MUST(a[i - 1].k != a[i].k || a[i - 1].tag < a[i].tag, "a stable sort keeps equal elements in order"); } }
    REACH("done"); } MUST(vp_heap_live() == 0, "sorting leaves no memory behind");
}
// Binary search by value, key or comparison.
template <How how> static void bisect() {
  vp_no_crash(true); KV a[5]; size_t n = vp_pick(0, 5); for (size_t i = 0; i < n; ++i) { a[i] = {any<int>("k"), int(i)}; if (i) vp_assume(a[i - 1].k <= a[i].k); } int q = any<int>("q"); best::span<const KV> s(a, n);
  auto r = [&] { if constexpr (how == NATURAL) return s.bisect(KV{q, 0}); else if constexpr (how == KEY) return s.bisect(q, [](const KV& x) -> const int& { return x.k; }); else return s.bisect([&](const KV& x) -> best::partial_ord { return x.k <=> q; }); }();
  bool in = false; for (size_t i = 0; i < n; ++i) in = in || a[i].k == q; MUST(bool(r) == in, "bisect() finds an element exactly if it is there");
  if (r) { size_t i = *r.ok(); MUST(i < n && a[i].k == q, "bisect() yields the position of an equal element"); REACH("found"); } else { size_t i = *r.err(); MUST(i <= n, "bisect() yields an insertion point"); for (size_t j = 0; j < n; ++j) MUST(j < i ? a[j].k < q : a[j].k > q, "inserting there keeps the order"); REACH("absent"); }
}
#define ALL(f) W(f##_int) { f<int>(); } W(f##_tracked) { f<Tracked>(); } W(f##_owner) { f<Owner>(); }
ALL(swap_) ALL(reverse) ALL(destroy) ALL(split_at) ALL(take) ALL(statics) ALL(iter) ALL(iter2)
W(copy_int) { copy<int, false>(); } W(copy_tracked) { copy<Tracked, false>(); } W(copy_owner) { copy<Owner, false>(); }
W(emplace_int) { copy<int, true>(); } W(emplace_tracked) { copy<Tracked, true>(); } W(emplace_owner) { copy<Owner, true>(); }
W(ends_0) { ends<int, 0>(); } W(ends_1) { ends<int, 1>(); } W(ends_3) { ends<int, 3>(); } W(ends_5) { ends<Tracked, 5>(); }
W(nul_8) { nul<char>(); } W(nul_16) { nul<char16_t>(); } W(nul_32) { nul<int>(); }
#define SORTS(nm, how) W(sort_##nm##_2) { sort<how, false, 2>(); } W(sort_##nm##_3) { sort<how, false, 3>(); } W(sort_##nm##_4) { sort<how, false, 4>(); } W(stable_##nm##_2) { sort<how, true, 2>(); } W(stable_##nm##_3) { sort<how, true, 3>(); } W(stable_##nm##_4) { sort<how, true, 4>(); }
SORTS(nat, NATURAL) SORTS(key, KEY) SORTS(cmp, CMP)
#define BIG(nm, how) W(sort_##nm##_big) { big<how, false, 40>(); } W(stable_##nm##_big) { big<how, true, 40>(); } W(stable_##nm##_huge) { big<how, true, 150>(); }
BIG(nat, NATURAL) BIG(key, KEY) BIG(cmp, CMP)
W(sort_down_4) { sort<CMP, false, 4, true>(); } W(stable_down_4) { sort<CMP, true, 4, true>(); } W(sort_cmp_5) { sort<CMP, false, 5>(); }
W(bisect_nat) { bisect<NATURAL>(); } W(bisect_key) { bisect<KEY>(); } W(bisect_cmp) { bisect<CMP>(); }
CONTROL(swap) { Arr<int, 4> a(4, "a"); size_t i = any<size_t>("i"), j = any<size_t>("j"); vp_assume(i < 4 && j < 4); a.s().swap(i, j); MUST(val(a.p()[i]) == a.v[i], "control"); }
