// S01: searching, splitting, stripping, comparing spans agree with their definitions.
#include "vp.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/memory/span.h"

struct NT {  // compared only through its own operators
  int v; int pad = 0;
  bool operator==(const NT& o) const { return v == o.v; }
  std::strong_ordering operator<=>(const NT& o) const { return v <=> o.v; }
};
template <class T> struct Mk { static void fill(T* p, size_t n, const char* nm) { vp_bytes(p, n * sizeof(T), nm); } };
template <> struct Mk<NT> { static void fill(NT* p, size_t n, const char* nm) { for (size_t i = 0; i < n; ++i) p[i].v = any<int>(nm); } };

template <class T> static bool match(const T* a, const T* b, size_t m) { for (size_t i = 0; i < m; ++i) if (!(a[i] == b[i])) return false; return true; }
template <class T> static size_t reffind(const T* h, size_t n, const T* d, size_t m) {
  for (size_t i = 0; i + m <= n; ++i) if (match(h + i, d, m)) return i;
  return (size_t)-1;
}
template <class T> static size_t refrfind(const T* h, size_t n, const T* d, size_t m) {
  for (size_t i = n - m + 1; m <= n && i-- > 0;) if (match(h + i, d, m)) return i;
  return (size_t)-1;
}
template <class T> static void fillv(T* p, size_t n, const char* nm) { for (size_t i = 0; i < n; ++i) if constexpr (std::is_class_v<T>) p[i].v = any<int>(nm); else p[i] = any<T>(nm); }
template <class T, size_t N, size_t M> static void find() {
  vp_no_crash(true);
  T h[N], d[M];
  size_t n = vp_pick(0, N), m = vp_pick(0, M);
  Mk<T>::fill(h, n, "h"); Mk<T>::fill(d, m, "d");
  best::span<T> s(h, n); best::span<const T> t(d, m);
  size_t e = reffind(h, n, d, m);
  auto r = s.find(t);
  MUST(r.has_value() == (e != (size_t)-1), "find succeeds exactly when the needle occurs");
  if (r) { MUST(*r == e, "find returns the first occurrence"); REACH("found"); } else REACH("absent");
  MUST(s.contains(t) == (e != (size_t)-1), "contains agrees with find");
}
template <class T, size_t N, size_t M> static void rfind() {
  vp_no_crash(true);
  T h[N], d[M];
  size_t n = vp_pick(0, N), m = vp_pick(1, M);
  Mk<T>::fill(h, n, "h"); Mk<T>::fill(d, m, "d");
  best::span<T> s(h, n); best::span<const T> t(d, m);
  size_t e = refrfind(h, n, d, m);
  auto r = s.rfind(t);
  MUST(r.has_value() == (e != (size_t)-1), "rfind succeeds exactly when the needle occurs");
  if (r) { MUST(*r == e, "rfind returns the last occurrence"); REACH("found"); } else REACH("absent");
}
template <class T> static void elem() {
  vp_no_crash(true);
  T h[4], d[1];
  size_t n = vp_pick(0, sizeof(T) == 4 ? 2 : 4);
  Mk<T>::fill(h, n, "h"); Mk<T>::fill(d, 1, "d");
  best::span<T> s(h, n);
  size_t e = reffind(h, n, d, 1), l = refrfind(h, n, d, 1);
  auto pred = [&](const T& x) { return x == d[0]; };
  auto r = s.find(d[0]), b = s.rfind(d[0]), p = s.find(pred), q = s.rfind(pred);
  MUST(r.has_value() == (e != (size_t)-1) && b.has_value() == r.has_value() && p.has_value() == r.has_value() && q.has_value() == r.has_value(), "element search succeeds exactly when the element occurs");
  MUST(s.contains(d[0]) == r.has_value() && s.contains(pred) == r.has_value(), "contains agrees with find");
  if (r) { MUST(*r == e && *p == e && *b == l && *q == l, "element search finds the first/last occurrence"); REACH("found"); } else REACH("absent");
}
template <class T> static void affix() {
  vp_no_crash(true);
  T h[4], d[4];
  size_t n = vp_pick(0, 3), m = vp_pick(0, 4);
  Mk<T>::fill(h, n, "h"); Mk<T>::fill(d, m, "d");
  best::span<T> s(h, n); best::span<const T> t(d, m);
  bool pre = m <= n && match(h, d, m), suf = m <= n && match(h + (n - (m <= n ? m : n)), d, m);
  MUST(s.starts_with(t) == pre, "starts_with");
  MUST(s.ends_with(t) == suf, "ends_with");
  auto a = s.strip_prefix(t), b = s.strip_suffix(t);
  MUST(a.has_value() == pre && b.has_value() == suf, "strip succeeds exactly on an affix");
  auto c = s, e = s;
  MUST(c.consume_prefix(t) == pre && e.consume_suffix(t) == suf, "consume succeeds exactly on an affix");
  if (pre) { MUST(a->data().raw() == h + m && a->size() == n - m && c.data().raw() == h + m && c.size() == n - m, "the prefix is removed, nothing else"); REACH("prefix"); }
  else MUST(c.data().raw() == h && c.size() == n, "failed consume leaves the span alone");
  if (suf) { MUST(b->data().raw() == h && b->size() == n - m && e.data().raw() == h && e.size() == n - m, "the suffix is removed, nothing else"); REACH("suffix"); }
  else MUST(e.data().raw() == h && e.size() == n, "failed consume leaves the span alone");
}
template <class T> static void once() {
  vp_no_crash(true);
  T h[4], d[2];
  size_t n = vp_pick(0, sizeof(T) == 4 ? 2 : 4), m = vp_pick(1, 2);
  Mk<T>::fill(h, n, "h"); Mk<T>::fill(d, m, "d");
  best::span<T> s(h, n); best::span<const T> t(d, m);
  size_t e = reffind(h, n, d, m), l = refrfind(h, n, d, m);
  auto f = s.split_once(t), b = s.rsplit_once(t);
  MUST(f.has_value() == (e != (size_t)-1) && b.has_value() == (e != (size_t)-1), "split_once succeeds exactly when the separator occurs");
  if (f) {
    MUST(f->first().data().raw() == h && f->first().size() == e && f->second().data().raw() == h + e + m && f->second().size() == n - e - m, "split_once divides at the first occurrence");
    MUST(b->first().data().raw() == h && b->first().size() == l && b->second().data().raw() == h + l + m && b->second().size() == n - l - m, "rsplit_once divides at the last occurrence");
    REACH("split");
  } else REACH("absent");
}
template <class T> static void once_elem() {
  vp_no_crash(true);
  T h[4], d[1];
  size_t n = vp_pick(0, sizeof(T) == 4 ? 2 : 4);
  Mk<T>::fill(h, n, "h"); Mk<T>::fill(d, 1, "d");
  best::span<T> s(h, n);
  size_t e = reffind(h, n, d, 1), l = refrfind(h, n, d, 1);
  auto pred = [&](const T& x) { return x == d[0]; };
  auto chk = [&](auto f, size_t at) {
    MUST(f.has_value() == (e != (size_t)-1), "split_once succeeds exactly when the separator occurs");
    if (!f) return;
    MUST(f->first().data().raw() == h && f->first().size() == at && f->second().data().raw() == h + at + 1 && f->second().size() == n - at - 1, "split_once divides at the separator");
    REACH("split");
  };
  chk(s.split_once(d[0]), e); chk(s.rsplit_once(d[0]), l); chk(s.split_once(pred), e); chk(s.rsplit_once(pred), l);
}
// split() yields maximal runs without the separator, in order
template <class T> static void split() {
  vp_no_crash(true);
  T h[4], d[1];
  size_t n = vp_pick(0, sizeof(T) == 4 ? 2 : 4);
  Mk<T>::fill(h, n, "h"); Mk<T>::fill(d, 1, "d");
  best::span<T> s(h, n);
  size_t pos = 0, parts = 0;
  auto step = [&](best::span<T> part) {
    ++parts;
    MUST(pos <= n, "split yields no piece past the end");
    size_t k = 0; while (pos + k < n && !(h[pos + k] == d[0])) ++k;
    MUST(part.size() == k, "piece length");
    MUST(k == 0 || part.data().raw() == h + pos, "piece start");
    pos += k + 1;
  };
  switch (vp_pick(0, 2)) {
    case 0: for (auto p : s.split(d[0])) step(p); break;
    case 1: for (auto p : s.split([&](const T& x) { return x == d[0]; })) step(p); break;
    case 2: { best::span<const T> t(d, 1); for (auto p : s.split(t)) step(p); break; }
  }
  MUST(pos == n + 1, "split covers the whole span");
  REACH("split");
}
template <class T> static void compare() {
  vp_no_crash(true);
  T a[3], b[3];
  size_t n = vp_pick(0, 3), m = vp_pick(0, 3);
  Mk<T>::fill(a, n, "a"); Mk<T>::fill(b, m, "b");
  best::span<T> s(a, n); best::span<const T> t(b, m);
  size_t i = 0; while (i < n && i < m && a[i] == b[i]) ++i;
  int c = i == n || i == m ? (n < m ? -1 : n > m ? 1 : 0) : std::is_same_v<T, char> ? (*(uint8_t*)&a[i] < *(uint8_t*)&b[i] ? -1 : 1) : a[i] < b[i] ? -1 : 1;
  MUST((s == t) == (c == 0), "equality of spans is element-wise");
  auto o = s <=> t;
  MUST((o < 0) == (c < 0) && (o > 0) == (c > 0) && (o == 0) == (c == 0), "spans are ordered lexicographically");
  if (c < 0) REACH("less"); else if (c > 0) REACH("greater"); else REACH("equal");
}
template <class T> static void bisect() {
  vp_no_crash(true);
  T a[5];
  size_t n = vp_pick(0, 5);
  fillv(a, n, "a");
  T x[1]; fillv(x, 1, "x");
  for (size_t i = 1; i < n; ++i) vp_assume(!(a[i] < a[i - 1]));
  best::span<T> s(a, n);
  auto r = s.bisect(x[0]);
  if (auto ok = r.ok()) { MUST(*ok < n && a[*ok] == x[0], "bisect finds an equal element"); REACH("found"); }
  else {
    size_t at = *r.err();
    MUST(at <= n, "bisect's insertion point is in range");
    for (size_t i = 0; i < n; ++i) MUST(i < at ? a[i] < x[0] : x[0] < a[i], "bisect's insertion point keeps the order");
    REACH("absent");
  }
}
#define EACH(F) W(F##_char) { F<char>(); } W(F##_i32) { F<int32_t>(); } W(F##_u16) { F<uint16_t>(); } W(F##_nt) { F<NT>(); }
EACH(elem) EACH(affix) EACH(once) EACH(once_elem) EACH(split) EACH(compare) EACH(bisect)
W(affix_u8) { affix<uint8_t>(); } W(compare_u8) { compare<uint8_t>(); } W(compare_i8) { compare<int8_t>(); } W(bisect_u8) { bisect<uint8_t>(); }
W(find_char) { find<char, 5, 3>(); }
W(find_u16) { find<uint16_t, 3, 2>(); }
W(find_i32) { find<int32_t, 2, 2>(); }
W(find_nt) { find<NT, 5, 3>(); }
W(rfind_char) { rfind<char, 5, 3>(); }
W(rfind_u16) { rfind<uint16_t, 4, 2>(); }
W(rfind_i32) { rfind<int32_t, 3, 2>(); }
W(rfind_nt) { rfind<NT, 5, 3>(); }
CONTROL(last_not_first) {
  char h[3]; vp_bytes(h, 3, "h"); best::span<char> s(h, 3);
  auto r = s.find('7'); if (r) MUST(*r == refrfind<char>(h, 3, "7", 1), "control");
}
