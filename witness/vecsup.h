#ifndef VECSUP_H_
#define VECSUP_H_
#include "vp.h"
#include <cstdlib>
#include <cstring>
#include "best/container/vec.h"
#include "best/container/box.h"

// A trivially relocatable owner of one heap cell.
struct [[clang::trivial_abi]] Owner {
  int* p;
  Owner(int v) : p((int*)malloc(4)) { *p = v; }
  Owner(const Owner& o) : p((int*)malloc(4)) { *p = *o.p; }
  Owner(Owner&& o) : p(o.p) { o.p = nullptr; }
  Owner& operator=(const Owner& o) { if (p) *p = *o.p; else { p = (int*)malloc(4); *p = *o.p; } return *this; }
  Owner& operator=(Owner&& o) { int* t = p; p = o.p; o.p = t; return *this; }
  ~Owner() { free(p); }
  int get() const { return *p; }
};
inline int val(const Tracked& t) { return t.get(); }
inline int val(const Owner& o) { return o.get(); }
inline int val(const int& i) { return i; }
inline int val(const uint8_t& i) { return i; }
template <class T> constexpr bool tracked = std::is_same_v<T, Tracked>;
template <class T> int elem(const char* n) { if constexpr (std::is_same_v<T, uint8_t>) return any<uint8_t>(n); else return any<int>(n); }

// An allocator that checks that every block is returned with the layout it was
// requested with, to the allocator that made it.
struct Arena {
  int id;
  struct Head { size_t size, align; int id, magic; };
  static constexpr int Magic = 0x51ab;
  static best::ptr<void> mk(int id, best::layout l) {
    Head* h = (Head*)malloc(sizeof(Head) + l.size());
    *h = {l.size(), l.align(), id, Magic};
    return best::ptr<char>((char*)(h + 1)).cast(best::types<void>);
  }
  static void check(int id, best::ptr<void> p, best::layout l) {
    Head* h = (Head*)p.raw() - 1;
    MUST(h->magic == Magic, "only live blocks are returned to the allocator");
    MUST(h->size == l.size() && h->align == l.align(), "a block is returned with the layout it was allocated with");
    MUST(h->id == id, "a block is returned to the allocator it came from");
  }
  best::ptr<void> alloc(best::layout l) const { return mk(id, l); }
  best::ptr<void> zalloc(best::layout l) { auto p = mk(id, l); memset(p.raw(), 0, l.size()); return p; }
  best::ptr<void> realloc(best::ptr<void> p, best::layout o, best::layout l) {
    check(id, p, o);
    auto q = mk(id, l); memcpy(q.raw(), p.raw(), o.size() < l.size() ? o.size() : l.size());
    dealloc(p, o); return q;
  }
  void dealloc(best::ptr<void> p, best::layout l) { check(id, p, l); Head* h = (Head*)p.raw() - 1; h->magic = 0; free(h); }
  bool operator==(const Arena& o) const { return id == o.id; }
};

// The reference: a plain sequence.
struct Ref {
  int v[40]; size_t n = 0;
  void ins(size_t i, int x) { for (size_t k = n; k > i; --k) v[k] = v[k - 1]; v[i] = x; ++n; }
  void del(size_t i, size_t c) { for (size_t k = i; k + c < n; ++k) v[k] = v[k + c]; n -= c; }
};
template <class V> void same(const V& v, const Ref& r) {
  MUST(v.size() == r.n, "the length is that of the sequence");
  MUST(v.is_empty() == (r.n == 0), "is_empty");
  MUST(v.capacity() >= v.size(), "capacity covers the length");
  for (size_t i = 0; i < r.n; ++i) MUST(val(v.data().raw()[i]) == r.v[i], "the elements are those of the sequence");
  if (tracked<typename V::type>) {
    for (size_t i = 0; i < r.n; ++i) MUST(vp_is_live(v.data().raw() + i), "every element is live");
  }
}
// An arbitrary vector of up to `max` elements, inline or on the heap, with or
// without spare capacity.
template <class V> void make(V& v, Ref& r, size_t max, const char* nm = "e") {
  using T = typename V::type;
  size_t how = vp_pick(0, 2), n = vp_pick(0, max);
  if (how == 1) v.spill_to_heap(n, true);
  if (how == 2) v.spill_to_heap(best::option<size_t>(max + 3));
  for (size_t i = 0; i < n; ++i) { int x = elem<T>(nm); v.push(x); r.v[r.n++] = x; }
  same(v, r);
}
#endif
