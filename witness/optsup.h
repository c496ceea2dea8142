#ifndef OPTSUP_H_
#define OPTSUP_H_
#include "vecsup.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/choice.h"
// A type with a niche whose every operation on the niche, destruction included, is an error.
struct Nich {
  int v; bool niche = false;
  Nich(int v) : v(v) { vp_live_add(this); }
  Nich(best::niche) : v(0), niche(true) {}
  Nich(const Nich& o) : v(o.v) { vp_live_check(&o); vp_live_add(this); }
  Nich(Nich&& o) : v(o.v) { vp_live_check(&o); o.v = -1; vp_live_add(this); }
  Nich& operator=(const Nich& o) { vp_live_check(this); vp_live_check(&o); v = o.v; return *this; }
  Nich& operator=(Nich&& o) { vp_live_check(this); vp_live_check(&o); v = o.v; if (&o != this) o.v = -1; return *this; }
  ~Nich() { vp_live_del(this); }
  int get() const { vp_live_check(this); return v; }
  bool operator==(const Nich& o) const { return get() == o.get(); }
  auto operator<=>(const Nich& o) const { return get() <=> o.get(); }
  bool operator==(best::niche) const { return niche; }
};
inline int val(const Nich& t) { return t.get(); }
template <class T> constexpr bool events = std::is_same_v<T, Tracked> || std::is_same_v<T, Nich>;
// Runs f and checks that nothing it made is left.
template <class F> inline void clean(F f) {
  vp_no_crash(true);
  size_t h = vp_heap_live();
  f();
  MUST(vp_live_count() == 0 && vp_heap_live() == h, "everything is destroyed exactly once");
}
#endif
