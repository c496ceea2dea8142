// Interface between a witness translation unit and the abstract interpreter.
// None of these functions has a body: the analysis interprets them.
#ifndef VP_H_
#define VP_H_
#include <cstddef>
#include <cstdint>
#include <utility>
#include <type_traits>

extern "C" {
[[noreturn]] void vp_violation(const char* msg);
void vp_reach(const char* tag);
uint8_t vp_u8(const char* name);
uint16_t vp_u16(const char* name);
uint32_t vp_u32(const char* name);
uint64_t vp_u64(const char* name);
void vp_bytes(void* p, size_t n, const char* name);
void vp_assume(bool c);
size_t vp_pick(size_t lo, size_t hi);
bool vp_split(bool c);
bool vp_same(const void* a, const void* b, size_t n);  // equality of two byte strings, as one condition
void* vp_array(size_t bytes, size_t align, const char* name);
void vp_no_crash(bool on);
void vp_deep_crash(bool on);
size_t vp_heap_live();
void vp_live_add(const void* p);
void vp_live_del(const void* p);
void vp_live_check(const void* p);
size_t vp_live_count();
bool vp_is_live(const void* p);
size_t vp_count(size_t k);
void vp_bump(size_t k);
void vp_show(uint64_t x);
}

// An arbitrary value of an integer type.
template <class I>
inline I any(const char* name) {
  if constexpr (std::is_same_v<I, bool>) { return vp_u8(name) & 1; }
  else if constexpr (sizeof(I) == 1) return (I)vp_u8(name);
  else if constexpr (sizeof(I) == 2) return (I)vp_u16(name);
  else if constexpr (sizeof(I) == 4) return (I)vp_u32(name);
  else return (I)vp_u64(name);
}
// Obligation.
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define MUST(cond, msg) do { if (!(cond)) vp_violation(msg); } while (0)
// Points the property must reach on some path (non-vacuity).
#define REACH(tag) vp_reach(tag)
// Run `expr`; every path must end in best's crash handler.
#define MUST_CRASH(expr, msg) do { expr; vp_violation(msg); } while (0)

#define W(name) extern "C" void w_##name()
#define CONTROL(name) extern "C" void c_##name()

// An element type with observable lifetimes: construction, destruction and use
// are typestate events on its address.  Not trivially relocatable.
struct Tracked {
  int v;
  Tracked(int v) : v(v) { vp_live_add(this); }
  Tracked() : Tracked(0) {}
  Tracked(const Tracked& o) : v(o.v) { vp_live_check(&o); vp_live_add(this); }
  Tracked(Tracked&& o) : v(o.v) { vp_live_check(&o); o.v = -1; vp_live_add(this); }
  Tracked& operator=(const Tracked& o) { vp_live_check(this); vp_live_check(&o); v = o.v; return *this; }
  Tracked& operator=(Tracked&& o) { vp_live_check(this); vp_live_check(&o); v = o.v; if (&o != this) o.v = -1; return *this; }
  ~Tracked() { vp_live_del(this); v = -2; }
  int get() const { vp_live_check(this); return v; }
  bool operator==(const Tracked& o) const { vp_live_check(this); vp_live_check(&o); return v == o.v; }
};
#endif
