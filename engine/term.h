// Abstract values: hash-consed symbolic constants in bit-slice / linear normal
// form. This is the "symbolic constant" component of the product domain; the
// numeric components (intervals, byte value-sets, linear inequalities) live in
// facts.h.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using u64 = uint64_t;
using i64 = int64_t;
using i128 = __int128;
using u128 = unsigned __int128;

enum class K : uint8_t {
  Const, Sym, Concat, Lin, SExt,
  Not, Eq, Ult, Slt,
  Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
  Ctlz, Cttz, Ctpop, Bswap,
  UAddO, UMulO, SAddO, SSubO, SMulO,
};

struct Term;
using T = const Term*;
struct Seg { T t; uint8_t lo, len; };

struct Term {
  K k; uint8_t w; uint32_t id; u64 c = 0;
  bool undef = false;           // Sym only: uninitialised bits
  std::string name;             // Sym only
  std::vector<T> a;
  std::vector<Seg> segs;        // Concat, low to high
  std::vector<std::pair<u64, T>> lin;  // Lin: sum coef*term + c
  std::vector<T> leaves;        // Syms, sorted by id
  bool anyUndef = false;
  bool isC() const { return k == K::Const; }
};

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 s = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ s) - s);
}

struct TermPool {
  std::unordered_map<std::string, T> tab;
  std::vector<T> all;

  static void put(std::string& s, u64 v) { s.append((const char*)&v, 8); }
  T intern(Term&& t) {
    std::string key;
    key.push_back((char)t.k); key.push_back((char)t.w);
    put(key, t.c);
    if (t.k == K::Sym) key += t.name;
    for (auto* x : t.a) put(key, x->id);
    for (auto& s : t.segs) { put(key, s.t->id); key.push_back((char)s.lo); key.push_back((char)s.len); }
    for (auto& [c, x] : t.lin) { put(key, c); put(key, x->id); }
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    auto* n = new Term(std::move(t));
    n->id = (uint32_t)all.size();
    if (n->k == K::Sym) { n->leaves.push_back(n); n->anyUndef = n->undef; }
    else {
      auto addl = [&](T x) {
        n->anyUndef |= x->anyUndef;
        std::vector<T> m;
        std::set_union(n->leaves.begin(), n->leaves.end(), x->leaves.begin(), x->leaves.end(),
                       std::back_inserter(m), [](T p, T q) { return p->id < q->id; });
        n->leaves = std::move(m);
      };
      for (auto* x : n->a) addl(x);
      for (auto& s : n->segs) addl(s.t);
      for (auto& [c, x] : n->lin) addl(x);
    }
    all.push_back(n);
    tab.emplace(std::move(key), n);
    return n;
  }
  uint64_t symCounter = 0;
  T C(u64 v, unsigned w) { Term t; t.k = K::Const; t.w = w; t.c = v & maskw(w); return intern(std::move(t)); }
  T sym(unsigned w, std::string name, bool undef = false) {
    Term t; t.k = K::Sym; t.w = w; t.name = name + (undef ? "!" : ""); t.undef = undef; return intern(std::move(t));
  }
  T fresh(unsigned w, std::string p, bool undef = false) { return sym(w, p + "#" + std::to_string(symCounter++), undef); }
  T tru() { return C(1, 1); }
  T fls() { return C(0, 1); }
  T op(K k, unsigned w, std::vector<T> a, u64 c = 0) {
    Term t; t.k = k; t.w = w; t.a = std::move(a); t.c = c; return intern(std::move(t));
  }

  // ---- concat / slices
  static void segsOf(T t, std::vector<Seg>& out) {
    if (t->k == K::Concat) out.insert(out.end(), t->segs.begin(), t->segs.end());
    else out.push_back({t, 0, t->w});
  }
  static bool isNotL(T t) { return t->k == K::Lin && t->lin.size() == 1 && t->lin[0].first == maskw(t->w) && t->c == maskw(t->w); }
  // x + c with c a multiple of 2^n: the low n bits are those of x.
  static unsigned linLow(T t) { return t->k == K::Lin && t->lin.size() == 1 && t->lin[0].first == 1 && t->c ? __builtin_ctzll(t->c) : 0; }
  T concat(const std::vector<Seg>& in0) {
    std::vector<Seg> o, in;
    unsigned w = 0;
    for (auto& s : in0) {
      bool full = s.lo == 0 && s.len == s.t->w;
      if (full && s.t->k == K::Concat) { segsOf(s.t, in); continue; }
      bool part = !full && (s.t->k == K::Concat || ((s.t->k == K::Lin || s.t->k == K::Mul) && s.lo == 0) || isNotL(s.t) || s.lo < linLow(s.t) ||
                            (s.t->k == K::SExt && (s.lo + s.len <= s.t->a[0]->w || s.lo == 0)));
      if (part) segsOf(slice(s.t, s.lo, s.len), in); else in.push_back(s);
    }
    for (auto s : in) {
      if (!s.len) continue;
      w += s.len;
      if (s.t->isC()) { s.t = C(s.t->c >> s.lo, s.len); s.lo = 0; }
      if (!o.empty()) {
        auto& p = o.back();
        if (p.t->isC() && s.t->isC() && p.len + s.len <= 64) {
          p.t = C(p.t->c | (s.t->c << p.len), p.len + s.len); p.len += s.len; continue;
        }
        if (!p.t->isC() && p.t == s.t && p.lo + p.len == s.lo) { p.len += s.len; continue; }
        // reassemble a value that was taken apart bytewise
        if ((s.t->k == K::Lin || s.t->k == K::Mul || s.t->k == K::SExt) && s.lo > 0 && s.lo <= p.len && !p.t->isC() &&
            slice(p.t, p.lo + p.len - s.lo, s.lo) == slice(s.t, 0, s.lo)) {
          T z = slice(s.t, 0, s.lo + s.len);
          if (p.len == s.lo) o.pop_back(); else p.len -= s.lo;
          std::vector<Seg> zs; segsOf(z, zs);
          for (auto& q : zs) o.push_back(q);
          continue;
        }
        if (unsigned n = s.lo ? linLow(s.t) : 0; n && s.lo == n) {
          std::vector<Seg> zs; segsOf(slice(s.t, 0, n), zs);
          size_t m = zs.size(), b = o.size() - m;
          bool ok = m > 1 && m <= o.size() && o[b].t == zs[0].t && o[b].len >= zs[0].len && o[b].lo + o[b].len == zs[0].lo + zs[0].len && !zs[0].t->isC();
          for (size_t i = 1; ok && i < m; ++i) ok = o[b + i].t == zs[i].t && o[b + i].lo == zs[i].lo && o[b + i].len == zs[i].len;
          if (ok) {
            unsigned k = zs[0].len; o.resize(b + 1);
            if (o[b].len == k) o.pop_back(); else o[b].len -= k;
            zs.clear(); segsOf(slice(s.t, 0, s.lo + s.len), zs);
            for (auto& q : zs) o.push_back(q);
            continue;
          }
        }
        if (isNotL(p.t) && isNotL(s.t) && p.lo == 0 && p.len == p.t->w && s.lo == 0 && s.len == s.t->w) {
          T pa = p.t->lin[0].second, sa = s.t->lin[0].second;
          std::vector<Seg> ps, ss; segsOf(pa, ps); segsOf(sa, ss);
          T j = concat({ps.back(), ss.front()});
          if (j->k != K::Concat || j->segs.size() == 1) {
            std::vector<Seg> all(ps); all.insert(all.end(), ss.begin(), ss.end());
            T y = concat(all);
            T z = sub(C(maskw(y->w), y->w), y);
            p = {z, 0, z->w};
            continue;
          }
        }
      }
      o.push_back(s);
    }
    if (o.size() == 1 && o[0].lo == 0 && o[0].len == o[0].t->w) return o[0].t;
    Term t; t.k = K::Concat; t.w = w; t.segs = std::move(o);
    return intern(std::move(t));
  }
  T slice(T t, unsigned lo, unsigned len) {
    if (lo == 0 && len == t->w) return t;
    switch (t->k) {
      case K::Const: return C(t->c >> lo, len);
      case K::Concat: {
        std::vector<Seg> o;
        unsigned pos = 0;
        for (auto s : t->segs) {
          unsigned b = std::max(pos, lo), e = std::min(pos + s.len, lo + len);
          if (b < e) {
            T sub = s.t;
            unsigned slo = s.lo + (b - pos);
            o.push_back({sub, (uint8_t)slo, (uint8_t)(e - b)});
          }
          pos += s.len;
        }
        return concat(o);
      }
      case K::Lin:
        if (t->lin.size() == 1 && t->lin[0].first == maskw(t->w) && t->c == maskw(t->w))  // ~y
          return sub(C(maskw(len), len), slice(t->lin[0].second, lo, len));
        if (lo == 0) {
          T r = C(t->c, len);
          for (auto& [c, x] : t->lin) r = add(r, mulc(slice(x, 0, len), c));
          return r;
        }
        if (unsigned n = linLow(t); lo < n) {
          std::vector<Seg> o; segsOf(slice(t->lin[0].second, lo, std::min(len, n - lo)), o);
          if (lo + len > n) o.push_back({t, (uint8_t)n, (uint8_t)(lo + len - n)});
          return concat(o);
        }
        break;
      case K::Mul:
        if (lo == 0) return mul(slice(t->a[0], 0, len), slice(t->a[1], 0, len));
        break;
      case K::SExt: {
        T in = t->a[0];
        if (lo + len <= in->w) return slice(in, lo, len);
        if (lo == 0) return sext(in, len);
        break;
      }
      default: break;
    }
    return concat({{t, (uint8_t)lo, (uint8_t)len}});
  }
  T zext(T t, unsigned w) {
    if (w == t->w) return t;
    if (t->isC()) return C(t->c, w);
    std::vector<Seg> s;
    segsOf(t, s);
    s.push_back({C(0, w - t->w), 0, (uint8_t)(w - t->w)});
    return concat(s);
  }
  bool topZero(T t) {
    return t->k == K::Concat && t->segs.back().t->isC() && !(t->segs.back().t->c >> (t->segs.back().len - 1));
  }
  T sext(T t, unsigned w) {
    if (w == t->w) return t;
    if (t->isC()) return C((u64)sx(t->c, t->w), w);
    if (topZero(t)) return zext(t, w);
    if (t->k == K::SExt) return sext(t->a[0], w);
    Term n; n.k = K::SExt; n.w = w; n.a = {t};
    return intern(std::move(n));
  }

  // ---- linear
  T mkLin(std::vector<std::pair<u64, T>> v, u64 c, unsigned w) {
    std::sort(v.begin(), v.end(), [](auto& p, auto& q) { return p.second->id < q.second->id; });
    std::vector<std::pair<u64, T>> o;
    for (auto& p : v) {
      if (!o.empty() && o.back().second == p.second) o.back().first += p.first;
      else o.push_back(p);
      o.back().first &= maskw(w);
    }
    std::vector<std::pair<u64, T>> r;
    for (auto& p : o) if (p.first & maskw(w)) r.push_back({p.first & maskw(w), p.second});
    c &= maskw(w);
    if (r.empty()) return C(c, w);
    if (r.size() == 1 && r[0].first == 1 && c == 0) return r[0].second;
    if (w == 1 && r.size() == 1) return lnot(r[0].second);
    if (T j = disjoint(r, c, w)) return j;
    Term t; t.k = K::Lin; t.w = w; t.c = c; t.lin = std::move(r);
    return intern(std::move(t));
  }
  // A sum of values that share no bits (or of one and a constant above it) is their concatenation.
  T disjoint(const std::vector<std::pair<u64, T>>& r, u64 c, unsigned w) {
    if (r.size() + (c != 0) < 2 || r.size() > 8) return nullptr;
    struct P { unsigned lo, len; T t; unsigned at; };
    std::vector<P> ps;
    for (auto& [k, x] : r) {
      if ((k & (k - 1)) || x->k != K::Concat) return nullptr;
      unsigned sh = __builtin_ctzll(k), lo = 0, hi = w;
      auto& f = x->segs.front(); auto& b = x->segs.back();
      if (b.t->isC() && b.t->c == 0) hi -= b.len; else if (sh || r.size() == 1) return nullptr;
      if (f.t->isC() && f.t->c == 0) lo = f.len;
      if (hi + sh > w || lo >= hi) return nullptr;
      ps.push_back({lo + sh, hi - lo, x, lo});
    }
    std::sort(ps.begin(), ps.end(), [](auto& a, auto& b) { return a.lo < b.lo; });
    if (c && ((w > 32 && __builtin_ctzll(c) < 56) || (unsigned)__builtin_ctzll(c) < ps.back().lo + ps.back().len)) return nullptr;
    std::vector<T> parts; unsigned pos = 0;
    for (auto& p : ps) {
      if (p.lo < pos) return nullptr;
      if (p.lo > pos) parts.push_back(C(0, p.lo - pos));
      parts.push_back(slice(p.t, p.at, p.len));
      pos = p.lo + p.len;
    }
    if (pos < w) parts.push_back(C(c >> pos, w - pos));
    return concatBits(parts);
  }
  void linOf(T t, u64 k, std::vector<std::pair<u64, T>>& v, u64& c) {
    if (t->isC()) c += k * t->c;
    else if (t->k == K::Lin) { c += k * t->c; for (auto& [q, x] : t->lin) v.push_back({q * k, x}); }
    else if (t->k == K::Concat && t->segs.back().t->isC() && t->segs.back().t->c) {
      auto& b = t->segs.back();
      c += k * (b.t->c << (t->w - b.len));
      std::vector<Seg> s(t->segs.begin(), t->segs.end() - 1);
      s.push_back({C(0, b.len), 0, b.len});
      v.push_back({k, concat(s)});
    }
    else v.push_back({k, t});
  }
  T add(T a, T b) {
    if (a->isC() && b->isC()) return C(a->c + b->c, a->w);
    std::vector<std::pair<u64, T>> v; u64 c = 0;
    linOf(a, 1, v, c); linOf(b, 1, v, c);
    return mkLin(std::move(v), c, a->w);
  }
  T sub(T a, T b) {
    if (a->isC() && b->isC()) return C(a->c - b->c, a->w);
    std::vector<std::pair<u64, T>> v; u64 c = 0;
    linOf(a, 1, v, c); linOf(b, ~0ull, v, c);
    return mkLin(std::move(v), c, a->w);
  }
  T mulc(T a, u64 k) {
    if (a->isC()) return C(a->c * k, a->w);
    std::vector<std::pair<u64, T>> v; u64 c = 0;
    linOf(a, k, v, c);
    return mkLin(std::move(v), c, a->w);
  }
  T mul(T a, T b) {
    if (a->isC()) return mulc(b, a->c);
    if (b->isC()) return mulc(a, b->c);
    if (a->id > b->id) std::swap(a, b);
    return op(K::Mul, a->w, {a, b});
  }

  // ---- bitwise
  T bitop(K k, T a, T b) {
    unsigned w = a->w;
    if (a->isC() && b->isC()) {
      u64 v = k == K::And ? a->c & b->c : k == K::Or ? a->c | b->c : a->c ^ b->c;
      return C(v, w);
    }
    if (a == b) return k == K::Xor ? C(0, w) : a;
    if (w == 1) {
      if (a->isC()) std::swap(a, b);
      if (b->isC()) {
        if (k == K::And) return b->c ? a : b;
        if (k == K::Or) return b->c ? b : a;
        return b->c ? lnot(a) : a;
      }
      if (k == K::And && a == lnot(b)) return C(0, 1);
      if (k == K::Or && a == lnot(b)) return C(1, 1);
      if (a->id > b->id) std::swap(a, b);
      return op(k, 1, {a, b});
    }
    if (k == K::Xor) {
      if (a->isC()) std::swap(a, b);
      if (b->isC() && b->c == maskw(w)) return sub(C(maskw(w), w), a);
    }
    // piecewise
    std::vector<Seg> sa, sb, o;
    segsOf(a, sa); segsOf(b, sb);
    // Split constants into runs.
    auto runs = [&](std::vector<Seg>& s) {
      std::vector<Seg> r;
      for (auto& g : s) {
        if (!g.t->isC()) { r.push_back(g); continue; }
        unsigned i = 0;
        while (i < g.len) {
          unsigned j = i; bool bit = (g.t->c >> i) & 1;
          while (j < g.len && (((g.t->c >> j) & 1) == bit)) ++j;
          r.push_back({C(bit ? maskw(j - i) : 0, j - i), 0, (uint8_t)(j - i)});
          i = j;
        }
      }
      s = r;
    };
    runs(sa); runs(sb);
    size_t i = 0, j = 0; unsigned oi = 0, oj = 0; bool ok = true;
    while (i < sa.size() && j < sb.size()) {
      unsigned n = std::min<unsigned>(sa[i].len - oi, sb[j].len - oj);
      Seg x{sa[i].t, (uint8_t)(sa[i].lo + oi), (uint8_t)n}, y{sb[j].t, (uint8_t)(sb[j].lo + oj), (uint8_t)n};
      bool xc = x.t->isC(), yc = y.t->isC();
      u64 xv = xc ? (x.t->c >> x.lo) & maskw(n) : 0, yv = yc ? (y.t->c >> y.lo) & maskw(n) : 0;
      if (xc && yc) {
        u64 v = k == K::And ? xv & yv : k == K::Or ? xv | yv : xv ^ yv;
        o.push_back({C(v, n), 0, (uint8_t)n});
      } else if (!xc && !yc && x.t == y.t && x.lo == y.lo) {
        if (k == K::Xor) o.push_back({C(0, n), 0, (uint8_t)n}); else o.push_back(x);
      } else if (xc || yc) {
        u64 v = xc ? xv : yv; Seg z = xc ? y : x;
        bool ones = v == maskw(n);
        if (k == K::And) { if (ones) o.push_back(z); else o.push_back({C(0, n), 0, (uint8_t)n}); }
        else if (k == K::Or) { if (ones) o.push_back({C(maskw(n), n), 0, (uint8_t)n}); else o.push_back(z); }
        else { if (!ones) o.push_back(z); else if (n == w) { ok = false; break; } else { T q = slice(z.t, z.lo, n); segsOf(sub(C(maskw(n), n), q), o); } }
      } else {
        if (n == w) { ok = false; break; }
        T z = bitop(k, slice(concat({Seg{x.t, 0, x.t->w}}), x.lo, n), slice(concat({Seg{y.t, 0, y.t->w}}), y.lo, n));
        segsOf(z, o);
      }
      oi += n; oj += n;
      if (oi == sa[i].len) { ++i; oi = 0; }
      if (oj == sb[j].len) { ++j; oj = 0; }
    }
    if (ok) return concat(o);
    if (a->id > b->id) std::swap(a, b);
    return op(k, w, {a, b});
  }
  T shl(T a, T b) {
    unsigned w = a->w;
    if (b->isC()) {
      u64 n = b->c;
      if (n >= w) return C(0, w);
      if (n == 0) return a;
      if (a->k == K::Lin) return mulc(a, 1ull << n);
      return concatBits({C(0, n), slice(a, 0, w - n)});
    }
    return op(K::Shl, w, {a, b});
  }
  T concatBits(std::vector<T> parts) {
    std::vector<Seg> s;
    for (T p : parts) segsOf(p, s);
    return concat(s);
  }
  T lshr(T a, T b) {
    unsigned w = a->w;
    if (b->isC()) {
      u64 n = b->c;
      if (n >= w) return C(0, w);
      if (n == 0) return a;
      return concatBits({slice(a, n, w - n), C(0, n)});
    }
    return op(K::LShr, w, {a, b});
  }
  T ashr(T a, T b) {
    unsigned w = a->w;
    if (b->isC()) {
      u64 n = b->c;
      if (n >= w) n = w - 1;
      if (n == 0) return a;
      if (a->isC()) return C((u64)(sx(a->c, w) >> n), w);
      return sext(slice(a, n, w - n), w);
    }
    return op(K::AShr, w, {a, b});
  }

  // ---- booleans
  T lnot(T a) {
    if (a->isC()) return C(!a->c, 1);
    if (a->k == K::Not) return a->a[0];
    return op(K::Not, 1, {a});
  }
  T land(T a, T b) { return bitop(K::And, a, b); }
  T lor(T a, T b) { return bitop(K::Or, a, b); }
  T eq(T a, T b) {
    if (a == b) return tru();
    if (a->isC() && b->isC()) return C(a->c == b->c, 1);
    if (a->isC()) std::swap(a, b);
    unsigned w = a->w;
    if (w == 1) {
      if (b->isC()) return b->c ? a : lnot(a);
    }
    if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w) return eq(a->a[0], b->a[0]);
    if (a->k == K::SExt && b->isC()) {
      unsigned n = a->a[0]->w;
      if ((u64)sx(b->c, n) != (u64)sx(b->c, w)) return fls();
      return eq(a->a[0], C(b->c, n));
    }
    if (a->k != K::Lin && b->k != K::Lin && a->k != K::SExt && b->k != K::SExt &&
        (a->k == K::Concat || b->k == K::Concat) && (b->isC() || b->k == K::Concat || a->k == K::Concat)) {
      // piecewise
      std::vector<Seg> sa, sb;
      segsOf(a, sa); segsOf(b, sb);
      bool single = (sa.size() == 1 && sb.size() == 1);
      if (!single) {
        size_t i = 0, j = 0; unsigned oi = 0, oj = 0; T r = tru();
        while (i < sa.size() && j < sb.size()) {
          unsigned n = std::min<unsigned>(sa[i].len - oi, sb[j].len - oj);
          r = land(r, eq(slice(concat({sa[i]}), oi, n), slice(concat({sb[j]}), oj, n)));
          if (r->isC() && !r->c) return r;
          oi += n; oj += n;
          if (oi == sa[i].len) { ++i; oi = 0; }
          if (oj == sb[j].len) { ++j; oj = 0; }
        }
        return r;
      }
    }
    if (a->k == K::Lin || b->k == K::Lin) {
      T d = sub(a, b);
      if (d->isC()) return C(d->c == 0, 1);
      if (d->k == K::Lin) {
        if (d->lin.size() == 1) {
          u64 c = d->lin[0].first;
          if (c & 1) {
            u64 inv = 1;
            for (int q = 0; q < 7; ++q) inv *= 2 - c * inv;
            T rhs = C((0 - d->c) * inv, w);
            if (d->lin[0].second != a || b != rhs) return eq(d->lin[0].second, rhs);
          }
        }
        // canonical sign: make first coefficient the smaller of c, -c.
        u64 c0 = d->lin[0].first;
        if (c0 > ((0 - c0) & maskw(w))) d = mulc(d, ~0ull);
        if (d->k == K::Lin) {
          u64 c = d->c;
          // common power-of-two factor: only the low bits of the cofactor matter
          unsigned s = 64;
          for (auto& [q, x] : d->lin) s = std::min<unsigned>(s, __builtin_ctzll(q));
          if (s && s < w) {
            if (c & maskw(s)) return fls();
            auto v = d->lin;
            for (auto& [q, x] : v) q >>= s;
            return eq(slice(mkLin(v, c >> s, w), 0, w - s), C(0, w - s));
          }
          T l = mkLin(d->lin, 0, w);
          return op(K::Eq, 1, {l, C(0 - c, w)});
        }
        return eq(d, C(0, w));
      }
      return eq(d, C(0, w));
    }
    // x & (x - 1) drops the lowest set bit, x & -x isolates it.
    if (a->k == K::And && b->isC() && b->c == 0)
      for (int i = 0; i < 2; ++i)
        if (sub(a->a[i], C(1, w)) == a->a[1 - i]) return ult(mk(K::Ctpop, w, a->a[i]), C(2, w));
    for (int j = 0; j < 2; ++j, std::swap(a, b))
      if (a->k == K::And)
        for (int i = 0; i < 2; ++i)
          if (a->a[i] == b && mulc(b, maskw(w)) == a->a[1 - i]) return ult(mk(K::Ctpop, w, b), C(2, w));
    if (!b->isC() && a->id > b->id) std::swap(a, b);
    return op(K::Eq, 1, {a, b});
  }
  T ult(T a, T b) {
    unsigned w = a->w;
    if (a == b) return fls();
    if (a->isC() && b->isC()) return C(a->c < b->c, 1);
    if (b->isC() && b->c == 0) return fls();
    if (a->isC() && a->c == maskw(w)) return fls();
    if (b->isC() && b->c == 1) return eq(a, C(0, w));
    if (a->isC() && a->c == 0) return lnot(eq(b, C(0, w)));
    // x ^ (x - 1) > x - 1 for exactly the powers of two (libc++'s has_single_bit)
    if (b->k == K::Xor)
      for (int i = 0; i < 2; ++i)
        if (b->a[1 - i] == a && sub(b->a[i], C(1, w)) == a) return eq(mk(K::Ctpop, w, b->a[i]), C(1, w));
    // strip common constant top bits
    auto topc = [&](T t, unsigned& n, u64& v) {
      if (t->isC()) { n = 64; v = 0; return true; }
      if (t->k == K::Concat && t->segs.back().t->isC()) { n = t->segs.back().len; v = t->segs.back().t->c; return true; }
      return false;
    };
    unsigned na, nb; u64 va, vb;
    if (topc(a, na, va) && topc(b, nb, vb)) {
      unsigned n = std::min<unsigned>({na, nb, (unsigned)w});
      u64 ta = a->isC() ? a->c >> (w - n) : (va >> (na - n));
      u64 tb = b->isC() ? b->c >> (w - n) : (vb >> (nb - n));
      if (ta != tb) return C(ta < tb, 1);
      if (n < w) return ult(slice(a, 0, w - n), slice(b, 0, w - n));
    }
    return op(K::Ult, 1, {a, b});
  }
  T slt(T a, T b) {
    unsigned w = a->w;
    if (a == b) return fls();
    if (a->isC() && b->isC()) return C(sx(a->c, w) < sx(b->c, w), 1);
    auto nonneg = [&](T t) { return t->isC() ? sx(t->c, w) >= 0 : topZero(t); };
    if (nonneg(a) && nonneg(b)) return ult(a, b);
    if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w) return slt(a->a[0], b->a[0]);
    if (a->k == K::SExt && b->isC()) {
      unsigned n = a->a[0]->w; i64 v = sx(b->c, w);
      i64 mx = (i64)maskw(n - 1), mn = -mx - 1;
      if (v > mx) return tru();
      if (v <= mn) return fls();
      return slt(a->a[0], C((u64)v, n));
    }
    if (b->k == K::SExt && a->isC()) {
      unsigned n = b->a[0]->w; i64 v = sx(a->c, w);
      i64 mx = (i64)maskw(n - 1), mn = -mx - 1;
      if (v >= mx) return fls();
      if (v < mn) return tru();
      return slt(C((u64)v, n), b->a[0]);
    }
    // x + 2^(w-1) compares signed as x does unsigned
    auto biased = [&](T t) { u64 h = 1ull << (w - 1); return t->k == K::Lin && (((t->c - h + 32) & maskw(w)) <= 64); };
    if (w >= 8 && (biased(a) || biased(b)) && (biased(a) || a->isC()) && (biased(b) || b->isC()))
      return ult(add(a, C(1ull << (w - 1), w)), add(b, C(1ull << (w - 1), w)));
    return op(K::Slt, 1, {a, b});
  }

  // ---- concrete evaluation of a term under an assignment to its leaves
  static u64 evalOp(K k, unsigned w, unsigned aw, u64 x, u64 y, bool& bad) {
    u64 m = maskw(w);
    switch (k) {
      case K::Not: return !x;
      case K::Eq: return x == y;
      case K::Ult: return x < y;
      case K::Slt: return sx(x, aw) < sx(y, aw);
      case K::Mul: return (x * y) & m;
      case K::UDiv: if (!y) { bad = true; return 0; } return x / y;
      case K::URem: if (!y) { bad = true; return 0; } return x % y;
      case K::SDiv: { i64 p = sx(x, aw), q = sx(y, aw); if (!q) { bad = true; return 0; }
                      if (q == -1) return (0 - (u64)p) & m; return (u64)(p / q) & m; }
      case K::SRem: { i64 p = sx(x, aw), q = sx(y, aw); if (!q) { bad = true; return 0; }
                      if (q == -1) return 0; return (u64)(p % q) & m; }
      case K::Shl: return y >= w ? 0 : (x << y) & m;
      case K::LShr: return y >= w ? 0 : (x >> y);
      case K::AShr: return (u64)(sx(x, aw) >> (y >= w ? w - 1 : y)) & m;
      case K::And: return x & y;
      case K::Or: return x | y;
      case K::Xor: return x ^ y;
      case K::Ctlz: return x ? (u64)__builtin_clzll(x) - (64 - aw) : aw;
      case K::Cttz: return x ? (u64)__builtin_ctzll(x) : aw;
      case K::Ctpop: return (u64)__builtin_popcountll(x);
      case K::Bswap: { u64 r = 0; for (unsigned i = 0; i < aw / 8; ++i) r |= ((x >> (8 * i)) & 0xff) << (aw - 8 - 8 * i); return r; }
      case K::UAddO: return ((u128)x + y) > maskw(aw);
      case K::UMulO: return ((u128)x * y) > maskw(aw);
      case K::SAddO: { i128 r = (i128)sx(x, aw) + sx(y, aw); return r != (i128)sx((u64)r & maskw(aw), aw); }
      case K::SSubO: { i128 r = (i128)sx(x, aw) - sx(y, aw); return r != (i128)sx((u64)r & maskw(aw), aw); }
      case K::SMulO: { i128 r = (i128)sx(x, aw) * sx(y, aw); return r != (i128)sx((u64)r & maskw(aw), aw); }
      default: bad = true; return 0;
    }
  }
  // Generic op builder with constant folding.
  T mk(K k, unsigned w, T a, T b = nullptr) {
    bool bad = false;
    if (a->isC() && (!b || b->isC())) {
      u64 v = evalOp(k, w, a->w, a->c, b ? b->c : 0, bad);
      if (!bad) return C(v, w);
    }
    if (k == K::UDiv && b->isC() && b->c && !(b->c & (b->c - 1))) return lshr(a, C(__builtin_ctzll(b->c), w));
    if (k == K::URem && b->isC() && b->c && !(b->c & (b->c - 1))) return bitop(K::And, a, C(b->c - 1, w));
    if (k == K::UMulO && ((a->isC() && a->c <= 1) || (b->isC() && b->c <= 1))) return fls();
    if (k == K::SSubO && a->isC() && a->c == 0) return eq(b, C(1ull << (a->w - 1), a->w));
    if ((k == K::SAddO || k == K::SSubO) && b->isC() && b->c == 0) return fls();
    if (k == K::SAddO && a->isC() && a->c == 0) return fls();
    // with one constant operand, overflow is a comparison with the other
    if (k == K::SAddO && (a->isC() || b->isC())) {
      T x = a->isC() ? b : a; u64 n = a->w, c = a->isC() ? a->c : b->c, h = 1ull << (n - 1);
      return c & h ? slt(x, C(h - c, n)) : slt(C(h - 1 - c, n), x);
    }
    if (k == K::SSubO && b->isC()) {
      u64 n = a->w, c = b->c, h = 1ull << (n - 1);
      return c & h ? slt(C(h - 1 + c, n), a) : slt(a, C(h + c, n));
    }
    if (k == K::UAddO && ((a->isC() && a->c == 0) || (b->isC() && b->c == 0))) return fls();
    if ((k == K::Ctpop || k == K::Ctlz || k == K::Cttz) && topZero(a)) {
      // strip the constant-zero top bits
      unsigned n = 0;
      const Seg& ts = a->segs.back();
      while (n < ts.len && !((ts.t->c >> (ts.len - 1 - n)) & 1)) ++n;
      unsigned in = a->w - n;
      T x = slice(a, 0, in);
      if (k == K::Ctpop) if (in >= 7) return zext(mk(k, in, x), w); else return op(k, w, {a});
      if (k == K::Ctlz && in >= 7) return add(zext(mk(k, in, x), w), C(n, w));
      return op(k, w, {a});
    }
    if (k == K::Bswap) {
      std::vector<T> p;
      for (int i = (int)a->w / 8 - 1; i >= 0; --i) p.push_back(slice(a, i * 8, 8));
      return concatBits(p);
    }
    if (b) return op(k, w, {a, b});
    return op(k, w, {a});
  }
};

extern TermPool P;

struct Env {  // leaf assignment
  std::unordered_map<const Term*, u64> v;
  std::unordered_map<const Term*, u64> memo;
  bool bad = false;
  u64 ev(T t) {
    if (t->isC()) return t->c;
    if (t->k == K::Sym) { auto it = v.find(t); return it == v.end() ? 0 : it->second & maskw(t->w); }
    auto it = memo.find(t);
    if (it != memo.end()) return it->second;
    u64 r = 0;
    switch (t->k) {
      case K::Concat: {
        unsigned pos = 0;
        for (auto& s : t->segs) { r |= ((ev(s.t) >> s.lo) & maskw(s.len)) << pos; pos += s.len; }
        break;
      }
      case K::Lin: r = t->c; for (auto& [c, x] : t->lin) r += c * ev(x); r &= maskw(t->w); break;
      case K::SExt: r = (u64)sx(ev(t->a[0]), t->a[0]->w) & maskw(t->w); break;
      default: r = TermPool::evalOp(t->k, t->w, t->a[0]->w, ev(t->a[0]), t->a.size() > 1 ? ev(t->a[1]) : 0, bad);
    }
    return memo[t] = r;
  }
};

inline std::string show(T t, int d = 0) {
  auto hex = [](u64 v) { char b[32]; snprintf(b, 32, v < 10 ? "%llu" : "0x%llx", (unsigned long long)v); return std::string(b); };
  if (d > 6) return "...";
  switch (t->k) {
    case K::Const: return hex(t->c);
    case K::Sym: return t->name;
    case K::Concat: {
      std::string r = "{";
      for (auto i = t->segs.rbegin(); i != t->segs.rend(); ++i) {
        if (r.size() > 1) r += ",";
        r += show(i->t, d + 1) + "[" + std::to_string(i->lo) + "+" + std::to_string(i->len) + "]";
      }
      return r + "}";
    }
    case K::Lin: {
      std::string r = "(";
      for (auto& [c, x] : t->lin) r += (r.size() > 1 ? "+" : "") + (c == 1 ? "" : std::to_string(sx(c, t->w)) + "*") + show(x, d + 1);
      return r + (t->c ? "+" + hex(t->c) : "") + ")";
    }
    default: {
      static const char* n[] = {"C","S","cat","lin","sext","not","eq","ult","slt","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","clz","ctz","pop","bswap","uaddo","umulo","saddo","ssubo","smulo"};
      std::string r = n[(int)t->k]; r += "(";
      for (size_t i = 0; i < t->a.size(); ++i) r += (i ? "," : "") + show(t->a[i], d + 1);
      return r + ")";
    }
  }
}
