// Independent geometric oracle in extended precision, any dimension D.
// A body is a list of signed simplices; half-space intersection is done by
// recursive edge bisection; integrals by Gauss-Legendre quadrature through the
// collapsed (Duffy) map, which is exact for the polynomial degrees used.
#pragma once
#include "common.h"

template <int D> struct Simp { LD x[D + 1][D]; };

template <int D> static LD detn(LD m[D][D]) {
  LD det = 1;
  for (int c = 0; c < D; ++c) {
    int p = c;
    for (int r = c + 1; r < D; ++r) if (fabsl(m[r][c]) > fabsl(m[p][c])) p = r;
    if (m[p][c] == 0) return 0;
    if (p != c) { for (int k = 0; k < D; ++k) std::swap(m[p][k], m[c][k]); det = -det; }
    det *= m[c][c];
    for (int r = c + 1; r < D; ++r) {
      LD f = m[r][c] / m[c][c];
      for (int k = c; k < D; ++k) m[r][k] -= f * m[c][k];
    }
  }
  return det;
}

template <int D> static LD simp_det(const Simp<D> &s) {  // D! * signed volume
  if constexpr (D == 2) {
    return (s.x[1][0] - s.x[0][0]) * (s.x[2][1] - s.x[0][1]) - (s.x[1][1] - s.x[0][1]) * (s.x[2][0] - s.x[0][0]);
  } else if constexpr (D == 3) {
    LD a[3], b[3], c[3];
    for (int i = 0; i < 3; ++i) {
      a[i] = s.x[1][i] - s.x[0][i];
      b[i] = s.x[2][i] - s.x[0][i];
      c[i] = s.x[3][i] - s.x[0][i];
    }
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
  } else {
    LD m[D][D];
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) m[i][j] = s.x[i + 1][j] - s.x[0][j];
    return detn<D>(m);
  }
}

template <int D> struct Plane { LD n[D]; LD d; };

// append to out the part of s on the side (sgn=+1: n.x+d >= 0, -1: <= 0)
template <int D>
static void clip_simplex(const Simp<D> &s, const Plane<D> &pl, int sgn, std::vector<Simp<D>> &out, int depth = 0) {
  LD sd[D + 1];
  int ip = -1, in = -1;
  for (int v = 0; v <= D; ++v) {
    LD t = pl.d;
    for (int i = 0; i < D; ++i) t += pl.n[i] * s.x[v][i];
    sd[v] = sgn * t;
    if (sd[v] > 0 && (ip < 0 || sd[v] > sd[ip])) ip = v;
    if (sd[v] < 0 && (in < 0 || sd[v] < sd[in])) in = v;
  }
  if (in < 0) { if (ip >= 0) out.push_back(s); return; }
  if (ip < 0) return;
  if (depth > 40) { out.push_back(s); return; }
  LD t = sd[ip] / (sd[ip] - sd[in]);
  Simp<D> a = s, b = s;
  for (int i = 0; i < D; ++i) {
    LD m = s.x[ip][i] + t * (s.x[in][i] - s.x[ip][i]);
    a.x[in][i] = m;
    b.x[ip][i] = m;
  }
  // force the new vertex to lie exactly on the plane for the recursion by
  // treating its signed distance as zero
  struct Rec {
    static void go(const Simp<D> &s, LD *sd, int sgn, std::vector<Simp<D>> &out) {
      int ip = -1, in = -1;
      for (int v = 0; v <= D; ++v) {
        if (sd[v] > 0 && (ip < 0 || sd[v] > sd[ip])) ip = v;
        if (sd[v] < 0 && (in < 0 || sd[v] < sd[in])) in = v;
      }
      if (in < 0) { if (ip >= 0) out.push_back(s); return; }
      if (ip < 0) return;
      LD t = sd[ip] / (sd[ip] - sd[in]);
      Simp<D> a = s, b = s;
      LD sa[D + 1], sb[D + 1];
      for (int v = 0; v <= D; ++v) sa[v] = sb[v] = sd[v];
      for (int i = 0; i < D; ++i) {
        LD m = s.x[ip][i] + t * (s.x[in][i] - s.x[ip][i]);
        a.x[in][i] = m;
        b.x[ip][i] = m;
      }
      sa[in] = 0;
      sb[ip] = 0;
      go(a, sa, sgn, out);
      go(b, sb, sgn, out);
    }
  };
  LD sa[D + 1], sb[D + 1];
  for (int v = 0; v <= D; ++v) sa[v] = sb[v] = sd[v];
  sa[in] = 0;
  sb[ip] = 0;
  Rec::go(a, sa, sgn, out);
  Rec::go(b, sb, sgn, out);
}

template <int D> struct Body {
  std::vector<Simp<D>> s;
  void clip(const Plane<D> &pl, int sgn = 1) {
    std::vector<Simp<D>> o;
    o.reserve(s.size() + 8);
    for (auto &t : s) clip_simplex<D>(t, pl, sgn, o);
    s.swap(o);
  }
  LD volume() const {
    LD v = 0, f = 1;
    for (int i = 2; i <= D; ++i) f *= i;
    for (auto &t : s) v += simp_det<D>(t);
    return v / f;
  }
  LD absvolume() const {
    LD v = 0, f = 1;
    for (int i = 2; i <= D; ++i) f *= i;
    for (auto &t : s) v += fabsl(simp_det<D>(t));
    return v / f;
  }
};

static void gauss_legendre(int n, std::vector<LD> &x, std::vector<LD> &w) {  // on [0,1]
  x.resize(n); w.resize(n);
  for (int i = 0; i < n; ++i) {
    LD z = cosl(3.14159265358979323846264338327950288L * (i + 0.75L) / (n + 0.5L)), pp = 0;
    for (int it = 0; it < 100; ++it) {
      LD p1 = 1, p2 = 0;
      for (int j = 0; j < n; ++j) { LD p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
      pp = n * (z * p1 - p2) / (z * z - 1);
      LD dz = p1 / pp;
      z -= dz;
      if (fabsl(dz) < 1e-19L) break;
    }
    x[i] = (1 - z) / 2;
    w[i] = 1 / ((1 - z * z) * pp * pp);
  }
}

// barycentric quadrature on the unit simplex, weights summing to 1/D!
template <int D> struct Quad { std::vector<LD> lam; std::vector<LD> w; };

template <int D> static const Quad<D> &quad(int p) {
  static std::map<int, Quad<D>> cache;
  int n = (p + D + 1) / 2;
  if (n < 1) n = 1;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  std::vector<LD> gx, gw;
  gauss_legendre(n, gx, gw);
  Quad<D> q;
  int idx[D];
  for (int i = 0; i < D; ++i) idx[i] = 0;
  while (true) {
    LD rem = 1, w = 1, lam[D + 1];
    for (int i = 0; i < D; ++i) {
      LD u = gx[idx[i]];
      lam[i + 1] = rem * u;
      w *= gw[idx[i]] * powl(1 - u, D - 1 - i);
      rem *= 1 - u;
    }
    lam[0] = rem;
    for (int i = 0; i <= D; ++i) q.lam.push_back(lam[i]);
    q.w.push_back(w);
    int k = 0;
    while (k < D && ++idx[k] == n) idx[k++] = 0;
    if (k == D) break;
  }
  return cache[n] = q;
}

// exponent list in the documented row-major order
template <int D> static const std::vector<std::vector<int>> &exps(int p) {
  static std::map<int, std::vector<std::vector<int>>> cache;
  auto it = cache.find(p);
  if (it != cache.end()) return it->second;
  std::vector<std::vector<int>> r;
  for (int o = 0; o <= p; ++o) {
    std::vector<int> e(D, 0);
    struct G { static void go(int a, int left, std::vector<int> &e, std::vector<std::vector<int>> &r) {
      if (a == D - 1) { e[a] = left; r.push_back(e); return; }
      for (int i = left; i >= 0; --i) { e[a] = i; go(a + 1, left - i, e, r); }
    } };
    G::go(0, o, e, r);
  }
  return cache[p] = r;
}

template <int D> static std::vector<LD> body_moments(const Body<D> &b, int p) {
  const auto &ex = exps<D>(p);
  std::vector<LD> m(ex.size(), 0);
  const Quad<D> &q = quad<D>(p);
  size_t nq = q.w.size();
  LD pw[D][64];
  for (auto &s : b.s) {
    LD det = simp_det<D>(s);
    if (det == 0) continue;
    for (size_t k = 0; k < nq; ++k) {
      LD x[D];
      for (int i = 0; i < D; ++i) {
        x[i] = 0;
        for (int v = 0; v <= D; ++v) x[i] += q.lam[k * (D + 1) + v] * s.x[v][i];
        pw[i][0] = 1;
        for (int e = 1; e <= p; ++e) pw[i][e] = pw[i][e - 1] * x[i];
      }
      LD w = q.w[k] * det;
      for (size_t j = 0; j < ex.size(); ++j) {
        LD t = w;
        for (int i = 0; i < D; ++i) t *= pw[i][ex[j][i]];
        m[j] += t;
      }
    }
  }
  return m;
}

// magnitude of coordinates and extent, for error bounds
template <int D> struct Ext {
  LD R[D], Rmax = 0, L = 0, lo[D], hi[D];
  bool any = false;
  Ext() { for (int i = 0; i < D; ++i) { R[i] = 0; lo[i] = 1e4000L; hi[i] = -1e4000L; } }
  template <class P> void add(const P &p) {
    any = true;
    for (int i = 0; i < D; ++i) {
      LD v = p[i];
      R[i] = std::max(R[i], fabsl(v));
      lo[i] = std::min(lo[i], v);
      hi[i] = std::max(hi[i], v);
      Rmax = std::max(Rmax, R[i]);
      L = std::max(L, hi[i] - lo[i]);
    }
  }
  // bound for a monomial
  LD mono(const std::vector<int> &e) const {
    LD t = 1;
    for (int i = 0; i < D; ++i) for (int k = 0; k < e[i]; ++k) t *= R[i];
    return t;
  }
};
