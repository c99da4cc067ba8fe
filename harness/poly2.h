// 2D workload generator, bridge to the library's polygons, structural monitor.
#pragma once
#include <array>
#include <algorithm>
#include "oracle.h"
extern "C" {
#include "r2d.h"
#include "v2d.h"
}
static const LD EPS2 = std::numeric_limits<r2d_real>::epsilon();
static const bool FLOAT2 = sizeof(r2d_real) == 4;
static double G2_SCALE = 4, G2_XSCALE = 20, G2_OFF = 4;

struct V2 { double x[2]; double &operator[](int i) { return x[i]; } double operator[](int i) const { return x[i]; } };
static V2 mk2(double a, double b) { V2 v; v.x[0] = a; v.x[1] = b; return v; }

// a region: closed loops, interior to the left of each (holes run clockwise)
struct Shape {
  std::string name;
  std::vector<std::vector<V2>> loops;
  bool simple = true;
  int nv() const { int n = 0; for (auto &l : loops) n += (int)l.size(); return n; }
};
struct Place2 { double scale = 1, off = 0; bool snapped = false; };

static Shape s_convex(Rng &r, int n) {
  Shape s; s.name = "convex"; s.loops.resize(1);
  std::vector<double> a;
  for (int i = 0; i < n; ++i) a.push_back(6.283185307179586 * (i + r.uni(0.02, 0.98) * 0.98) / n);
  double ex = r.uni(0.3, 1), ey = r.uni(0.3, 1);
  for (double t : a) s.loops[0].push_back(mk2(ex * cos(t), ey * sin(t)));
  return s;
}
static Shape s_star(Rng &r, int n) {
  Shape s; s.name = "star"; s.loops.resize(1);
  bool alt = r.chance(0.4);
  double inner = r.uni(0.1, 0.8);
  for (int i = 0; i < n; ++i) {
    double t = 6.283185307179586 * (i + (alt ? 0 : r.uni(0, 0.9))) / n, q = alt ? (i & 1 ? inner : 1) : r.uni(0.2, 1);
    s.loops[0].push_back(mk2(q * cos(t), q * sin(t)));
  }
  return s;
}
static Shape s_comb(Rng &r, int teeth) {
  Shape s; s.name = "comb"; s.loops.resize(1);
  auto &l = s.loops[0];
  double w = 2.0 / (2 * teeth + 1), h = r.uni(-0.6, 0.1);
  bool ragged = r.chance(0.5);
  l.push_back(mk2(-1, -1));
  l.push_back(mk2(1, -1));
  for (int t = teeth; t >= 0; --t) {
    double top = ragged ? r.uni(0.4, 1) : 1.0, x0 = -1 + 2 * t * w, x1 = x0 + w;
    if (t == teeth) x1 = 1;
    l.push_back(mk2(x1, top));
    l.push_back(mk2(x0, top));
    if (t > 0) { l.push_back(mk2(x0, h)); l.push_back(mk2(x0 - w, h)); }
  }
  l.back()[0] = -1;
  return s;
}
static Shape s_box(Rng &r) {
  Shape s; s.name = "box"; s.loops.resize(1);
  double a = r.uni(-1, -0.1), b = r.uni(0.1, 1), c = r.uni(-1, -0.1), d = r.uni(0.1, 1);
  s.loops[0] = {mk2(a, c), mk2(b, c), mk2(b, d), mk2(a, d)};
  return s;
}
static Shape s_hole(Rng &r, int n) {
  Shape s = s_convex(r, std::max(6, n));
  s.name = "hole";
  std::vector<V2> h;
  int k = r.range(3, std::max(3, n / 2));
  double q = r.uni(0.05, 0.13);
  for (int i = 0; i < k; ++i) { double t = -6.283185307179586 * i / k; h.push_back(mk2(q * cos(t), q * sin(t))); }
  s.loops.push_back(h);
  return s;
}
static Shape s_spiral(Rng &r, int n) {
  Shape s; s.name = "spiral"; s.loops.resize(1);
  std::vector<V2> in, ou;
  double turns = r.uni(0.7, 2.5);
  int k = std::max(3, n / 2);
  for (int i = 0; i < k; ++i) {
    double t = 6.283185307179586 * turns * i / (k - 1), q = 0.15 + 0.7 * i / (k - 1);
    double th = std::min(0.5, 0.25 / (turns + 0.5));
    ou.push_back(mk2((q + th) * cos(t), (q + th) * sin(t)));
    in.push_back(mk2(q * cos(t), q * sin(t)));
  }
  for (auto &v : ou) s.loops[0].push_back(v);
  for (int i = k - 1; i >= 0; --i) s.loops[0].push_back(in[i]);
  s.simple = false;
  return s;
}
static Shape base_shape(Rng &r, int budget) {
  int big = r.chance(0.1) ? budget : std::min(budget, 24);
  switch (r.range(0, 8)) {
    case 0: return s_box(r);
    case 1: return s_convex(r, 3);
    case 2: case 3: return s_convex(r, r.range(3, std::max(3, big)));
    case 4: case 5: return s_star(r, r.range(4, std::max(4, big)));
    case 6: return s_comb(r, r.range(1, std::max(1, big / 4 - 1)));
    case 7: return s_hole(r, std::max(6, r.range(6, std::max(6, big / 2))));
    default: return s_spiral(r, r.range(6, std::max(6, big)));
  }
}
static void xf2(Shape &s, double a, double b, double c, double d, double tx, double ty) {
  for (auto &l : s.loops) for (auto &v : l) { double x = v[0], y = v[1]; v[0] = a * x + b * y + tx; v[1] = c * x + d * y + ty; }
}
static Shape gen_shape(Rng &r, int budget, Place2 &pl, bool extreme = true) {
  Shape s = base_shape(r, budget);
  if (r.chance(0.15) && s.nv() * 2 < budget) {   // several components
    int k = r.range(1, 3);
    for (int i = 0; i < k; ++i) {
      Shape t = base_shape(r, std::max(6, budget / (k + 2)));
      if (s.nv() + t.nv() > budget) break;
      xf2(t, 1, 0, 0, 1, 2.5 * (i + 1) * (r.chance(0.5) ? 1 : -1), r.uni(-1, 1));
      for (auto &l : t.loops) s.loops.push_back(l);
      s.simple = s.simple && t.simple;
    }
    s.name += "+";
  }
  if (r.chance(0.1)) {                            // points in the middle of edges
    for (auto &l : s.loops) {
      if ((int)l.size() * 2 > budget || s.nv() + (int)l.size() > budget) continue;
      std::vector<V2> n;
      for (size_t i = 0; i < l.size(); ++i) { V2 a = l[i], b = l[(i + 1) % l.size()]; n.push_back(a); if (r.chance(0.5)) n.push_back(mk2((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)); }
      l = n;
    }
    s.name += "m";
  }
  if (r.chance(0.05) && s.nv() < budget) {        // a repeated point
    auto &l = s.loops[0];
    int i = r.range(0, (int)l.size() - 1);
    l.insert(l.begin() + i, l[i]);
    s.name += "r";
  }
  if (r.chance(0.5)) { double t = r.uni(0, 6.3), c = cos(t), q = sin(t); xf2(s, c, -q, q, c, 0, 0); }
  if (r.chance(0.15)) { double a = pow(10, r.uni(-3, 0)); xf2(s, 1, 0, 0, a, 0, 0); s.name += "f"; }
  if (r.chance(0.06)) { for (auto &l : s.loops) std::reverse(l.begin(), l.end()); s.name += "-"; }
  if (r.chance(0.4)) {
    pl.snapped = true;
    int q = r.range(1, 8);
    for (auto &l : s.loops) for (auto &v : l) for (int i = 0; i < 2; ++i) v[i] = floor(v[i] * q + 0.5);
    double k = ldexp(1, r.range(-3, 3));
    xf2(s, k, 0, 0, k, k * r.range(-4, 4), k * r.range(-4, 4));
    pl.scale = k;
    s.simple = false;
    if (extreme && !FLOAT2 && r.chance(0.1)) { double z = ldexp(1, r.range(-60, 60)); xf2(s, z, 0, 0, z, 0, 0); pl.scale *= z; }
  } else {
    pl.scale = extreme && r.chance(0.1) ? pow(10, r.uni(-G2_XSCALE, G2_XSCALE)) : pow(10, r.uni(-G2_SCALE, G2_SCALE));
    if (r.chance(0.3)) pl.scale = 1;
    pl.off = r.chance(0.4) ? pow(10, r.uni(-1, G2_OFF)) : 0;
    double t = r.uni(0, 6.3);
    xf2(s, pl.scale, 0, 0, pl.scale, pl.scale * pl.off * cos(t), pl.scale * pl.off * sin(t));
  }
  for (auto &l : s.loops) for (auto &v : l) for (int i = 0; i < 2; ++i) v[i] = (double)(r2d_real)v[i];
  return s;
}
static Ext<2> shape_ext(const Shape &s) { Ext<2> e; for (auto &l : s.loops) for (auto &v : l) { LD q[2] = {v[0], v[1]}; e.add(q); } return e; }
static LD shape_per(const Shape &s) {
  LD p = 0;
  for (auto &l : s.loops) for (size_t i = 0; i < l.size(); ++i) p += hypotl((LD)l[i][0] - l[(i + 1) % l.size()][0], (LD)l[i][1] - l[(i + 1) % l.size()][1]);
  return p;
}
static Body<2> shape_body(const Shape &s) {
  Body<2> b;
  for (auto &l : s.loops) for (size_t i = 1; i + 1 < l.size(); ++i) {
    Simp<2> t;
    for (int k = 0; k < 2; ++k) { t.x[0][k] = l[0][k]; t.x[1][k] = l[i][k]; t.x[2][k] = l[i + 1][k]; }
    b.s.push_back(t);
  }
  return b;
}
static r2d_rvec2 rv2(const V2 &v) { r2d_rvec2 q; q.x = (r2d_real)v[0]; q.y = (r2d_real)v[1]; return q; }
static bool build_poly2(Rng &r, const Shape &s, r2d_poly *P) {
  int n = s.nv();
  if (n > R2D_MAX_VERTS) return false;
  std::vector<int> perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  if (r.chance(0.5)) r.shuffle(perm);
  int o = 0;
  for (auto &l : s.loops) {
    int k = (int)l.size();
    for (int i = 0; i < k; ++i) {
      r2d_vertex &q = P->verts[perm[o + i]];
      q.pnbrs[0] = perm[o + (i + 1) % k];
      q.pnbrs[1] = perm[o + (i + k - 1) % k];
      q.pos = rv2(l[i]);
    }
    o += k;
  }
  P->nverts = n;
  return true;
}
struct G2 { int loops = 0; int minloop = 1 << 30; };
static G2 check_graph2(const r2d_poly *P, const char *what) {
  G2 g;
  int n = P->nverts;
  M.count("graphs_checked");
  if (n < 0 || n > R2D_MAX_VERTS) M.fail("graph-count", "%s: vertex count %d out of range", what, n);
  if (n == 0) { M.count("graphs_empty"); return g; }
  if (n < 3) M.fail("graph-small", "%s: %d vertices cannot bound a region", what, n);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 2; ++k) {
    int w = P->verts[v].pnbrs[k];
    if (w < 0 || w >= n) M.fail("graph-range", "%s: vertex %d has neighbour %d of %d", what, v, w, n);
    if (w == v) M.fail("graph-self", "%s: vertex %d points to itself", what, v);
    if (!std::isfinite((double)P->verts[v].pos.xy[k])) M.fail("graph-nan", "%s: vertex %d position not finite", what, v);
  }
  for (int v = 0; v < n; ++v) {
    if (P->verts[v].pnbrs[0] == P->verts[v].pnbrs[1]) M.fail("graph-double", "%s: vertex %d has one neighbour twice", what, v);
    if (P->verts[P->verts[v].pnbrs[0]].pnbrs[1] != v || P->verts[P->verts[v].pnbrs[1]].pnbrs[0] != v)
      M.fail("graph-oneway", "%s: links of vertex %d are not reciprocated", what, v);
  }
  std::vector<char> seen(n, 0);
  for (int v = 0; v < n; ++v) {
    if (seen[v]) continue;
    int c = v, len = 0;
    do { seen[c] = 1; ++len; c = P->verts[c].pnbrs[0]; } while (c != v);
    g.loops++;
    g.minloop = std::min(g.minloop, len);
  }
  M.count("loops_walked", g.loops);
  return g;
}
static Body<2> poly_body2(const r2d_poly *P) {
  Body<2> b;
  if (P->nverts <= 0) return b;
  LD c[2] = {0, 0};
  for (int v = 0; v < P->nverts; ++v) for (int i = 0; i < 2; ++i) c[i] += P->verts[v].pos.xy[i];
  for (int i = 0; i < 2; ++i) c[i] /= P->nverts;
  for (int v = 0; v < P->nverts; ++v) {
    int w = P->verts[v].pnbrs[0];
    Simp<2> t;
    for (int k = 0; k < 2; ++k) { t.x[0][k] = c[k]; t.x[1][k] = P->verts[v].pos.xy[k]; t.x[2][k] = P->verts[w].pos.xy[k]; }
    b.s.push_back(t);
  }
  return b;
}
static Ext<2> poly_ext2(const r2d_poly *P) { Ext<2> e; for (int v = 0; v < P->nverts; ++v) { LD q[2] = {P->verts[v].pos.x, P->verts[v].pos.y}; e.add(q); } return e; }

static r2d_plane rp2(const Plane<2> &p) { r2d_plane q; q.n.x = (r2d_real)p.n[0]; q.n.y = (r2d_real)p.n[1]; q.d = (r2d_real)p.d; return q; }
static Plane<2> line_thru(const LD *n, const LD *pt) {
  Plane<2> p;
  LD l = hypotl(n[0], n[1]);
  for (int i = 0; i < 2; ++i) p.n[i] = (r2d_real)(n[i] / l);
  p.d = -(LD)(r2d_real)((r2d_real)p.n[0] * (r2d_real)pt[0] + (r2d_real)p.n[1] * (r2d_real)pt[1]);
  return p;
}
struct Sides2 { int pos = 0, neg = 0, zero = 0; bool sure = true; bool front() const { return sure && !neg; } bool behind() const { return sure && !pos && neg; } };
// see sides3: signs that are beyond doubt
static Sides2 sides2(const r2d_poly *P, const r2d_plane &q) {
  Sides2 o;
  bool exact = (q.n.x == 0 && (q.n.y == 1 || q.n.y == -1)) || (q.n.y == 0 && (q.n.x == 1 || q.n.x == -1));
  LD R = fabsl((LD)q.d);
  for (int v = 0; v < P->nverts; ++v) for (int i = 0; i < 2; ++i) R = std::max(R, fabsl((LD)P->verts[v].pos.xy[i]));
  for (int v = 0; v < P->nverts; ++v) {
    LD s = q.d;
    for (int i = 0; i < 2; ++i) s += (LD)q.n.xy[i] * P->verts[v].pos.xy[i];
    if (!exact && fabsl(s) <= 32 * EPS2 * R) o.sure = false;
    if (s > 0) ++o.pos; else if (s < 0) ++o.neg; else ++o.zero;
  }
  return o;
}
static bool same_shape2(const r2d_poly *A, const r2d_poly *B) {
  auto edges = [](const r2d_poly *P) {
    std::vector<std::array<LD, 4>> e;
    for (int v = 0; v < P->nverts; ++v) {
      int w = P->verts[v].pnbrs[0];
      if (w < 0 || w >= P->nverts) continue;
      e.push_back({P->verts[v].pos.x, P->verts[v].pos.y, P->verts[w].pos.x, P->verts[w].pos.y});
    }
    std::sort(e.begin(), e.end());
    return e;
  };
  return A->nverts == B->nverts && edges(A) == edges(B);
}

static Plane<2> gen_line(Rng &r, const Shape &s, const Ext<2> &e, int &cls) {
  std::vector<V2> all;
  for (auto &l : s.loops) for (auto &v : l) all.push_back(v);
  double t = r.uni(0, 6.283185307179586);
  LD n[2] = {cos(t), sin(t)}, pt[2];
  LD w = r.chance(0.7) ? 0.35L : 0.5L;
  for (int i = 0; i < 2; ++i) pt[i] = (e.lo[i] + e.hi[i]) / 2 + (e.hi[i] - e.lo[i]) * w * r.uni(-1, 1);
  auto &l = s.loops[r.range(0, (int)s.loops.size() - 1)];
  int k = r.range(0, (int)l.size() - 1);
  V2 a = l[k], b = l[(k + 1) % l.size()], c = all[r.range(0, (int)all.size() - 1)];
  auto axis = [&] { int ax = r.range(0, 1); n[0] = n[1] = 0; n[ax] = r.chance(0.5) ? 1 : -1; };
  auto along = [&](const V2 &p, const V2 &q) {
    LD dx = (LD)q[0] - p[0], dy = (LD)q[1] - p[1], h = hypotl(dx, dy), sg = r.chance(0.5) ? 1 : -1;
    if (h > 0) { n[0] = -sg * dy / h; n[1] = sg * dx / h; }
    pt[0] = p[0]; pt[1] = p[1];
  };
  cls = r.range(0, 12);
  switch (cls) {
    case 0: case 1: break;
    case 2: case 3: axis(); break;
    case 4: axis(); pt[0] = a[0]; pt[1] = a[1]; break;
    case 5: pt[0] = a[0]; pt[1] = a[1]; break;
    case 12: axis(); for (int i = 0; i < 2; ++i) pt[i] = r.chance(0.5) ? e.lo[i] : e.hi[i]; break;   // touching exactly
    case 6: along(a, b); break;
    case 7: { along(a, b); LD q = powl(10, r.uni(-15, -3)) * e.L * r.uni(-1, 1); for (int i = 0; i < 2; ++i) pt[i] += q * n[i]; break; }
    case 8: { along(a, b); LD q = powl(10, r.uni(-14, -4)); for (int i = 0; i < 2; ++i) n[i] += q * r.uni(-1, 1); break; }
    case 9: along(a, c); break;
    case 10: case 11: { LD far = e.L * r.uni(1, 30); for (int i = 0; i < 2; ++i) pt[i] = (e.lo[i] + e.hi[i]) / 2 + (cls == 10 ? -1 : 1) * far * n[i]; break; }
  }
  return line_thru(n, pt);
}

static const LD KTOL2 = 10;
struct Acc2 { Ext<2> e; LD per = 0; int n = 0; };
static Acc2 acc(const Shape &s) { Acc2 a; a.e = shape_ext(s); a.per = shape_per(s); a.n = s.nv(); return a; }
static LD tol2(const Acc2 &a, const std::vector<int> &ex, int ncut, bool reduced = true) {
  int p = ex[0] + ex[1];
  LD R = a.e.Rmax + a.e.L;
  LD base = R * (a.per + 2 * (ncut + 1) * a.e.L) + a.n * a.e.L * a.e.L;
#ifndef SHIFT_POLY
  if (reduced) base += (a.n + 2 * ncut + 4) * R * R;
#else
  (void)reduced;
#endif
  LD mono = 1;
  for (int i = 0; i < 2; ++i) for (int k = 0; k < ex[i]; ++k) mono *= a.e.R[i] + a.e.L * 1e-3L;
  return KTOL2 * EPS2 * base * mono * (ncut + 2) * (p + 1) * (p + 1) + 1000 * (LD)std::numeric_limits<r2d_real>::min();
}
static std::vector<LD> lib_moments2(const r2d_poly *P, int p) {
  int n = R2D_NUM_MOMENTS(p);
  r2d_real *b = (r2d_real *)malloc(n * sizeof(r2d_real));
  for (int i = 0; i < n; ++i) b[i] = (r2d_real)-7.25e11;
  r2d_reduce(const_cast<r2d_poly *>(P), b, p);
  std::vector<LD> r(b, b + n);
  free(b);
  return r;
}
static void cmp_moments2(const char *key, const std::vector<LD> &got, const std::vector<LD> &want, int p, const Acc2 &a, int ncut, const char *what) {
  const auto &ex = exps<2>(p);
  for (size_t j = 0; j < ex.size(); ++j) M.close(key, got[j], want[j], tol2(a, ex[j], ncut), what, (int)j);
}
