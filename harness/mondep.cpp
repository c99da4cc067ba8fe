// Monitors of the legacy (deprecated/) tetrahedron voxelizer and quadrilateral rasterizer.
#include "common.h"
#include "oracle.h"
#include <pthread.h>
extern "C" {
#include "r3d.h"
#include "r2d.h"
}
static const LD EPSD = std::numeric_limits<r3d_real>::epsilon();
static r3d_real &comp(r3d_rvec3 &v, int k) { return k == 0 ? v.x : k == 1 ? v.y : v.z; }
static r2d_real &comp(r2d_rvec2 &v, int k) { return k == 0 ? v.x : v.y; }
static const bool FLOATD = sizeof(r3d_real) == 4;

template <int D> static const std::vector<std::vector<int>> &legacy_order();
template <> const std::vector<std::vector<int>> &legacy_order<3>() {
  static const std::vector<std::vector<int>> e = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}, {1, 1, 0}, {0, 1, 1}, {1, 0, 1}};
  return e;
}
template <> const std::vector<std::vector<int>> &legacy_order<2>() {
  static const std::vector<std::vector<int>> e = {{0, 0}, {1, 0}, {0, 1}, {2, 0}, {0, 2}, {1, 1}};
  return e;
}
// exact moments in the legacy order
template <int D> static std::vector<LD> legacy_moments(const Body<D> &b) {
  auto m = body_moments<D>(b, 2);
  auto &x = exps<D>(2);
  std::vector<LD> r;
  for (auto &e : legacy_order<D>()) for (size_t j = 0; j < x.size(); ++j) if (x[j] == e) r.push_back(m[j]);
  return r;
}
template <int D> static Body<D> box_body(const LD *lo, const LD *hi);
template <> Body<2> box_body<2>(const LD *lo, const LD *hi) {
  Body<2> b;
  LD c[4][2] = {{lo[0], lo[1]}, {hi[0], lo[1]}, {hi[0], hi[1]}, {lo[0], hi[1]}};
  for (int t = 1; t < 3; ++t) {
    Simp<2> s;
    for (int k = 0; k < 2; ++k) { s.x[0][k] = c[0][k]; s.x[1][k] = c[t][k]; s.x[2][k] = c[t + 1][k]; }
    b.s.push_back(s);
  }
  return b;
}
template <> Body<3> box_body<3>(const LD *lo, const LD *hi) {
  Body<3> b;
  static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
  for (int p = 0; p < 6; ++p) {
    Simp<3> s;
    LD x[3] = {lo[0], lo[1], lo[2]};
    for (int v = 0; v < 4; ++v) { for (int k = 0; k < 3; ++k) s.x[v][k] = x[k]; if (v < 3) x[P[p][v]] = hi[P[p][v]]; }
    if (p >= 3) for (int k = 0; k < 3; ++k) std::swap(s.x[0][k], s.x[1][k]);
    b.s.push_back(s);
  }
  return b;
}
// error bound of one cell: corner distances carry eps*(|plane offset| + coordinates)
template <int D> static LD tolc(const LD *lo, const LD *hi, LD off, const std::vector<int> &e) {
  LD R = off, L = 0, mono = 1;
  int p = 0;
  for (int i = 0; i < D; ++i) { LD a = std::max(fabsl(lo[i]), fabsl(hi[i])); R = std::max(R, a); L = std::max(L, hi[i] - lo[i]); for (int k = 0; k < e[i]; ++k) { mono *= a; ++p; } }
  LD base = R + L;
  for (int i = 0; i < D - 1; ++i) base *= L;
  return 400 * EPSD * base * mono * (p + 1) * (p + 1) + 1e-300L;
}

static double coord(Rng &r, int n, double d, bool snap) {
  if (snap) return d * r.range(-1, n + 1);
  double t = r.chance(0.3) ? r.uni(-0.5, 1.5) : r.uni(0, 1);
  return n * d * t;
}

// ------------------------------------------------------------------ 3D
static bool gen_faces3(Rng &r, const int *n, const double *d, r3d_plane *f, r3d_rvec3 *v, int &kind) {
  kind = r.range(0, 9);
  bool snap = kind == 0 || kind == 1, sliver = kind == 2, half = kind >= 8;
  if (half) {               // four arbitrary half-spaces: unbounded or empty intersections too
    for (int i = 0; i < 4; ++i) {
      double q[3], l = 0;
      for (int k = 0; k < 3; ++k) { q[k] = r.chance(0.2) ? 0 : r.gauss(); l += q[k] * q[k]; }
      if (r.chance(0.3)) { int a = r.range(0, 2); for (int k = 0; k < 3; ++k) q[k] = k == a ? (r.chance(0.5) ? 1 : -1) : 0; l = 1; }
      l = sqrt(l);
      if (!(l > 0.05)) return false;
      f[i].n.x = (r3d_real)(q[0] / l); f[i].n.y = (r3d_real)(q[1] / l); f[i].n.z = (r3d_real)(q[2] / l);
      bool onp = r.chance(0.3);
      double p[3];
      for (int k = 0; k < 3; ++k) p[k] = coord(r, n[k], d[k], onp);
      f[i].d = -(f[i].n.x * (r3d_real)p[0] + f[i].n.y * (r3d_real)p[1] + f[i].n.z * (r3d_real)p[2]);
    }
    return true;
  }
  for (int t = 0; t < 20; ++t) {
    double *P[4];
    double q[4][3];
    double cell = 1;
    for (int i = 0; i < 4; ++i) { P[i] = q[i]; for (int k = 0; k < 3; ++k) q[i][k] = coord(r, n[k], d[k], snap); }
    if (kind == 3) { double c[3]; for (int k = 0; k < 3; ++k) c[k] = coord(r, n[k], d[k], false); for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) q[i][k] = c[k] + d[k] * r.uni(-0.7, 0.7); }
    if (kind == 4) for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) q[i][k] = n[k] * d[k] * r.uni(-3, 4);
    if (sliver) for (int k = 0; k < 3; ++k) q[3][k] = (q[0][k] + q[1][k] + q[2][k]) / 3 + 0.05 * d[k] * r.uni(-1, 1);
    for (int i = 0; i < 4; ++i) { v[i].x = (r3d_real)q[i][0]; v[i].y = (r3d_real)q[i][1]; v[i].z = (r3d_real)q[i][2]; }
    Simp<3> s;
    LD L = 0;
    for (int i = 0; i < 4; ++i) { s.x[i][0] = v[i].x; s.x[i][1] = v[i].y; s.x[i][2] = v[i].z; for (int k = 0; k < 3; ++k) L = std::max(L, fabsl(s.x[i][k] - s.x[0][k])); }
    LD det = simp_det<3>(s);
    LD dm = std::max(std::max(d[0], d[1]), d[2]);
    (void)cell; (void)dm;
    if (!(fabsl(det) > 1e-9L * L * L * L)) continue;
    if (det < 0) std::swap(v[0], v[1]);
    r3du_tet_faces_from_verts(v, f);
    return true;
  }
  return false;
}

template <int D> static void gen_grid(Rng &r, int *n, double *d) {
  double s = r.chance(0.2) ? pow(10, r.uni(-6, 6)) : 1;
  for (int i = 0; i < D; ++i) { n[i] = r.chance(0.2) ? 1 : r.range(1, D == 3 ? 6 : 12); d[i] = s * (r.chance(0.3) ? 1 : r.uni(0.2, 3)); }
  if (r.chance(0.2)) n[r.range(0, D - 1)] = r.range(8, D == 3 ? 20 : 40);
  if (r.chance(0.004)) { int q = r.range(0, D - 1); for (int i = 0; i < D; ++i) n[i] = 1; n[q] = r.range(27000, 40000); M.count("very_long_grids"); }
}

// a large grid with a small shape in it: only the neighbourhood of the shape is compared, all else must be zero
template <int D> static void gen_big(Rng &r, int *n, double *d) {
#ifdef USE_TREE
  double lg = r.uni(18, 23);
#else
  double lg = r.uni(14, 19);
#endif
  double w[D], ws = 0;
  for (int i = 0; i < D; ++i) { w[i] = r.chance(0.3) ? 1 : r.uni(0.3, 1); ws += w[i]; d[i] = r.chance(0.4) ? 1 : r.uni(0.2, 3); }
  for (int i = 0; i < D; ++i) { n[i] = (int)pow(2, lg * w[i] / ws); if (r.chance(0.3)) { int q = 1; while (2 * q <= n[i]) q *= 2; n[i] = q; } }
}

static void big_vox3() {
  Rng &r = M.rng;
  int n[3];
  double d[3], c[3];
  gen_big<3>(r, n, d);
  r3d_rvec3 v[4];
  r3d_plane f[4];
  Simp<3> s;
  LD det = 0;
  for (int k = 0; k < 3; ++k) c[k] = d[k] * (r.chance(0.4) ? n[k] - r.uni(0, 3) : r.chance(0.2) ? r.uni(0, 3) : r.uni(0, n[k]));
  for (int t = 0; t < 40 && !(det > 0.05L); ++t) {
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) comp(v[i], k) = (r3d_real)(c[k] + d[k] * r.uni(-2.5, 2.5));
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) s.x[i][k] = comp(v[i], k);
    det = simp_det<3>(s) / ((LD)d[0] * d[1] * d[2]);
  }
  if (!(det > 0.05L)) M.skip("shape");
  r3du_tet_faces_from_verts(v, f);
  int p = r.range(0, 1), nm = r3d_num_moments[p];
  long nc = (long)n[0] * n[1] * n[2], no = (long)(n[0] + 1) * (n[1] + 1) * (n[2] + 1);
  M.say("large grid %dx%dx%d d=(%.17g,%.17g,%.17g) order %d", n[0], n[1], n[2], d[0], d[1], d[2], p);
  for (int i = 0; i < 4; ++i) M.say("vertex (%.17g,%.17g,%.17g)", (double)v[i].x, (double)v[i].y, (double)v[i].z);
  r3d_dest_grid g;
  memset(&g, 0, sizeof g);
  struct Mem { std::vector<void *> p; void *get(size_t k) { void *q = malloc(k); p.push_back(q); return q; } ~Mem() { for (void *q : p) free(q); } } mem;
  for (int m = 0; m < nm; ++m) { g.moments[m] = (r3d_real *)mem.get(nc * sizeof(r3d_real)); for (long q = 0; q < nc; ++q) g.moments[m][q] = 12345 + m; }
#ifndef USE_TREE
  g.orient = (r3d_orientation *)mem.get(no * sizeof(r3d_orientation));
#endif
  g.polyorder = p; g.bufsz = no;
  g.n.i = n[0]; g.n.j = n[1]; g.n.k = n[2];
  g.d.x = (r3d_real)d[0]; g.d.y = (r3d_real)d[1]; g.d.z = (r3d_real)d[2];
  r3d_voxelize_tet(f, &g);
  M.count("large_grids3");
  LD off = 0;
  for (int i = 0; i < 4; ++i) off = std::max(off, fabsl((LD)f[i].d));
  LD dd[3] = {g.d.x, g.d.y, g.d.z};
  int a[3], b[3];
  for (int k = 0; k < 3; ++k) {
    LD lo = 1e30L, hi = -1e30L;
    for (int i = 0; i < 4; ++i) { lo = std::min(lo, (LD)comp(v[i], k)); hi = std::max(hi, (LD)comp(v[i], k)); }
    a[k] = std::max(0, (int)floorl(lo / dd[k]) - 1); b[k] = std::min(n[k], (int)ceill(hi / dd[k]) + 1);
  }
  for (int m = 0; m < nm; ++m) {
    long q = 0;
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) {
      bool in = i >= a[0] && i < b[0] && j >= a[1] && j < b[1];
      for (int k = 0; k < n[2]; ++k, ++q) if (!(in && k >= a[2] && k < b[2]) && g.moments[m][q] != 0) M.fail("dep3-large-outside", "cell (%d,%d,%d) out of reach of the shape holds %g", i, j, k, (double)g.moments[m][q]);
    }
  }
  int cmp = 0;
  for (int i = a[0]; i < b[0]; ++i) for (int j = a[1]; j < b[1]; ++j) for (int k = a[2]; k < b[2]; ++k) {
    LD lo[3] = {dd[0] * i, dd[1] * j, dd[2] * k}, hi[3] = {dd[0] * (i + 1), dd[1] * (j + 1), dd[2] * (k + 1)};
    Body<3> bd = box_body<3>(lo, hi);
    for (int q = 0; q < 4; ++q) { Plane<3> pl; pl.n[0] = f[q].n.x; pl.n[1] = f[q].n.y; pl.n[2] = f[q].n.z; pl.d = f[q].d; bd.clip(pl); }
    auto want = legacy_moments<3>(bd);
    long q = ((long)i * n[1] + j) * n[2] + k;
    for (int m = 0; m < nm; ++m) M.close("dep3-large-cell", g.moments[m][q], want[m], tolc<3>(lo, hi, off, legacy_order<3>()[m]), "cell moment", m);
    ++cmp;
  }
  M.count("large_cells_compared", cmp);
  M.sig(33, n[0], n[1], n[2]);
}

static void mode_vox3() {
  Rng &r = M.rng;
  if (!FLOATD && r.chance(0.01)) return big_vox3();
  int n[3], kind;
  double d[3];
  gen_grid<3>(r, n, d);
  r3d_plane f[4], fs[4];
  r3d_rvec3 v[4];
  if (!gen_faces3(r, n, d, f, v, kind)) M.skip("shape");
  if (*std::max_element(n, n + 3) > 20000 && r.chance(0.6)) for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) f[i].d += (r3d_real)(2 * n[k] * d[k]);   // cells wholly inside, far along the axis
  memcpy(fs, f, sizeof f);
  int p = r.range(0, 2), nm = r3d_num_moments[p];
  long nc = (long)n[0] * n[1] * n[2], no = (long)(n[0] + 1) * (n[1] + 1) * (n[2] + 1);
  M.say("grid %dx%dx%d d=(%.17g,%.17g,%.17g) order %d kind %d", n[0], n[1], n[2], d[0], d[1], d[2], p, kind);
  for (int i = 0; i < 4; ++i) M.say("face n=(%.17g,%.17g,%.17g) d=%.17g", (double)f[i].n.x, (double)f[i].n.y, (double)f[i].n.z, (double)f[i].d);
  r3d_dest_grid g;
  memset(&g, 0, sizeof g);
  struct Mem { std::vector<void *> p; void *get(size_t k) { void *q = malloc(k); p.push_back(q); return q; } ~Mem() { for (void *q : p) free(q); } } mem;
  for (int m = 0; m < 10; ++m) { g.moments[m] = (r3d_real *)mem.get(nc * sizeof(r3d_real)); for (long c = 0; c < nc; ++c) g.moments[m][c] = 12345 + m; }
#ifdef USE_TREE
  g.orient = nullptr;
#else
  g.orient = (r3d_orientation *)mem.get(no * sizeof(r3d_orientation));
  memset((void *)g.orient, 0xff, no * sizeof(r3d_orientation));
#endif
  g.polyorder = p;
  g.bufsz = no;
  g.n.i = n[0]; g.n.j = n[1]; g.n.k = n[2];
  g.d.x = (r3d_real)d[0]; g.d.y = (r3d_real)d[1]; g.d.z = (r3d_real)d[2];
  r3d_dest_grid gs = g;
  r3d_voxelize_tet(f, &g);
  M.count("voxelizations3");
  if (memcmp(f, fs, sizeof f)) M.fail("dep3-faces-modified", "the faces were modified");
  if (memcmp(&g, &gs, sizeof g)) M.fail("dep3-grid-modified", "the grid description was modified");
  for (int m = nm; m < 10; ++m) for (long c = 0; c < nc; ++c) if (g.moments[m][c] != 12345 + m) M.fail("dep3-beyond-order", "moment %d beyond the requested order was written", m);
  LD off = 0;
  for (int i = 0; i < 4; ++i) off = std::max(off, fabsl((LD)f[i].d));
  LD dd[3] = {g.d.x, g.d.y, g.d.z};
  int full = 0, cut = 0, empty = 0;
  for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) {
    LD lo[3] = {dd[0] * i, dd[1] * j, dd[2] * k}, hi[3] = {dd[0] * (i + 1), dd[1] * (j + 1), dd[2] * (k + 1)};
    Body<3> b = box_body<3>(lo, hi);
    LD whole = b.volume();
    for (int q = 0; q < 4; ++q) { Plane<3> pl; pl.n[0] = f[q].n.x; pl.n[1] = f[q].n.y; pl.n[2] = f[q].n.z; pl.d = f[q].d; b.clip(pl); }
    auto want = legacy_moments<3>(b);
    if (want[0] <= 0) ++empty; else if (want[0] > whole * (1 - 1e-9L)) ++full; else ++cut;
    long c = ((long)i * n[1] + j) * n[2] + k;
    for (int m = 0; m < nm; ++m) M.close("dep3-cell", g.moments[m][c], want[m], tolc<3>(lo, hi, off, legacy_order<3>()[m]), "cell moment", m);
  }
  M.count("cells_full", full);
  M.count("cells_cut", cut);
  M.count("cells_empty", empty);
  M.sig(3, kind, p * 1000 + n[0] * 100 + n[1] * 10 + n[2], cut);
}

static void mode_clip3() {
  Rng &r = M.rng;
  int n[3] = {2, 2, 2}, kind;
  double d[3];
  for (int i = 0; i < 3; ++i) d[i] = r.uni(0.3, 2);
  r3d_plane f[4];
  r3d_rvec3 v[4], rb[2];
  if (!gen_faces3(r, n, d, f, v, kind)) M.skip("shape");
  double s = r.chance(0.3) ? r.uni(-0.3, 0.5) : 0;
  rb[0].x = (r3d_real)(d[0] * s); rb[0].y = (r3d_real)(d[1] * s); rb[0].z = (r3d_real)(d[2] * s);
  rb[1].x = (r3d_real)(rb[0].x + d[0] * r.uni(0.2, 2)); rb[1].y = (r3d_real)(rb[0].y + d[1] * r.uni(0.2, 2)); rb[1].z = (r3d_real)(rb[0].z + d[2] * r.uni(0.2, 2));
  r3d_poly *P = (r3d_poly *)malloc(sizeof(r3d_poly));
  struct Fr { void *p; ~Fr() { free(p); } } fr{P};
  memset((void *)P, r.range(0, 255), sizeof *P);
  r3du_init_box(P, rb);
  LD lo[3] = {rb[0].x, rb[0].y, rb[0].z}, hi[3] = {rb[1].x, rb[1].y, rb[1].z};
  if (P->nverts != 8) M.fail("dep3-box", "a box has %d vertices", P->nverts);
  int seen = 0;
  for (int q = 0; q < 8; ++q) {
    int code = 0;
    LD x[3] = {P->verts[q].pos.x, P->verts[q].pos.y, P->verts[q].pos.z};
    for (int k = 0; k < 3; ++k) { if (x[k] == hi[k]) code |= 1 << k; else if (x[k] != lo[k]) M.fail("dep3-box", "a box corner is off"); }
    seen |= 1 << code;
  }
  if (seen != 255) M.fail("dep3-box", "box corners are missing");
  unsigned char andc = 0x0f;
  for (int q = 0; q < 8; ++q) {
    auto &o = P->verts[q].orient;
    o.fflags = 0;
    for (int k = 0; k < 4; ++k) {
      o.fdist[k] = f[k].d + f[k].n.x * P->verts[q].pos.x + f[k].n.y * P->verts[q].pos.y + f[k].n.z * P->verts[q].pos.z;
      if (o.fdist[k] > 0) o.fflags |= 1 << k;
    }
    andc &= o.fflags;
  }
  int p = r.range(0, 2);
  r3d_real m[10];
  for (int k = 0; k < 10; ++k) m[k] = 777;
  bool noclip = r.chance(0.15);
  unsigned char skip = r.chance(0.3) ? 0 : andc;
  if (r.chance(0.1)) skip |= 1 << r.range(0, 3);
  if (!noclip) r3d_clip_tet(P, skip);
  r3d_reduce(P, p, m);
  M.count("box_clips3");
  Body<3> b = box_body<3>(lo, hi);
  LD off = 0;
  if (!noclip) for (int q = 0; q < 4; ++q) if (!(skip >> q & 1)) { Plane<3> pl; pl.n[0] = f[q].n.x; pl.n[1] = f[q].n.y; pl.n[2] = f[q].n.z; pl.d = f[q].d; b.clip(pl); off = std::max(off, fabsl((LD)f[q].d)); }
  auto want = legacy_moments<3>(b);
  LD R = 0;
  for (int k = 0; k < 3; ++k) R = std::max(R, std::max(fabsl(lo[k]), fabsl(hi[k])));
  LD mx[3];
  for (int k = 0; k < 3; ++k) mx[k] = R;
  LD ml[3] = {-R, -R, -R};
  for (int k = 0; k < r3d_num_moments[p]; ++k) M.close("dep3-clip", m[k], want[k], tolc<3>(ml, mx, off, legacy_order<3>()[k]) * 10, "clipped box moment", k);
  if (P->nverts > R3D_MAX_VERTS) M.fail("dep3-clip", "vertex count beyond the capacity");
  M.sig(kind, p, P->nverts, skip + 16 * noclip);
}

static void mode_help3() {
  Rng &r = M.rng;
  r3d_rvec3 v[4], vs[4];
  double s = r.chance(0.3) ? pow(10, r.uni(-6, 6)) : 1, o = r.chance(0.3) ? s * pow(10, r.uni(-2, 3)) : 0;
  Simp<3> t;
  for (int i = 0; i < 4; ++i) { v[i].x = (r3d_real)(o + s * r.uni(-1, 1)); v[i].y = (r3d_real)(o + s * r.uni(-1, 1)); v[i].z = (r3d_real)(o + s * r.uni(-1, 1)); t.x[i][0] = v[i].x; t.x[i][1] = v[i].y; t.x[i][2] = v[i].z; }
  memcpy(vs, v, sizeof v);
  LD det = simp_det<3>(t);
  r3d_real q = r3du_orient(v[0], v[1], v[2], v[3]);
  M.say("tet scale %g offset %g det %Lg", s, o, det);
  M.count("orient_calls3");
  M.close("dep3-orient", q, det / 6, 100 * EPSD * s * s * (s + o), "signed volume");
  if (!(fabsl(det) > 1e-3L * s * s * s)) { M.sig(s > 1, o > 0, det > 0); return; }
  r3d_plane f[4];
  memset((void *)f, 0xff, sizeof f);
  r3du_tet_faces_from_verts(v, f);
  if (memcmp(v, vs, sizeof v)) M.fail("dep3-faces", "the vertices were modified");
  M.count("face_sets3");
  int opp[4] = {0, 0, 0, 0};
  for (int k = 0; k < 4; ++k) {
    LD l = (LD)f[k].n.x * f[k].n.x + (LD)f[k].n.y * f[k].n.y + (LD)f[k].n.z * f[k].n.z;
    M.close("dep3-faces", l, 1, 100 * EPSD, "squared normal length", k);
    int on = 0, out = -1;
    for (int i = 0; i < 4; ++i) {
      LD dist = f[k].d + f[k].n.x * t.x[i][0] + f[k].n.y * t.x[i][1] + f[k].n.z * t.x[i][2];
      if (fabsl(dist) < 4e4L * EPSD * (s + o) ) ++on;
      else { out = i; if ((dist > 0) != (det > 0)) M.fail("dep3-faces", "face %d points the wrong way", k); }
    }
    if (on != 3) M.fail("dep3-faces", "face %d contains %d vertices", k, on);
    ++opp[out];
  }
  for (int i = 0; i < 4; ++i) if (opp[i] != 1) M.fail("dep3-faces", "vertex %d is opposite to %d faces", i, opp[i]);
  M.sig(s > 1, o > 0, det > 0);
}

// ------------------------------------------------------------------ 2D
static bool gen_faces2(Rng &r, const int *n, const double *d, r2d_plane *f, int &kind) {
  kind = r.range(0, 9);
  bool snap = kind <= 1;
  if (kind >= 8) {
    for (int i = 0; i < 4; ++i) {
      double a = r.chance(0.3) ? M_PI / 2 * r.range(0, 3) : r.uni(0, 2 * M_PI);
      f[i].n.x = (r2d_real)cos(a); f[i].n.y = (r2d_real)sin(a);
      bool onp = r.chance(0.3);
      f[i].d = -(f[i].n.x * (r2d_real)coord(r, n[0], d[0], onp) + f[i].n.y * (r2d_real)coord(r, n[1], d[1], onp));
    }
    return true;
  }
  for (int t = 0; t < 30; ++t) {
    // convex quadrilateral: four points sorted by angle about their mean
    r2d_rvec2 v[4];
    double q[4][2], c[2] = {0, 0};
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k) q[i][k] = coord(r, n[k], d[k], snap);
    if (kind == 2) { double e[2]; for (int k = 0; k < 2; ++k) e[k] = coord(r, n[k], d[k], false); for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k) q[i][k] = e[k] + d[k] * r.uni(-0.7, 0.7); }
    if (kind == 3) for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k) q[i][k] = n[k] * d[k] * r.uni(-3, 4);
    if (kind == 4) for (int k = 0; k < 2; ++k) { double w = 0.03 * d[k] * r.uni(-1, 1); q[2][k] = q[1][k] + w; q[3][k] = q[0][k] + 0.03 * d[k] * r.uni(-1, 1); }   // thin strip
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k) c[k] += q[i][k] / 4;
    std::vector<int> id = {0, 1, 2, 3};
    std::sort(id.begin(), id.end(), [&](int a, int b) { return atan2((q[a][1] - c[1]) / d[1], (q[a][0] - c[0]) / d[0]) < atan2((q[b][1] - c[1]) / d[1], (q[b][0] - c[0]) / d[0]); });
    for (int i = 0; i < 4; ++i) { v[i].x = (r2d_real)q[id[i]][0]; v[i].y = (r2d_real)q[id[i]][1]; }
    bool ok = true;
    for (int i = 0; i < 4; ++i) {
      LD ax = (LD)v[(i + 1) % 4].x - v[i].x, ay = (LD)v[(i + 1) % 4].y - v[i].y, bx = (LD)v[(i + 2) % 4].x - v[i].x, by = (LD)v[(i + 2) % 4].y - v[i].y;
      LD L = ax * ax + ay * ay + bx * bx + by * by;
      if (!(ax * ay * 0 + (ax * by - ay * bx) > 1e-7L * L)) ok = false;
    }
    if (!ok) continue;
    r2du_faces_from_verts(v, 4, f);
    return true;
  }
  return false;
}

static void big_ras2() {
  Rng &r = M.rng;
  int n[2];
  double d[2], c[2];
  gen_big<2>(r, n, d);
  r2d_rvec2 v[4];
  r2d_plane f[4];
  double hw[2];
  for (int k = 0; k < 2; ++k) { c[k] = d[k] * (r.chance(0.4) ? n[k] - r.uni(0, 3) : r.chance(0.2) ? r.uni(0, 3) : r.uni(0, n[k])); hw[k] = d[k] * r.uni(0.6, 3); }
  double t0 = r.uni(0, 6.28);
  for (int i = 0; i < 4; ++i) { v[i].x = (r2d_real)(c[0] + hw[0] * cos(t0 + i * M_PI / 2 + 0.3 * ((i * 7) % 3))); v[i].y = (r2d_real)(c[1] + hw[1] * sin(t0 + i * M_PI / 2 + 0.3 * ((i * 7) % 3))); }
  r2du_faces_from_verts(v, 4, f);
  int p = r.range(0, 2), nm = r2d_num_moments[p];
  long nc = (long)n[0] * n[1], no = (long)(n[0] + 1) * (n[1] + 1);
  M.say("large grid %dx%d d=(%.17g,%.17g) order %d", n[0], n[1], d[0], d[1], p);
  for (int i = 0; i < 4; ++i) M.say("vertex (%.17g,%.17g)", (double)v[i].x, (double)v[i].y);
  r2d_dest_grid g;
  memset(&g, 0, sizeof g);
  struct Mem { std::vector<void *> p; void *get(size_t k) { void *q = malloc(k); p.push_back(q); return q; } ~Mem() { for (void *q : p) free(q); } } mem;
  for (int m = 0; m < nm; ++m) { g.moments[m] = (r2d_real *)mem.get(nc * sizeof(r2d_real)); for (long q = 0; q < nc; ++q) g.moments[m][q] = 12345 + m; }
#ifndef USE_TREE
  g.orient = (r2d_orientation *)mem.get(no * sizeof(r2d_orientation));
#endif
  g.polyorder = p; g.bufsz = no;
  g.n.i = n[0]; g.n.j = n[1];
  g.d.x = (r2d_real)d[0]; g.d.y = (r2d_real)d[1];
  r2d_rasterize_quad(f, &g);
  M.count("large_grids2");
  LD off = 0;
  for (int i = 0; i < 4; ++i) off = std::max(off, fabsl((LD)f[i].d));
  LD dd[2] = {g.d.x, g.d.y};
  int a[2], b[2];
  for (int k = 0; k < 2; ++k) {
    LD lo = 1e30L, hi = -1e30L;
    for (int i = 0; i < 4; ++i) { lo = std::min(lo, (LD)comp(v[i], k)); hi = std::max(hi, (LD)comp(v[i], k)); }
    a[k] = std::max(0, (int)floorl(lo / dd[k]) - 1); b[k] = std::min(n[k], (int)ceill(hi / dd[k]) + 1);
  }
  for (int m = 0; m < nm; ++m) {
    long q = 0;
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j, ++q)
      if (!(i >= a[0] && i < b[0] && j >= a[1] && j < b[1]) && g.moments[m][q] != 0) M.fail("dep2-large-outside", "cell (%d,%d) out of reach of the shape holds %g", i, j, (double)g.moments[m][q]);
  }
  int cmp = 0;
  for (int i = a[0]; i < b[0]; ++i) for (int j = a[1]; j < b[1]; ++j) {
    LD lo[2] = {dd[0] * i, dd[1] * j}, hi[2] = {dd[0] * (i + 1), dd[1] * (j + 1)};
    Body<2> bd = box_body<2>(lo, hi);
    for (int q = 0; q < 4; ++q) { Plane<2> pl; pl.n[0] = f[q].n.x; pl.n[1] = f[q].n.y; pl.d = f[q].d; bd.clip(pl); }
    auto want = legacy_moments<2>(bd);
    long q = (long)i * n[1] + j;
    for (int m = 0; m < nm; ++m) M.close("dep2-large-cell", g.moments[m][q], want[m], tolc<2>(lo, hi, off, legacy_order<2>()[m]), "cell moment", m);
    ++cmp;
  }
  M.count("large_cells_compared", cmp);
  M.sig(22, n[0], n[1], cmp);
}

static void mode_ras2() {
  Rng &r = M.rng;
  if (!FLOATD && r.chance(0.01)) return big_ras2();
  int n[2], kind;
  double d[2];
  gen_grid<2>(r, n, d);
  r2d_plane f[4], fs[4];
  if (!gen_faces2(r, n, d, f, kind)) M.skip("shape");
  if (*std::max_element(n, n + 2) > 20000 && r.chance(0.6)) for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k) f[i].d += (r2d_real)(2 * n[k] * d[k]);   // cells wholly inside, far along the axis
  memcpy(fs, f, sizeof f);
  int p = r.range(0, 2), nm = r2d_num_moments[p];
  long nc = (long)n[0] * n[1], no = (long)(n[0] + 1) * (n[1] + 1);
  M.say("grid %dx%d d=(%.17g,%.17g) order %d kind %d", n[0], n[1], d[0], d[1], p, kind);
  for (int i = 0; i < 4; ++i) M.say("line n=(%.17g,%.17g) d=%.17g", (double)f[i].n.x, (double)f[i].n.y, (double)f[i].d);
  r2d_dest_grid g;
  memset(&g, 0, sizeof g);
  struct Mem { std::vector<void *> p; void *get(size_t k) { void *q = malloc(k); p.push_back(q); return q; } ~Mem() { for (void *q : p) free(q); } } mem;
  for (int m = 0; m < 6; ++m) { g.moments[m] = (r2d_real *)mem.get(nc * sizeof(r2d_real)); for (long c = 0; c < nc; ++c) g.moments[m][c] = 12345 + m; }
#ifdef USE_TREE
  g.orient = nullptr;
#else
  g.orient = (r2d_orientation *)mem.get(no * sizeof(r2d_orientation));
  memset((void *)g.orient, 0xff, no * sizeof(r2d_orientation));
#endif
  g.polyorder = p;
  g.bufsz = no;
  g.n.i = n[0]; g.n.j = n[1];
  g.d.x = (r2d_real)d[0]; g.d.y = (r2d_real)d[1];
  r2d_dest_grid gs = g;
  r2d_rasterize_quad(f, &g);
  M.count("rasterizations2");
  if (memcmp(f, fs, sizeof f)) M.fail("dep2-faces-modified", "the lines were modified");
  if (memcmp(&g, &gs, sizeof g)) M.fail("dep2-grid-modified", "the grid description was modified");
  for (int m = nm; m < 6; ++m) for (long c = 0; c < nc; ++c) if (g.moments[m][c] != 12345 + m) M.fail("dep2-beyond-order", "moment %d beyond the requested order was written", m);
  LD off = 0;
  for (int i = 0; i < 4; ++i) off = std::max(off, fabsl((LD)f[i].d));
  LD dd[2] = {g.d.x, g.d.y};
  int full = 0, cut = 0, empty = 0;
  for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) {
    LD lo[2] = {dd[0] * i, dd[1] * j}, hi[2] = {dd[0] * (i + 1), dd[1] * (j + 1)};
    Body<2> b = box_body<2>(lo, hi);
    LD whole = b.volume();
    for (int q = 0; q < 4; ++q) { Plane<2> pl; pl.n[0] = f[q].n.x; pl.n[1] = f[q].n.y; pl.d = f[q].d; b.clip(pl); }
    auto want = legacy_moments<2>(b);
    if (want[0] <= 0) ++empty; else if (want[0] > whole * (1 - 1e-9L)) ++full; else ++cut;
    long c = (long)i * n[1] + j;
    for (int m = 0; m < nm; ++m) M.close("dep2-cell", g.moments[m][c], want[m], tolc<2>(lo, hi, off, legacy_order<2>()[m]), "cell moment", m);
  }
  M.count("cells_full", full);
  M.count("cells_cut", cut);
  M.count("cells_empty", empty);
  M.sig(2, kind, p * 1000 + n[0] * 50 + n[1], cut);
}

static void mode_clip2() {
  Rng &r = M.rng;
  int n[2] = {2, 2}, kind;
  double d[2];
  for (int i = 0; i < 2; ++i) d[i] = r.uni(0.3, 2);
  r2d_plane f[4];
  r2d_rvec2 rb[2];
  if (!gen_faces2(r, n, d, f, kind)) M.skip("shape");
  double s = r.chance(0.3) ? r.uni(-0.3, 0.5) : 0;
  rb[0].x = (r2d_real)(d[0] * s); rb[0].y = (r2d_real)(d[1] * s);
  rb[1].x = (r2d_real)(rb[0].x + d[0] * r.uni(0.2, 2)); rb[1].y = (r2d_real)(rb[0].y + d[1] * r.uni(0.2, 2));
  r2d_poly *P = (r2d_poly *)malloc(sizeof(r2d_poly));
  struct Fr { void *p; ~Fr() { free(p); } } fr{P};
  memset((void *)P, r.range(0, 255), sizeof *P);
  r2du_init_box(P, rb);
  LD lo[2] = {rb[0].x, rb[0].y}, hi[2] = {rb[1].x, rb[1].y};
  if (P->nverts != 4) M.fail("dep2-box", "a box has %d vertices", P->nverts);
  int seen = 0;
  for (int q = 0; q < 4; ++q) {
    int code = 0;
    LD x[2] = {P->verts[q].pos.x, P->verts[q].pos.y};
    for (int k = 0; k < 2; ++k) { if (x[k] == hi[k]) code |= 1 << k; else if (x[k] != lo[k]) M.fail("dep2-box", "a box corner is off"); }
    seen |= 1 << code;
  }
  if (seen != 15) M.fail("dep2-box", "box corners are missing");
  unsigned char andc = 0x0f;
  for (int q = 0; q < 4; ++q) {
    auto &o = P->verts[q].orient;
    o.fflags = 0;
    for (int k = 0; k < 4; ++k) { o.fdist[k] = f[k].d + f[k].n.x * P->verts[q].pos.x + f[k].n.y * P->verts[q].pos.y; if (o.fdist[k] > 0) o.fflags |= 1 << k; }
    andc &= o.fflags;
  }
  int p = r.range(0, 2);
  r2d_real m[6];
  for (int k = 0; k < 6; ++k) m[k] = 777;
  bool noclip = r.chance(0.15);
  unsigned char skip = r.chance(0.3) ? 0 : andc;
  if (r.chance(0.1)) skip |= 1 << r.range(0, 3);
  M.say("box clip kind %d skip %d", kind, skip);
  if (!noclip) r2d_clip_quad(P, skip);
  r2d_reduce(P, p, m);
  M.count("box_clips2");
  Body<2> b = box_body<2>(lo, hi);
  LD off = 0;
  if (!noclip) for (int q = 0; q < 4; ++q) if (!(skip >> q & 1)) { Plane<2> pl; pl.n[0] = f[q].n.x; pl.n[1] = f[q].n.y; pl.d = f[q].d; b.clip(pl); off = std::max(off, fabsl((LD)f[q].d)); }
  auto want = legacy_moments<2>(b);
  LD R = 0;
  for (int k = 0; k < 2; ++k) R = std::max(R, std::max(fabsl(lo[k]), fabsl(hi[k])));
  LD mx[2] = {R, R}, ml[2] = {-R, -R};
  for (int k = 0; k < r2d_num_moments[p]; ++k) M.close("dep2-clip", m[k], want[k], tolc<2>(ml, mx, off, legacy_order<2>()[k]) * 10, "clipped box moment", k);
  if (P->nverts > R2D_MAX_VERTS) M.fail("dep2-clip", "vertex count beyond the capacity");
  M.sig(kind, p, P->nverts, skip + 16 * noclip);
}

static void mode_help2() {
  Rng &r = M.rng;
  int nv = r.range(3, 12);
  r2d_rvec2 v[12], vs[12];
  double s = r.chance(0.3) ? pow(10, r.uni(-6, 6)) : 1, o = r.chance(0.3) ? s * pow(10, r.uni(-2, 3)) : 0, a0 = r.uni(0, 6.28);
  for (int i = 0; i < nv; ++i) { double a = a0 + 2 * M_PI * (i + 0.3 * r.u()) / nv; v[i].x = (r2d_real)(o + s * cos(a)); v[i].y = (r2d_real)(o + s * sin(a)); }
  if (r.chance(0.3)) std::reverse(v, v + nv);
  memcpy(vs, v, sizeof v);
  Simp<2> t;
  for (int i = 0; i < 3; ++i) { t.x[i][0] = v[i].x; t.x[i][1] = v[i].y; }
  LD det = simp_det<2>(t);
  M.say("polygon %d scale %g offset %g", nv, s, o);
  M.count("orient_calls2");
  // this function counts clockwise area as positive
  M.close("dep2-orient", r2du_orient(v[0], v[1], v[2]), -det / 2, 100 * EPSD * s * (s + o), "signed area");
  r2d_plane f[13];
  memset((void *)f, 0x5a, sizeof f);
  r2d_plane guard = f[12];
  r2du_faces_from_verts(v, nv, f);
  if (memcmp(v, vs, nv * sizeof v[0])) M.fail("dep2-faces", "the vertices were modified");
  for (int k = nv; k < 13; ++k) if (memcmp(&f[k], &guard, sizeof guard)) M.fail("dep2-faces", "more lines were written than the polygon has edges");
  M.count("face_sets2");
  bool ccw = det > 0;
  for (int k = 0; k < nv; ++k) {
    M.close("dep2-faces", (LD)f[k].n.x * f[k].n.x + (LD)f[k].n.y * f[k].n.y, 1, 100 * EPSD, "squared normal length", k);
    for (int i = 0; i < nv; ++i) {
      LD dist = f[k].d + (LD)f[k].n.x * v[i].x + (LD)f[k].n.y * v[i].y;
      if (i == k || i == (k + 1) % nv) M.close("dep2-faces", dist, 0, 4e3L * EPSD * (s + o), "distance of an end point from its line", k);
      else if ((dist > 0) != ccw) M.fail("dep2-faces", "line %d points the wrong way", k);
    }
  }
  M.sig(nv, ccw, s > 1, o > 0);
}


// ------------------------------------------------------------------ repeatability and threads
// One job = one legacy call with its inputs; running it gives the bytes of everything it returned.
struct Job {
  int dim, n[3], order;
  double d[3];
  r3d_plane f3[4];
  r3d_rvec3 v3[4];
  r2d_plane f2[4];
  int what;               // 0 grid, 1 clip a box and reduce, 2 helper
  double lo[3], hi[3];
  bool gen(Rng &r) {
    int kind;
    dim = r.range(2, 3);
    order = r.range(0, 2);
    what = r.range(0, 2);
    if (dim == 3) { gen_grid<3>(r, n, d); for (int k = 0; k < 3; ++k) n[k] = std::min(n[k], 12); if (!gen_faces3(r, n, d, f3, v3, kind)) return false; }
    else { gen_grid<2>(r, n, d); for (int k = 0; k < 2; ++k) n[k] = std::min(n[k], 40); if (!gen_faces2(r, n, d, f2, kind)) return false; }
    for (int k = 0; k < 3; ++k) { lo[k] = r.uni(0, 1); hi[k] = lo[k] + r.uni(0.2, 2); }
    if (dim == 3) for (int q = 0; q < 4; ++q) for (int k = 0; k < 3; ++k) comp(v3[q], k) = (r3d_real)r.uni(-1, 1);
    return true;
  }
  static void put(std::string &o, const void *p, size_t k) { o.append((const char *)p, k); }
  void run(std::string &o, int fill) const {
    if (what == 0 && dim == 3) {
      long nc = (long)n[0] * n[1] * n[2], no = (long)(n[0] + 1) * (n[1] + 1) * (n[2] + 1);
      r3d_dest_grid g;
      memset(&g, 0, sizeof g);
      for (int m = 0; m < 10; ++m) { g.moments[m] = (r3d_real *)malloc(nc * sizeof(r3d_real)); memset((void *)g.moments[m], fill, nc * sizeof(r3d_real)); }
#ifndef USE_TREE
      g.orient = (r3d_orientation *)malloc(no * sizeof(r3d_orientation));
      memset((void *)g.orient, fill, no * sizeof(r3d_orientation));
#endif
      g.polyorder = order; g.bufsz = no;
      g.n.i = n[0]; g.n.j = n[1]; g.n.k = n[2];
      g.d.x = (r3d_real)d[0]; g.d.y = (r3d_real)d[1]; g.d.z = (r3d_real)d[2];
      r3d_voxelize_tet((r3d_plane *)f3, &g);
      for (int m = 0; m < r3d_num_moments[order]; ++m) put(o, g.moments[m], nc * sizeof(r3d_real));
      for (int m = 0; m < 10; ++m) free(g.moments[m]);
#ifndef USE_TREE
      free(g.orient);
#endif
    } else if (what == 0) {
      long nc = (long)n[0] * n[1], no = (long)(n[0] + 1) * (n[1] + 1);
      r2d_dest_grid g;
      memset(&g, 0, sizeof g);
      for (int m = 0; m < 6; ++m) { g.moments[m] = (r2d_real *)malloc(nc * sizeof(r2d_real)); memset((void *)g.moments[m], fill, nc * sizeof(r2d_real)); }
#ifndef USE_TREE
      g.orient = (r2d_orientation *)malloc(no * sizeof(r2d_orientation));
      memset((void *)g.orient, fill, no * sizeof(r2d_orientation));
#endif
      g.polyorder = order; g.bufsz = no;
      g.n.i = n[0]; g.n.j = n[1];
      g.d.x = (r2d_real)d[0]; g.d.y = (r2d_real)d[1];
      r2d_rasterize_quad((r2d_plane *)f2, &g);
      for (int m = 0; m < r2d_num_moments[order]; ++m) put(o, g.moments[m], nc * sizeof(r2d_real));
      for (int m = 0; m < 6; ++m) free(g.moments[m]);
#ifndef USE_TREE
      free(g.orient);
#endif
    } else if (what == 1 && dim == 3) {
      r3d_poly *P = (r3d_poly *)malloc(sizeof(r3d_poly));
      memset((void *)P, fill, sizeof *P);
      r3d_rvec3 rb[2];
      for (int k = 0; k < 3; ++k) { comp(rb[0], k) = (r3d_real)lo[k]; comp(rb[1], k) = (r3d_real)hi[k]; }
      r3du_init_box(P, rb);
      unsigned char andc = 0x0f, orc = 0;
      for (int q = 0; q < 8; ++q) {
        auto &t = P->verts[q].orient;
        t.fflags = 0;
        for (int f = 0; f < 4; ++f) {
          t.fdist[f] = f3[f].d + f3[f].n.x * P->verts[q].pos.x + f3[f].n.y * P->verts[q].pos.y + f3[f].n.z * P->verts[q].pos.z;
          if (t.fdist[f] > 0) t.fflags |= 1 << f;
        }
        andc &= t.fflags; orc |= t.fflags;
      }
      r3d_real m[10];
      if (orc == 0x0f) { if (andc != 0x0f) r3d_clip_tet(P, andc); r3d_reduce(P, order, m); put(o, m, r3d_num_moments[order] * sizeof *m); }
      free(P);
    } else if (what == 1) {
      r2d_poly *P = (r2d_poly *)malloc(sizeof(r2d_poly));
      memset((void *)P, fill, sizeof *P);
      r2d_rvec2 rb[2];
      for (int k = 0; k < 2; ++k) { comp(rb[0], k) = (r2d_real)lo[k]; comp(rb[1], k) = (r2d_real)hi[k]; }
      r2du_init_box(P, rb);
      unsigned char andc = 0x0f, orc = 0;
      for (int q = 0; q < 4; ++q) {
        auto &t = P->verts[q].orient;
        t.fflags = 0;
        for (int f = 0; f < 4; ++f) {
          t.fdist[f] = f2[f].d + f2[f].n.x * P->verts[q].pos.x + f2[f].n.y * P->verts[q].pos.y;
          if (t.fdist[f] > 0) t.fflags |= 1 << f;
        }
        andc &= t.fflags; orc |= t.fflags;
      }
      r2d_real m[6];
      if (orc == 0x0f) { if (andc != 0x0f) r2d_clip_quad(P, andc); r2d_reduce(P, order, m); put(o, m, r2d_num_moments[order] * sizeof *m); }
      free(P);
    } else if (dim == 3) {
      r3d_plane f[4];
      memset((void *)f, fill, sizeof f);
      r3du_tet_faces_from_verts((r3d_rvec3 *)v3, f);
      put(o, f, sizeof f);
      r3d_real q = r3du_orient(v3[0], v3[1], v3[2], v3[3]);
      put(o, &q, sizeof q);
    } else {
      r2d_rvec2 v[4];
      r2d_plane f[4];
      memset((void *)f, fill, sizeof f);
      for (int k = 0; k < 4; ++k) { v[k].x = (r2d_real)(lo[0] + (k == 1 || k == 2 ? hi[0] : 0) + 0.1 * lo[k % 3]); v[k].y = (r2d_real)(lo[1] + (k >= 2 ? hi[1] : 0)); }
      r2du_faces_from_verts(v, 4, f);
      put(o, f, sizeof f);
      r2d_real q = r2du_orient(v[0], v[1], v[2]);
      put(o, &q, sizeof q);
    }
  }
};
static __attribute__((noinline)) void paint_stack(int c) {
  volatile char b[1 << 17];
  for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)c;
}
static void mode_det() {
  Rng &r = M.rng;
  std::vector<Job> J(r.range(3, 10));
  for (auto &j : J) if (!j.gen(r)) M.skip("shape");
  std::vector<std::string> ref(J.size());
  std::vector<Job> keep = J;
  for (size_t i = 0; i < J.size(); ++i) { paint_stack(0); J[i].run(ref[i], 0); M.say("job %d: dim %d what %d order %d", (int)i, J[i].dim, J[i].what, J[i].order); }
  for (int round = 0; round < 3; ++round)
    for (size_t q = 0; q < J.size(); ++q) {
      size_t i = r.range(0, (int)J.size() - 1);
      int c = r.range(1, 255);
      std::string o;
      paint_stack(c);
      J[i].run(o, c);
      if (o != ref[i]) M.fail("dep-repeat", "job %d (dim %d, call %d) gave another result when repeated (%d bytes, %d before)", (int)i, J[i].dim, J[i].what, (int)o.size(), (int)ref[i].size());
      M.count("dep_outputs_compared");
      M.count("bytes_compared", (long)o.size());
    }
  for (size_t i = 0; i < J.size(); ++i) if (memcmp(keep[i].f3, J[i].f3, sizeof J[i].f3) && J[i].dim == 3) M.fail("dep-input", "the faces were modified");
  M.sig(7, (int)J.size(), r.next());
}
struct DepThread { const std::vector<Job> *J; std::vector<std::string> out; pthread_barrier_t *bar; unsigned start; };
static void *dep_main(void *a) {
  DepThread *t = (DepThread *)a;
  size_t n = t->J->size();
  pthread_barrier_wait(t->bar);
  for (size_t q = 0; q < n; ++q) { size_t i = (q + t->start) % n; (*t->J)[i].run(t->out[i], 1 + (int)(t->start % 200)); }
  return nullptr;
}
static void mode_threads() {
  Rng &r = M.rng;
  std::vector<Job> J(r.range(3, 10));
  for (auto &j : J) if (!j.gen(r)) M.skip("shape");
  std::vector<std::string> ref(J.size());
  bool first = r.chance(0.5);
  auto alone = [&]() { for (size_t i = 0; i < J.size(); ++i) J[i].run(ref[i], 0); };
  if (first) alone();
  int nt = r.range(2, 8);
  std::vector<DepThread> T(nt);
  std::vector<pthread_t> th(nt);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, nt);
  bool same = r.chance(0.5);
  for (int t = 0; t < nt; ++t) {
    T[t].J = &J; T[t].bar = &bar; T[t].out.resize(J.size()); T[t].start = same ? 0 : t;
    if (pthread_create(&th[t], nullptr, dep_main, &T[t])) { fprintf(stderr, "no threads\n"); _exit(3); }
  }
  for (int t = 0; t < nt; ++t) pthread_join(th[t], nullptr);
  pthread_barrier_destroy(&bar);
  if (!first) alone();
  for (int t = 0; t < nt; ++t) for (size_t i = 0; i < J.size(); ++i) {
    if (T[t].out[i] != ref[i]) M.fail("dep-thread-interference", "job %d (dim %d, call %d) gave another result while other threads were calling the library", (int)i, J[i].dim, J[i].what);
    M.count("dep_outputs_compared");
  }
  M.count("dep_thread_runs", nt);
  M.sig(8, nt, (int)J.size(), r.next());
}

#ifndef MODE_LIST
#define MODE_LIST X(vox3) X(clip3) X(help3) X(ras2) X(clip2) X(help2) X(det) X(threads)
#endif
#define X(n) {#n, mode_##n},
static const Mode MODES[] = {MODE_LIST};
int main(int argc, char **argv) { return run_monitor(argc, argv, MODES, sizeof MODES / sizeof *MODES); }
