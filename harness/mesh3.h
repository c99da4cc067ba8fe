// Boundary meshes of 3D solids (faces counter-clockwise seen from outside),
// generators for many shape families.
#pragma once
#include "oracle.h"

struct V3 {
  double x[3];
  double &operator[](int i) { return x[i]; }
  double operator[](int i) const { return x[i]; }
};
static inline V3 mk(double a, double b, double c) { V3 v; v.x[0] = a; v.x[1] = b; v.x[2] = c; return v; }

struct Mesh {
  std::vector<V3> v;
  std::vector<std::vector<int>> f;
  bool sphere = true;      // every component is a topological sphere with a 3-connected graph
  bool convex = false;
  int comps = 1;
  int sign = 1;            // -1 when the whole mesh is turned inside out
  bool planar = true;
  std::string name;
};

static void mesh_append(Mesh &a, const Mesh &b) {
  int o = (int)a.v.size();
  a.v.insert(a.v.end(), b.v.begin(), b.v.end());
  for (auto f : b.f) { for (int &i : f) i += o; a.f.push_back(f); }
  a.sphere = a.sphere && b.sphere;
  a.planar = a.planar && b.planar;
}
static void mesh_flip(Mesh &m) { for (auto &f : m.f) std::reverse(f.begin(), f.end()); m.sign = -m.sign; }

static int mesh_corners(const Mesh &m) { int n = 0; for (auto &f : m.f) n += (int)f.size(); return n; }
// vertices of the cubic (degree-3) graph of the mesh
static int mesh_cubic(const Mesh &m) { return mesh_corners(m) - 2 * (int)m.v.size(); }

static Body<3> mesh_body(const Mesh &m) {
  Body<3> b;
  LD c[3] = {0, 0, 0};
  for (auto &p : m.v) for (int i = 0; i < 3; ++i) c[i] += p[i];
  if (!m.v.empty()) for (int i = 0; i < 3; ++i) c[i] /= m.v.size();
  for (auto &f : m.f)
    for (size_t k = 1; k + 1 < f.size(); ++k) {
      Simp<3> s;
      for (int i = 0; i < 3; ++i) {
        s.x[0][i] = c[i];
        s.x[1][i] = m.v[f[0]][i];
        s.x[2][i] = m.v[f[k]][i];
        s.x[3][i] = m.v[f[k + 1]][i];
      }
      b.s.push_back(s);
    }
  return b;
}
static Ext<3> mesh_ext(const Mesh &m) { Ext<3> e; for (auto &p : m.v) e.add(p); return e; }

// ---------------------------------------------------------------- families
static Mesh g_tet(Rng &r) {
  Mesh m; m.name = "tet"; m.convex = true;
  while (true) {
    m.v.clear();
    for (int i = 0; i < 4; ++i) m.v.push_back(mk(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)));
    Simp<3> s;
    for (int v = 0; v < 4; ++v) for (int i = 0; i < 3; ++i) s.x[v][i] = m.v[v][i];
    LD d = simp_det<3>(s);
    if (fabsl(d) < 1e-3) continue;
    if (d < 0) std::swap(m.v[0], m.v[1]);
    break;
  }
  m.f = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
  return m;
}
static Mesh g_box(Rng &r) {
  Mesh m; m.name = "box"; m.convex = true;
  double a[3], b[3];
  for (int i = 0; i < 3; ++i) { a[i] = -r.uni(0.1, 1); b[i] = r.uni(0.1, 1); }
  for (int k = 0; k < 2; ++k) {
    double z = k ? b[2] : a[2];
    m.v.push_back(mk(a[0], a[1], z)); m.v.push_back(mk(b[0], a[1], z));
    m.v.push_back(mk(b[0], b[1], z)); m.v.push_back(mk(a[0], b[1], z));
  }
  m.f = {{3, 2, 1, 0}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
  return m;
}
// polygon with n vertices around the origin; jitter>0 makes it nonconvex (star shaped)
static std::vector<std::pair<double, double>> g_ring(Rng &r, int n, double jitter, bool zigzag) {
  std::vector<std::pair<double, double>> p;
  double ph = r.uni(0, 6.28);
  for (int i = 0; i < n; ++i) {
    double a = ph + 6.283185307179586 * i / n, rad = 1;
    if (zigzag) rad = (i & 1) ? r.uni(0.2, 0.5) : r.uni(0.8, 1);
    else if (jitter > 0) rad = r.uni(1 - jitter, 1);
    p.push_back({rad * cos(a), rad * sin(a)});
  }
  return p;
}
static Mesh g_prism(Rng &r, int n, int style) {
  Mesh m; m.name = style == 0 ? "prism" : style == 1 ? "zigzagprism" : "starprism"; m.convex = style == 0;
  auto p = g_ring(r, n, style == 2 ? 0.7 : 0, style == 1);
  double h0 = -r.uni(0.2, 1), h1 = r.uni(0.2, 1), s = style == 0 && r.chance(0.5) ? r.uni(0.3, 0.99) : 1;  // frustum
  for (auto &q : p) m.v.push_back(mk(q.first, q.second, h0));
  for (auto &q : p) m.v.push_back(mk(s * q.first, s * q.second, h1));
  std::vector<int> bot, top;
  for (int i = 0; i < n; ++i) { bot.push_back(n - 1 - i); top.push_back(n + i); }
  m.f.push_back(bot); m.f.push_back(top);
  for (int i = 0; i < n; ++i) { int j = (i + 1) % n; m.f.push_back({i, j, n + j, n + i}); }
  return m;
}
static Mesh g_pyramid(Rng &r, int n, int style) {
  Mesh m; m.name = style ? "starpyramid" : "pyramid"; m.convex = !style;
  auto p = g_ring(r, n, style ? 0.6 : 0, false);
  for (auto &q : p) m.v.push_back(mk(q.first, q.second, -0.4));
  m.v.push_back(mk(r.uni(-.2, .2), r.uni(-.2, .2), r.uni(0.4, 1.2)));
  std::vector<int> bot;
  for (int i = 0; i < n; ++i) bot.push_back(n - 1 - i);
  m.f.push_back(bot);
  for (int i = 0; i < n; ++i) m.f.push_back({i, (i + 1) % n, n});
  return m;
}
static Mesh g_bipyramid(Rng &r, int n, int style) {
  Mesh m; m.name = style ? "starbipyramid" : "bipyramid"; m.convex = !style;
  auto p = g_ring(r, n, style ? 0.6 : 0, false);
  for (auto &q : p) m.v.push_back(mk(q.first, q.second, style ? r.uni(-.2, .2) : 0));
  m.v.push_back(mk(0, 0, r.uni(0.5, 1.2)));
  m.v.push_back(mk(0, 0, -r.uni(0.5, 1.2)));
  for (int i = 0; i < n; ++i) { m.f.push_back({i, (i + 1) % n, n}); m.f.push_back({(i + 1) % n, i, n + 1}); }
  return m;
}
static Mesh g_antiprism(Rng &r, int n) {
  Mesh m; m.name = "antiprism"; m.convex = true;
  for (int k = 0; k < 2; ++k)
    for (int i = 0; i < n; ++i) {
      double a = 6.283185307179586 * (i + 0.5 * k) / n;
      m.v.push_back(mk(cos(a), sin(a), k ? 0.5 : -0.5));
    }
  (void)r;
  std::vector<int> bot, top;
  for (int i = 0; i < n; ++i) { bot.push_back(n - 1 - i); top.push_back(n + i); }
  m.f.push_back(bot); m.f.push_back(top);
  for (int i = 0; i < n; ++i) {
    int j = (i + 1) % n;
    m.f.push_back({i, j, n + i});
    m.f.push_back({j, n + j, n + i});
  }
  return m;
}
// incremental hull of points in general position; empty result on trouble
static std::vector<std::vector<int>> hull(const std::vector<V3> &p) {
  int n = (int)p.size();
  auto orient = [&](int a, int b, int c, int d) {
    Simp<3> s;
    int id[4] = {a, b, c, d};
    for (int v = 0; v < 4; ++v) for (int i = 0; i < 3; ++i) s.x[v][i] = p[id[v]][i];
    return simp_det<3>(s);
  };
  std::vector<std::vector<int>> none, F;
  LD o = orient(0, 1, 2, 3);
  if (fabsl(o) < 1e-7) return none;
  // outward CCW: orient(face, interior) < 0
  if (o < 0) F = {{0, 1, 2}, {0, 3, 1}, {1, 3, 2}, {0, 2, 3}};
  else F = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}};
  for (int q = 4; q < n; ++q) {
    std::vector<std::vector<int>> keep;
    std::set<std::pair<int, int>> edges;
    for (auto &f : F) {
      LD s = orient(f[0], f[1], f[2], q);
      if (fabsl(s) < 1e-12) return none;
      if (s > 0) { for (int k = 0; k < 3; ++k) edges.insert({f[k], f[(k + 1) % 3]}); }
      else keep.push_back(f);
    }
    for (auto &e : edges) if (!edges.count({e.second, e.first})) keep.push_back({e.first, e.second, q});
    F.swap(keep);
  }
  return F;
}
static void compact(Mesh &m) {
  std::vector<int> map(m.v.size(), -1);
  std::vector<V3> nv;
  for (auto &f : m.f) for (int &i : f) { if (map[i] < 0) { map[i] = (int)nv.size(); nv.push_back(m.v[i]); } i = map[i]; }
  m.v.swap(nv);
}
static V3 on_sphere(Rng &r) {
  while (true) {
    double a = r.gauss(), b = r.gauss(), c = r.gauss(), l = sqrt(a * a + b * b + c * c);
    if (l > 1e-3) return mk(a / l, b / l, c / l);
  }
}
static Mesh g_hull(Rng &r, int n, int style) {
  while (true) {
    Mesh m; m.name = style == 0 ? "hull" : style == 1 ? "starhull" : "cubehull"; m.convex = style != 1;
    for (int i = 0; i < n; ++i)
      m.v.push_back(style == 2 ? mk(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) : on_sphere(r));
    m.f = hull(m.v);
    if (m.f.empty()) continue;
    // the hull must surround the origin for the star perturbation
    if (style == 1) {
      Body<3> b = mesh_body(m);
      bool ok = true;
      for (auto &s : b.s) { Simp<3> t = s; for (int i = 0; i < 3; ++i) t.x[0][i] = 0; if (simp_det<3>(t) < 1e-6) ok = false; }
      if (!ok) continue;
      for (auto &v : m.v) { double k = r.uni(0.35, 1); for (int i = 0; i < 3; ++i) v[i] *= k; }
    }
    compact(m);
    return m;
  }
}
// simple convex polyhedron with many-sided faces: dual of a hull
static Mesh g_simple(Rng &r, int n) {
  while (true) {
    std::vector<V3> p;
    for (int i = 0; i < n; ++i) p.push_back(on_sphere(r));
    auto F = hull(p);
    if (F.empty()) continue;
    Mesh m; m.name = "simplepoly"; m.convex = true;
    bool ok = true;
    std::map<std::pair<int, int>, int> he;
    for (size_t k = 0; k < F.size(); ++k) {
      LD A[3][3], B[3][3], x[3];
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = p[F[k][i]][j];
      memcpy(B, A, sizeof A);
      LD det = detn<3>(B);
      if (fabsl(det) < 1e-4) { ok = false; break; }
      for (int c = 0; c < 3; ++c) {
        memcpy(B, A, sizeof A);
        for (int i = 0; i < 3; ++i) B[i][c] = 1;
        x[c] = detn<3>(B) / det;
        if (fabsl(x[c]) > 8) ok = false;
      }
      if (!ok) break;
      m.v.push_back(mk(x[0], x[1], x[2]));
      for (int e = 0; e < 3; ++e) he[{F[k][e], F[k][(e + 1) % 3]}] = (int)k;
    }
    if (!ok) continue;
    // origin must be inside
    for (size_t k = 0; k < F.size() && ok; ++k) {
      Simp<3> s;
      for (int i = 0; i < 3; ++i) { s.x[0][i] = 0; for (int e = 0; e < 3; ++e) s.x[e + 1][i] = p[F[k][e]][i]; }
      if (simp_det<3>(s) < 1e-6) ok = false;
    }
    if (!ok) continue;
    std::set<int> used;
    for (auto &f : F) for (int i : f) used.insert(i);
    for (int v : used) {
      // walk triangles around v counter-clockwise seen from outside
      int start = -1;
      for (size_t k = 0; k < F.size(); ++k) if (F[k][0] == v || F[k][1] == v || F[k][2] == v) { start = (int)k; break; }
      std::vector<int> ring;
      int t = start;
      do {
        ring.push_back(t);
        int e = 0;
        while (F[t][e] != v) ++e;
        int w = F[t][(e + 2) % 3];        // triangle (v, a, w): next ccw shares edge v-w
        t = he[{v, w}];
      } while (t != start && ring.size() <= F.size());
      m.f.push_back(ring);
    }
    return m;
  }
}
static Mesh g_torus(Rng &r, int a, int b) {
  Mesh m; m.name = "torus"; m.sphere = false; m.convex = false;
  double rr = r.uni(0.2, 0.45);
  for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) {
    double u = 6.283185307179586 * i / a, w = 6.283185307179586 * j / b;
    m.v.push_back(mk((1 + rr * cos(w)) * cos(u), (1 + rr * cos(w)) * sin(u), rr * sin(w)));
  }
  for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) {
    int i1 = (i + 1) % a, j1 = (j + 1) % b;
    int p = i * b + j, q = i1 * b + j, s = i1 * b + j1, t = i * b + j1;
    m.f.push_back({p, q, s});
    m.f.push_back({p, s, t});
  }
  return m;
}
// U / L / comb shaped extrusion with axis-parallel faces (exact planes)
static Mesh g_comb(Rng &r, int teeth) {
  Mesh m; m.name = "comb";
  std::vector<std::pair<double, double>> p;
  double w = 2.0 / (2 * teeth - 1);
  p.push_back({-1, -1});
  p.push_back({1, -1});
  for (int t = teeth - 1; t >= 0; --t) {
    double x0 = -1 + 2 * t * w, x1 = x0 + w;
    if (t == teeth - 1) x1 = 1;
    double h = r.uni(0.3, 1);
    p.push_back({x1, h});
    p.push_back({x0, h});
    if (t > 0) { double g = -r.uni(0, 0.5); p.push_back({x0, g}); p.push_back({x0 - w, g}); }
  }
  int n = (int)p.size();
  double h0 = -r.uni(0.2, 1), h1 = r.uni(0.2, 1);
  for (auto &q : p) m.v.push_back(mk(q.first, q.second, h0));
  for (auto &q : p) m.v.push_back(mk(q.first, q.second, h1));
  std::vector<int> bot, top;
  for (int i = 0; i < n; ++i) { bot.push_back(n - 1 - i); top.push_back(n + i); }
  m.f.push_back(bot); m.f.push_back(top);
  for (int i = 0; i < n; ++i) { int j = (i + 1) % n; m.f.push_back({i, j, n + j, n + i}); }
  return m;
}
static Mesh g_platonic(Rng &r) {
  int k = r.range(0, 3);
  std::vector<V3> p;
  double g = (1 + sqrt(5.0)) / 2;
  if (k == 0) { for (int a = 0; a < 3; ++a) for (int s = -1; s <= 1; s += 2) { V3 v = mk(0, 0, 0); v[a] = s; p.push_back(v); } }
  else {
    for (int s = -1; s <= 1; s += 2) for (int t = -1; t <= 1; t += 2) {
      p.push_back(mk(0, s, t * g)); p.push_back(mk(s, t * g, 0)); p.push_back(mk(t * g, 0, s));
    }
  }
  r.shuffle(p);
  Mesh m; m.convex = true; m.name = k == 0 ? "octahedron" : "icosahedron";
  for (int tries = 0; tries < 50; ++tries) {
    m.v = p;
    m.f = hull(p);
    if (!m.f.empty()) return m;
    r.shuffle(p);
  }
  return g_tet(r);
}
static Mesh g_latlong(Rng &r, int nu, int nv) {  // UV sphere: quads (planar) and high-degree poles
  Mesh m; m.name = "uvsphere"; m.convex = true;
  (void)r;
  for (int j = 1; j < nv; ++j) for (int i = 0; i < nu; ++i) {
    double th = 3.141592653589793 * j / nv, ph = 6.283185307179586 * i / nu;
    m.v.push_back(mk(sin(th) * cos(ph), sin(th) * sin(ph), -cos(th)));
  }
  int s = (int)m.v.size(), n = s + 1;
  m.v.push_back(mk(0, 0, -1)); m.v.push_back(mk(0, 0, 1));
  for (int i = 0; i < nu; ++i) {
    int i1 = (i + 1) % nu;
    m.f.push_back({i1, i, s});
    for (int j = 0; j + 2 < nv; ++j) m.f.push_back({j * nu + i, j * nu + i1, (j + 1) * nu + i1, (j + 1) * nu + i});
    m.f.push_back({(nv - 2) * nu + i, (nv - 2) * nu + i1, n});
  }
  return m;
}

static Mesh g_single(Rng &r, int budget) {  // budget: max vertices of the cubic graph
  if (budget > 160 && r.chance(0.6)) {         // near the limit of the vertex buffer
    Mesh m;
    int n = r.range(budget / 2, budget);
    switch (r.range(0, 5)) {
      case 0: m = g_prism(r, n / 2, 0); break;
      case 1: m = g_prism(r, 2 * (n / 4), 1); break;
      case 2: m = g_comb(r, std::max(2, n / 8)); break;
      case 3: m = g_bipyramid(r, std::max(3, n / 6), r.range(0, 1)); break;   // 2 poles of degree k, k of degree 4
      case 4: m = g_hull(r, std::max(4, n / 6), 0); break;
      case 5: { int k = std::max(3, (int)sqrt(n / 4.0)); m = g_latlong(r, k, k); break; }
    }
    if (mesh_cubic(m) <= budget) return m;
  }
  for (int tries = 0; tries < 200; ++tries) {
    Mesh m;
    int big = r.chance(0.15) ? 4 : 1;
    switch (r.range(0, 15)) {
      case 0: case 1: m = g_tet(r); break;
      case 2: case 3: m = g_box(r); break;
      case 4: m = g_prism(r, r.range(3, 12 * big), 0); break;
      case 5: m = g_prism(r, 2 * r.range(2, 10 * big), 1); break;
      case 6: m = g_prism(r, r.range(4, 14 * big), 2); break;
      case 7: m = g_pyramid(r, r.range(3, 12 * big), r.range(0, 1)); break;
      case 8: m = g_bipyramid(r, r.range(3, 10 * big), r.range(0, 1)); break;
      case 9: m = g_antiprism(r, r.range(3, 9 * big)); break;
      case 10: m = g_hull(r, r.range(4, 18 * big), 0); break;
      case 11: m = g_hull(r, r.range(6, 16 * big), 1); break;
      case 12: m = g_simple(r, r.range(4, 14 * big)); break;
      case 13: m = g_torus(r, r.range(3, 3 + 2 * big), r.range(3, 3 + 2 * big)); break;
      case 14: m = r.chance(0.5) ? g_comb(r, r.range(2, 4 * big)) : g_platonic(r); break;
      case 15: m = r.chance(0.5) ? g_hull(r, r.range(5, 20 * big), 2) : g_latlong(r, r.range(3, 4 + 2 * big), r.range(2, 3 + big)); break;
    }
    if (mesh_cubic(m) <= budget) return m;
  }
  return g_tet(r);
}

// limits of the generated coordinate ranges (narrower for float builds)
static double G_SCALE = 6, G_XSCALE = 20, G_OFF = 6;
struct Placement { double scale = 1, off = 0; bool snapped = false; };

// random solid: one of the families, possibly several components / cavities / flipped
static Mesh gen_mesh(Rng &r, int budget, Placement &pl, bool allow_extreme = true) {
  Mesh m;
  int kind = r.range(0, 19);
  pl = Placement();
  if (kind < 14) m = g_single(r, budget);
  else if (kind < 18) {  // several disjoint components
    int nc = r.chance(0.1) ? r.range(6, 24) : r.range(2, 5);
    int each = nc > 5 ? std::max(4, budget / nc) : 8 + budget / 3;
    m.v.clear();
    m.name = "union(";
    m.comps = 0;
    for (int c = 0; c < nc; ++c) {
      int left = budget - (m.v.empty() ? 0 : mesh_cubic(m));
      if (left < 4) break;
      Mesh a = g_single(r, std::max(4, std::min(left, each)));
      if (mesh_cubic(a) > left) continue;
      double dx = 3.0 * c;
      for (auto &v : a.v) { v[0] += dx; v[1] += 0.3 * c; }
      m.name += (m.comps ? "+" : "") + a.name;
      mesh_append(m, a);
      m.comps++;
    }
    m.name += ")";
    m.convex = false;
    if (!m.comps) { m = g_tet(r); }
  } else {  // body with a cavity (inner component inside out)
    Mesh o = g_box(r), i = g_single(r, std::max(4, budget - 8));
    for (auto &v : o.v) for (int k = 0; k < 3; ++k) v[k] = v[k] < 0 ? -2 : 2;
    Ext<3> e = mesh_ext(i);
    for (auto &v : i.v) for (int k = 0; k < 3; ++k) v[k] /= (double)(e.Rmax + 0.01);
    mesh_flip(i);
    if (mesh_cubic(i) + 8 > budget) { i = g_tet(r); mesh_flip(i); }
    m = o;
    mesh_append(m, i);
    m.name = "cavity(" + i.name + ")";
    m.comps = 2; m.convex = false; m.sign = 1;
  }
  // placement
  int mode = r.range(0, 9);
  bool tri = true;
  for (auto &f : m.f) if (f.size() > 3) tri = false;
  if (mode < 3) {
    // no rotation; maybe snap to a small lattice so that degenerate planes are exact
    bool axisok = tri || m.name == "box" || m.name.find("prism") != std::string::npos || m.name == "comb";
    if (axisok && m.name != "antiprism" && m.comps == 1) {
      double q = r.chance(0.5) ? 4 : 8;
      Mesh s = m;
      for (auto &v : s.v) for (int k = 0; k < 3; ++k) v[k] = floor(v[k] * q + 0.5) / q;
      // reject collapses that would make faces warp or vanish: need distinct vertices
      std::set<std::vector<double>> u;
      for (auto &v : s.v) u.insert({v[0], v[1], v[2]});
      bool ok = u.size() == s.v.size() && fabsl(mesh_body(s).volume()) > 1e-2;
      if (!tri && ok) {  // check exact planarity of the polygons
        for (auto &f : s.f) for (size_t k = 3; k < f.size(); ++k) {
          Simp<3> t;
          int id[4] = {f[0], f[1], f[2], f[k]};
          for (int a = 0; a < 4; ++a) for (int i = 0; i < 3; ++i) t.x[a][i] = s.v[id[a]][i];
          if (simp_det<3>(t) != 0) ok = false;
        }
      }
      if (ok) { m = s; pl.snapped = true; m.convex = false; }
    }
  } else {
    // random rotation
    double q[4], l = 0;
    for (int i = 0; i < 4; ++i) { q[i] = r.gauss(); l += q[i] * q[i]; }
    l = sqrt(l);
    for (int i = 0; i < 4; ++i) q[i] /= l;
    double w = q[0], x = q[1], y = q[2], z = q[3];
    double A[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)},
                      {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)},
                      {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
    double an[3] = {1, 1, 1};
    if (r.chance(0.25)) for (int i = 0; i < 3; ++i) an[i] = pow(10, r.uni(-1.5, 0.5));
    for (auto &v : m.v) {
      V3 t;
      for (int i = 0; i < 3; ++i) t[i] = an[i] * (A[i][0] * v[0] + A[i][1] * v[1] + A[i][2] * v[2]);
      v = t;
    }
  }
  double sc = 1, off = 0;
  int sm = r.range(0, 9);
  if (sm >= 6 && sm < 9) sc = pow(10, r.uni(-G_SCALE, G_SCALE));
  else if (sm == 9 && allow_extreme) sc = pow(10, r.uni(-G_XSCALE, G_XSCALE));
  if (pl.snapped) sc = ldexp(1.0, r.range(-6, 6));
  int om = r.range(0, 9);
  if (om >= 5 && om < 8) off = r.uni(0, 3);
  else if (om == 8) off = pow(10, r.uni(0, G_OFF / 2));
  else if (om == 9) off = allow_extreme ? pow(10, r.uni(G_OFF / 2, G_OFF)) : pow(10, r.uni(0, G_OFF / 2));
  V3 o = mk(0, 0, 0);
  for (int i = 0; i < 3; ++i) { o[i] = off * r.uni(-1, 1); if (pl.snapped) o[i] = floor(o[i]); }
  for (auto &v : m.v) for (int i = 0; i < 3; ++i) v[i] = sc * (v[i] + o[i]);
  pl.scale = sc; pl.off = off;
  if (r.chance(0.08)) { mesh_flip(m); m.name = "flipped " + m.name; m.convex = false; }
  return m;
}

// random relabelling of a mesh (vertex numbering, face order, face start)
static void mesh_scramble(Rng &r, Mesh &m) {
  std::vector<int> p(m.v.size());
  for (size_t i = 0; i < p.size(); ++i) p[i] = (int)i;
  r.shuffle(p);
  std::vector<V3> nv(m.v.size());
  for (size_t i = 0; i < p.size(); ++i) nv[p[i]] = m.v[i];
  m.v.swap(nv);
  for (auto &f : m.f) {
    for (int &i : f) i = p[i];
    std::rotate(f.begin(), f.begin() + r.range(0, (int)f.size() - 1), f.end());
  }
  r.shuffle(m.f);
}
