// Monitors for the N-dimensional library (RND_DIM is whatever the header says).
// Oracles: half-space vertex enumeration (vertex set and edge graph), simplex
// decomposition with staircase re-triangulation (volume); both in long double.
#include "common.h"
#include "status.h"
extern "C" {
#include "rNd.h"
#include "vNd.h"
}
static const int D = RND_DIM;
static const LD EPSN = std::numeric_limits<rNd_real>::epsilon();
static const bool FLOATN = sizeof(rNd_real) == 4;
static const double GAP = FLOATN ? 0.03 : 0.012;

struct VN { LD x[RND_DIM]; };
struct HN { LD n[RND_DIM]; LD d; };
static LD sdist(const HN &h, const VN &v) { LD s = h.d; for (int i = 0; i < D; ++i) s += h.n[i] * v.x[i]; return s; }
static LD sdist(const HN &h, const rNd_rvec &v) { LD s = h.d; for (int i = 0; i < D; ++i) s += h.n[i] * (LD)v.xyz[i]; return s; }

// ------------------------------------------------------------------ volume oracle
struct Simp { VN v[RND_DIM + 1]; };
static LD detLD(LD a[RND_DIM][RND_DIM]) {
  LD det = 1;
  for (int c = 0; c < D; ++c) {
    int p = c;
    for (int r = c + 1; r < D; ++r) if (fabsl(a[r][c]) > fabsl(a[p][c])) p = r;
    if (a[p][c] == 0) return 0;
    if (p != c) { for (int k = 0; k < D; ++k) std::swap(a[p][k], a[c][k]); det = -det; }
    det *= a[c][c];
    for (int r = c + 1; r < D; ++r) { LD f = a[r][c] / a[c][c]; for (int k = c; k < D; ++k) a[r][k] -= f * a[c][k]; }
  }
  return det;
}
static LD simpvol(const Simp &s) {
  LD a[RND_DIM][RND_DIM], f = 1;
  for (int i = 0; i < D; ++i) { f *= i + 1; for (int j = 0; j < D; ++j) a[i][j] = s.v[i + 1].x[j] - s.v[0].x[j]; }
  return detLD(a) / f;
}
typedef std::vector<Simp> BodyN;
static LD bodyvol(const BodyN &b) { LD v = 0; for (auto &s : b) v += fabsl(simpvol(s)); return v; }
static void staircase(const std::vector<std::vector<VN>> &g, int i, int j, Simp cur, int k, BodyN &out) {
  cur.v[k] = g[i][j];
  if (k == D) { out.push_back(cur); return; }
  if (i + 1 < (int)g.size()) staircase(g, i + 1, j, cur, k + 1, out);
  if (j + 1 < (int)g[0].size()) staircase(g, i, j + 1, cur, k + 1, out);
}
static void clipbody(BodyN &b, const HN &h) {
  BodyN o;
  for (auto &s : b) {
    LD f[RND_DIM + 1];
    std::vector<int> in, out;
    for (int i = 0; i <= D; ++i) { f[i] = sdist(h, s.v[i]); if (f[i] >= 0) in.push_back(i); else out.push_back(i); }
    if (out.empty()) { o.push_back(s); continue; }
    if (in.empty()) continue;
    std::vector<std::vector<VN>> g(in.size(), std::vector<VN>(out.size() + 1));
    for (size_t i = 0; i < in.size(); ++i) {
      g[i][0] = s.v[in[i]];
      for (size_t j = 0; j < out.size(); ++j) {
        LD a = f[in[i]], c = f[out[j]];
        for (int k = 0; k < D; ++k) g[i][j + 1].x[k] = (s.v[out[j]].x[k] * a - s.v[in[i]].x[k] * c) / (a - c);
      }
    }
    staircase(g, 0, 0, Simp(), 0, o);
  }
  b.swap(o);
}

// ------------------------------------------------------------------ vertex enumeration oracle
struct EnumV { VN p; std::vector<int> tight; };
static bool solve(const std::vector<HN> &h, const int *idx, VN &out) {
  LD a[RND_DIM][RND_DIM + 1];
  for (int i = 0; i < D; ++i) { for (int j = 0; j < D; ++j) a[i][j] = h[idx[i]].n[j]; a[i][D] = -h[idx[i]].d; }
  for (int c = 0; c < D; ++c) {
    int p = c;
    for (int r = c + 1; r < D; ++r) if (fabsl(a[r][c]) > fabsl(a[p][c])) p = r;
    if (fabsl(a[p][c]) < 1e-11L) return false;
    if (p != c) for (int k = 0; k <= D; ++k) std::swap(a[p][k], a[c][k]);
    for (int r = c + 1; r < D; ++r) { LD f = a[r][c] / a[c][c]; for (int k = c; k <= D; ++k) a[r][k] -= f * a[c][k]; }
  }
  for (int c = D - 1; c >= 0; --c) { LD s = a[c][D]; for (int k = c + 1; k < D; ++k) s -= a[c][k] * out.x[k]; out.x[c] = s / a[c][c]; }
  return true;
}
// all vertices of the intersection; tol is the distance below which a point counts as feasible
static std::vector<EnumV> enumerate(const std::vector<HN> &h, LD tol) {
  std::vector<EnumV> r;
  int n = (int)h.size(), idx[RND_DIM];
  for (int i = 0; i < D; ++i) idx[i] = i;
  while (true) {
    VN p;
    if (solve(h, idx, p)) {
      bool ok = true;
      for (int k = 0; k < n && ok; ++k) {
        bool mine = false;
        for (int i = 0; i < D; ++i) if (idx[i] == k) mine = true;
        if (!mine && sdist(h[k], p) < -tol) ok = false;
      }
      if (ok) { EnumV e; e.p = p; e.tight.assign(idx, idx + D); r.push_back(e); }
    }
    int i = D - 1;
    while (i >= 0 && idx[i] == n - D + i) --i;
    if (i < 0) break;
    ++idx[i];
    for (int k = i + 1; k < D; ++k) idx[k] = idx[k - 1] + 1;
  }
  return r;
}

// ------------------------------------------------------------------ shapes
struct ShapeN {
  int kind;                       // 0 simplex, 1 box
  std::vector<VN> verts;          // simplex: D+1, box: the two corners
  std::vector<HN> h;              // facets, inward
  BodyN body;
  LD R, L;                        // distance from the origin, extent
  LD amp = 1;                     // how much a position error may be amplified so far
};
static VN tov(const rNd_rvec &r) { VN v; for (int i = 0; i < D; ++i) v.x[i] = r.xyz[i]; return v; }
static rNd_rvec tor(const VN &v) { rNd_rvec r; for (int i = 0; i < D; ++i) r.xyz[i] = (rNd_real)v.x[i]; return r; }
static void extents(const std::vector<VN> &v, LD &R, LD &L) {
  R = L = 0;
  for (int i = 0; i < D; ++i) {
    LD lo = v[0].x[i], hi = lo;
    for (auto &p : v) { lo = std::min(lo, p.x[i]); hi = std::max(hi, p.x[i]); R = std::max(R, fabsl(p.x[i])); }
    L = std::max(L, hi - lo);
  }
}
static bool facets_simplex(ShapeN &s) {
  for (int f = 0; f <= D; ++f) {
    // normal of the facet opposite vertex f by Gram-Schmidt on the other vertices
    std::vector<VN> q;
    int base = f == 0 ? 1 : 0;
    for (int k = 0; k <= D; ++k) if (k != f && k != base) { VN e; for (int i = 0; i < D; ++i) e.x[i] = s.verts[k].x[i] - s.verts[base].x[i]; q.push_back(e); }
    VN n;
    for (int i = 0; i < D; ++i) n.x[i] = s.verts[f].x[i] - s.verts[base].x[i];
    q.push_back(n);
    for (size_t a = 0; a < q.size(); ++a) {
      for (int rep = 0; rep < 2; ++rep) for (size_t b = 0; b < a; ++b) { LD d = 0; for (int i = 0; i < D; ++i) d += q[a].x[i] * q[b].x[i]; for (int i = 0; i < D; ++i) q[a].x[i] -= d * q[b].x[i]; }
      LD l = 0;
      for (int i = 0; i < D; ++i) l += q[a].x[i] * q[a].x[i];
      l = sqrtl(l);
      if (l < 1e-3L * s.L) return false;      // too flat to judge
      for (int i = 0; i < D; ++i) q[a].x[i] /= l;
    }
    HN h;
    h.d = 0;
    for (int i = 0; i < D; ++i) { h.n[i] = q.back().x[i]; h.d -= h.n[i] * s.verts[base].x[i]; }
    s.h.push_back(h);
  }
  return true;
}
static void kuhn(ShapeN &s) {
  int perm[RND_DIM];
  for (int i = 0; i < D; ++i) perm[i] = i;
  do {
    Simp t;
    VN p = s.verts[0];
    t.v[0] = p;
    for (int i = 0; i < D; ++i) { p.x[perm[i]] = s.verts[1].x[perm[i]]; t.v[i + 1] = p; }
    s.body.push_back(t);
  } while (std::next_permutation(perm, perm + D));
}
struct PN {
  rNd_poly *p;
  PN() { p = (rNd_poly *)malloc(sizeof(rNd_poly)); memset((void *)p, 0x5a, sizeof *p); p->nverts = 0; }
  ~PN() { free(p); }
  PN(const PN &) = delete;
};
static bool G_REVERSE = false;   // boxes may be given with descending bounds
static ShapeN gen_shapeN(Rng &r, rNd_poly *P, int force = -1) {
  for (int tries = 0; tries < 200; ++tries) {
    ShapeN s;
    s.kind = force >= 0 ? force : r.range(0, 1);
    double scale = r.chance(0.4) ? 1 : pow(10, r.uni(FLOATN ? -2 : -7, FLOATN ? 2 : 7));
    double off = r.chance(0.4) ? 0 : r.uni(0, 3);
    VN c;
    for (int i = 0; i < D; ++i) c.x[i] = off * scale * r.uni(-1, 1);
    if (s.kind == 0) {
      for (int k = 0; k <= D; ++k) { VN v; for (int i = 0; i < D; ++i) v.x[i] = (rNd_real)(c.x[i] + scale * r.uni(-1, 1)); s.verts.push_back(v); }
    } else {
      VN a, b;
      for (int i = 0; i < D; ++i) { double w = scale * r.uni(0.2, 1.5); a.x[i] = (rNd_real)(c.x[i] - w); b.x[i] = (rNd_real)(c.x[i] + w); }
      s.verts = {a, b};
    }
    extents(s.verts, s.R, s.L);
    if (s.kind == 0) {
      Simp t;
      for (int k = 0; k <= D; ++k) t.v[k] = s.verts[k];
      LD v = fabsl(simpvol(t)), ref = 1, fac = 1;
      for (int i = 0; i < D; ++i) { ref *= s.L; fac *= i + 1; }
      if (v < 0.05L * ref / fac) continue;
      s.body.push_back(t);
      if (!facets_simplex(s)) continue;
      rNd_rvec *vv = (rNd_rvec *)malloc((D + 1) * sizeof(rNd_rvec));
      for (int k = 0; k <= D; ++k) vv[k] = tor(s.verts[k]);
      rNd_init_simplex(P, vv);
      free(vv);
    } else {
      kuhn(s);
      for (int i = 0; i < D; ++i) for (int t = 0; t < 2; ++t) {
        HN h;
        for (int k = 0; k < D; ++k) h.n[k] = 0;
        h.n[i] = t ? -1 : 1;
        h.d = t ? s.verts[1].x[i] : -s.verts[0].x[i];
        s.h.push_back(h);
      }
      rNd_rvec *bb = (rNd_rvec *)malloc(2 * sizeof(rNd_rvec));
      bb[0] = tor(s.verts[0]);
      bb[1] = tor(s.verts[1]);
      if (G_REVERSE && r.chance(0.3)) for (int i = 0; i < D; ++i) if (r.chance(0.5)) std::swap(bb[0].xyz[i], bb[1].xyz[i]);
      rNd_init_box(P, bb);
      free(bb);
    }
    M.say("%s L=%.6Lg R=%.6Lg", s.kind ? "box" : "simplex", s.L, s.R);
    for (size_t k = 0; k < s.verts.size(); ++k) { std::string t = "v"; char b[40]; for (int i = 0; i < D; ++i) { snprintf(b, sizeof b, " %.17Lg", s.verts[k].x[i]); t += b; } M.say("%s", t.c_str()); }
    return s;
  }
  M.skip("shape");
}

// ------------------------------------------------------------------ structure
static void check_structN(const rNd_poly *P, const char *what) {
  M.count("graphs_checked");
  if (P->nverts < 0 || P->nverts > RND_MAX_VERTS) M.fail("nd-count", "%s: vertex count %d", what, P->nverts);
  if (P->nverts == 0) { M.count("graphs_empty"); return; }
  if (P->nverts < D + 1) M.fail("nd-count", "%s: only %d vertices", what, P->nverts);
  for (int v = 0; v < P->nverts; ++v) {
    for (int k = 0; k < D; ++k) {
      int w = P->verts[v].pnbrs[k];
      if (w < 0 || w >= P->nverts) M.fail("nd-link", "%s: vertex %d has neighbour %d of %d", what, v, w, P->nverts);
      if (w == v) M.fail("nd-link", "%s: vertex %d is its own neighbour", what, v);
      for (int j = 0; j < k; ++j) if (P->verts[v].pnbrs[j] == w) M.fail("nd-link", "%s: vertex %d has neighbour %d twice", what, v, w);
      int back = 0;
      for (int j = 0; j < D; ++j) back += P->verts[w].pnbrs[j] == v;
      if (back != 1) M.fail("nd-link", "%s: the link %d-%d is not mutual", what, v, w);
    }
    for (int i = 0; i < D; ++i) if (!std::isfinite((double)P->verts[v].pos.xyz[i])) M.fail("nd-pos", "%s: vertex %d has a non-finite coordinate", what, v);
  }
}
static bool connectedN(const rNd_poly *P, const std::vector<char> &gone) {
  int n = P->nverts, s = -1, cnt = 0, seen = 0;
  for (int i = 0; i < n; ++i) if (!gone[i]) { ++cnt; if (s < 0) s = i; }
  std::vector<char> m(gone);
  std::vector<int> st{s};
  m[s] = 1;
  while (!st.empty()) { int v = st.back(); st.pop_back(); ++seen; for (int k = 0; k < D; ++k) { int w = P->verts[v].pnbrs[k]; if (!m[w]) { m[w] = 1; st.push_back(w); } } }
  return seen == cnt;
}
// D-connectedness of a connected regular graph by removing every (D-1)-subset
static bool dconnected(const rNd_poly *P) {
  int n = P->nverts, idx[RND_DIM];
  for (int i = 0; i < D - 1; ++i) idx[i] = i;
  while (true) {
    std::vector<char> g(n, 0);
    for (int i = 0; i < D - 1; ++i) g[idx[i]] = 1;
    if (!connectedN(P, g)) return false;
    int i = D - 2;
    while (i >= 0 && idx[i] == n - (D - 1) + i) --i;
    if (i < 0) return true;
    ++idx[i];
    for (int k = i + 1; k < D - 1; ++k) idx[k] = idx[k - 1] + 1;
  }
}

// running error bound of the flag sum, from the library's vertices (long double)
struct FlagErr { LD sum = 0; };
static void flagerr(const rNd_poly *P, int v, int d, bool *used, LD q[RND_DIM][RND_DIM], LD *dot, LD *ed, LD poserr, LD R, LD &tot) {
  if (d == D) {
    LD pr = 1;
    for (int i = 0; i < D; ++i) pr *= (fabsl(dot[i]) + R * ed[i] + poserr) / (i + 1);
    LD p0 = 1;
    for (int i = 0; i < D; ++i) p0 *= fabsl(dot[i]) / (i + 1);
    tot += pr - p0 + 8 * EPSN * pr;
    return;
  }
  for (int k = 0; k < D; ++k) {
    if (used[k]) continue;
    LD e[RND_DIM], len0 = 0, len = 0, se = 0;
    int w = P->verts[v].pnbrs[k];
    for (int i = 0; i < D; ++i) { e[i] = (LD)P->verts[v].pos.xyz[i] - (LD)P->verts[w].pos.xyz[i]; len0 += e[i] * e[i]; }
    len0 = sqrtl(len0);
    for (int a = 0; a < d; ++a) { LD t = 0; for (int i = 0; i < D; ++i) t += e[i] * q[a][i]; for (int i = 0; i < D; ++i) e[i] -= t * q[a][i]; se += ed[a]; }
    for (int i = 0; i < D; ++i) len += e[i] * e[i];
    len = sqrtl(len);
    if (!(len > 0)) { tot = INFINITY; return; }
    dot[d] = 0;
    for (int i = 0; i < D; ++i) { q[d][i] = e[i] / len; dot[d] += q[d][i] * (LD)P->verts[v].pos.xyz[i]; }
    ed[d] = (2 * poserr + 8 * EPSN * len0 + 2 * len0 * se) / len;
    used[k] = true;
    flagerr(P, v, d + 1, used, q, dot, ed, poserr, R, tot);
    used[k] = false;
  }
}
static LD volerr(const rNd_poly *P, LD R, LD poserr) {
  LD tot = 0;
  for (int v = 0; v < P->nverts; ++v) {
    bool used[RND_DIM] = {};
    LD q[RND_DIM][RND_DIM], dot[RND_DIM], ed[RND_DIM];
    flagerr(P, v, 0, used, q, dot, ed, poserr, R, tot);
  }
  return tot;
}
static LD lib_volume(rNd_poly *P) {
  rNd_real *m = (rNd_real *)malloc(sizeof(rNd_real));
  memset((void *)m, 0x5a, sizeof *m);
  std::vector<char> before((char *)P, (char *)P + sizeof(rNd_poly));
  rNd_reduce(P, m, 0);
  LD v = *m;
  free(m);
  if (memcmp(before.data(), (void *)P, sizeof(rNd_poly))) M.fail("nd-reduce-input", "integration changed the polytope");
  return v;
}
static HN gen_plane(Rng &r, const std::vector<VN> &pts, LD L) {
  HN h;
  LD l = 0;
  for (int i = 0; i < D; ++i) { h.n[i] = r.gauss(); l += h.n[i] * h.n[i]; }
  if (r.chance(0.2)) { for (int i = 0; i < D; ++i) h.n[i] = 0; h.n[r.range(0, D - 1)] = r.chance(0.5) ? 1 : -1; l = 1; }
  l = sqrtl(l);
  LD lo = INFINITY, hi = -INFINITY;
  for (int i = 0; i < D; ++i) h.n[i] = (rNd_real)(h.n[i] / l);
  h.d = 0;
  for (auto &p : pts) { LD s = sdist(h, p); lo = std::min(lo, s); hi = std::max(hi, s); }
  double t = r.chance(0.75) ? r.uni(0.02, 0.98) : r.chance(0.85) ? -r.uni(0.1, 1) : 1 + r.uni(0.1, 1);
  h.d = (rNd_real)(-(lo + (LD)t * (hi - lo)));
  return h;
}
static rNd_plane top(const HN &h) { rNd_plane p; for (int i = 0; i < D; ++i) p.n.xyz[i] = (rNd_real)h.n[i]; p.d = (rNd_real)h.d; return p; }
static void say_plane(const HN &h) { std::string t = "plane"; char b[40]; for (int i = 0; i < D; ++i) { snprintf(b, sizeof b, " %.17Lg", h.n[i]); t += b; } snprintf(b, sizeof b, " d=%.17Lg", h.d); t += b; M.say("%s", t.c_str()); }
// largest number of pieces a vertex-by-vertex compare may have
static LD postol(const ShapeN &s) { return 40 * EPSN * s.R * s.amp; }

// compare the library's polytope with the enumerated one: same vertices, same edges
static void compare_graph(const rNd_poly *P, const std::vector<EnumV> &ev, const ShapeN &s, const char *what) {
  LD tol = postol(s);
  int n = (int)ev.size();
  if (P->nverts != n) M.fail("nd-vertices", "%s: %d vertices, the intersection has %d", what, P->nverts, n);
  std::vector<int> map(n, -1);
  std::vector<char> used(n, 0);
  for (int v = 0; v < n; ++v) {
    LD best = INFINITY;
    int bi = -1;
    for (int k = 0; k < n; ++k) { LD d = 0; for (int i = 0; i < D; ++i) d = std::max(d, fabsl(ev[k].p.x[i] - (LD)P->verts[v].pos.xyz[i])); if (d < best) { best = d; bi = k; } }
    M.close("nd-vertices", best, 0, tol, "distance of a vertex from the exact one");
    if (used[bi]) M.fail("nd-vertices", "%s: two vertices coincide with the same exact vertex", what);
    used[bi] = 1;
    map[v] = bi;
  }
  for (int v = 0; v < n; ++v) for (int k = 0; k < D; ++k) {
    const auto &a = ev[map[v]].tight, &b = ev[map[P->verts[v].pnbrs[k]]].tight;
    int c = 0;
    for (int x : a) for (int y : b) c += x == y;
    if (c != D - 1) M.fail("nd-edges", "%s: an edge joins two vertices that share %d facets", what, c);
  }
  M.count("vertices_checked", n);
}
static bool general_position(const std::vector<EnumV> &ev, const std::vector<HN> &h, LD gap) {
  for (auto &e : ev) for (int k = 0; k < (int)h.size(); ++k) {
    if (std::find(e.tight.begin(), e.tight.end(), k) != e.tight.end()) continue;
    if (fabsl(sdist(h[k], e.p)) < gap) return false;
  }
  return true;
}
static void cmp_volume(rNd_poly *P, const ShapeN &s, const BodyN &b, const char *key, const char *what) {
  LD want = bodyvol(b), tol = 4 * volerr(P, s.R, 4 * EPSN * s.R * s.amp);
  LD ref = 1;
  for (int i = 0; i < D; ++i) ref *= s.L;
  LD got = lib_volume(P);
  if (!std::isfinite((double)got)) M.fail(key, "%s: volume is not finite", what);
  if (!(tol < 1e-2L * ref)) { M.count("volumes_ill_conditioned"); return; }
  M.count("volumes_compared");
  if (tol < 1e-6L * ref) M.count("volumes_compared_tightly");
  M.close(key, got, want, tol + EPSN * ref, what);
}

// hyperplanes that miss the shape, anywhere in the list
static void pad_planes(Rng &r, const std::vector<VN> &pts, LD L, std::vector<rNd_plane> &pv) {
  if (!r.chance(0.03)) return;
  for (int k = r.range(1, 150); k > 0; --k) {
    HN h;
    LD l = 0, mn = INFINITY;
    for (int i = 0; i < D; ++i) { h.n[i] = r.uni(-1, 1); l += h.n[i] * h.n[i]; }
    if (l < 1e-4L) continue;
    for (int i = 0; i < D; ++i) h.n[i] /= sqrtl(l);
    h.d = 0;
    for (auto &p : pts) mn = std::min(mn, sdist(h, p));
    h.d = -mn + L * r.uni(0.3, 3);
    pv.insert(pv.begin() + r.range(0, (int)pv.size()), top(h));
  }
  M.count("long_lists");
}
static void mode_clip() {
  Rng &r = M.rng;
  PN P;
  ShapeN s = gen_shapeN(r, P.p);
  int nc = r.range(1, D >= 5 ? 3 : 5), calls = 0;
  LD ftol = 1e-13L * (s.R + s.L) * 100;
  std::vector<EnumV> ev = enumerate(s.h, ftol);
  check_structN(P.p, "new");
  compare_graph(P.p, ev, s, "new");
  std::vector<VN> pts0;
  for (auto &e : ev) pts0.push_back(e.p);
  bool multi = r.chance(0.4);
  std::vector<HN> batch;
  for (int c = 0; c < nc; ++c) {
    HN h;
    bool ok = false;
    std::vector<VN> pts;
    for (auto &e : ev) pts.push_back(e.p);
    if (pts.empty()) break;
    for (int t = 0; t < 40 && !ok; ++t) {
      h = gen_plane(r, pts, s.L);
      ok = true;
      for (auto &p : pts) if (fabsl(sdist(h, p)) < GAP * s.L) ok = false;
      if (ok) {   // the new vertices must stay apart from the old facets too
        auto hh = s.h;
        hh.push_back(h);
        auto e2 = enumerate(hh, ftol);
        if (!general_position(e2, hh, 0.3L * GAP * s.L)) ok = false;
        else { s.h.swap(hh); ev.swap(e2); }
      }
    }
    if (!ok) break;
    say_plane(h);
    clipbody(s.body, h);
    s.amp = s.amp + 4 / (LD)GAP;
    batch.push_back(h);
    if (multi && c + 1 < nc) continue;
    std::vector<rNd_plane> pv;
    for (auto &x : batch) pv.push_back(top(x));
    pad_planes(r, pts0, s.L, pv);
    rNd_plane *pp = (rNd_plane *)malloc(pv.size() * sizeof(rNd_plane));
    memcpy((void *)pp, (void *)pv.data(), pv.size() * sizeof(rNd_plane));
    int st = VOX_STATUS(rNd_clip(P.p, pp, (int)pv.size()));
    bool same = !memcmp((void *)pp, (void *)pv.data(), pv.size() * sizeof(rNd_plane));
    free(pp);
    ++calls;
    M.count("clip_calls");
    M.count("planes_applied", pv.size());
    if (!same) M.fail("nd-clip-planes", "the plane array was written to");
    batch.clear();
    if (st != 1) { if ((int)ev.size() < RND_MAX_VERTS / 4) M.fail("nd-clip-status", "clipping reported failure although it fits"); M.count("capacity_reported"); return; }
    check_structN(P.p, "clipped");
    if (ev.empty()) { if (P.p->nverts) M.fail("nd-clip", "the intersection is empty but %d vertices remain", P.p->nverts); M.count("outcome_empty"); break; }
    compare_graph(P.p, ev, s, "clipped");
  }
  if (!batch.empty()) {
    std::vector<rNd_plane> pv;
    for (auto &x : batch) pv.push_back(top(x));
    pad_planes(r, pts0, s.L, pv);
    int st = VOX_STATUS(rNd_clip(P.p, pv.data(), (int)pv.size()));
    M.count("clip_calls");
    M.count("planes_applied", pv.size());
    if (st != 1) { if ((int)ev.size() < RND_MAX_VERTS / 4) M.fail("nd-clip-status", "clipping reported failure although it fits"); M.count("capacity_reported"); return; }
    check_structN(P.p, "clipped");
    if (ev.empty()) { if (P.p->nverts) M.fail("nd-clip", "the intersection is empty but %d vertices remain", P.p->nverts); M.count("outcome_empty"); }
    else compare_graph(P.p, ev, s, "clipped");
  }
  if (P.p->nverts) M.count("outcome_cut");
  if (s.body.size() > 4000) M.skip("body");
  cmp_volume(P.p, s, s.body, "nd-clip-volume", "clipped volume");
  if (P.p->nverts && P.p->nverts <= (D >= 5 ? 10 : 16)) { M.count("is_good_calls"); if (rNd_is_good(P.p) != 1) M.fail("nd-is-good", "the clipped polytope is reported invalid"); }
  M.sig(s.kind, P.p->nverts, s.h.size(), calls);
}

// ------------------------------------------------------------------ long histories of cuts
// the exact polytope is carried along by double description; err bounds the library's position error
struct DV { VN p; std::vector<int> tight; LD err; };
static LD dist(const VN &a, const VN &b) { LD l = 0; for (int i = 0; i < D; ++i) l += (a.x[i] - b.x[i]) * (a.x[i] - b.x[i]); return sqrtl(l); }
static bool dd_clip(const std::vector<DV> &in, std::vector<HN> h, const HN &cut, LD gap, LD R, std::vector<DV> &out, int &cross) {
  int n = (int)in.size(), id = (int)h.size();
  std::vector<LD> f(n);
  for (int v = 0; v < n; ++v) { f[v] = sdist(cut, in[v].p); if (fabsl(f[v]) < gap) return false; }
  h.push_back(cut);
  out.clear();
  cross = 0;
  for (int v = 0; v < n; ++v) if (f[v] > 0) out.push_back(in[v]);
  for (int v = 0; v < n; ++v) if (f[v] > 0) for (int w = 0; w < n; ++w) if (f[w] < 0) {
    std::vector<int> c;
    std::set_intersection(in[v].tight.begin(), in[v].tight.end(), in[w].tight.begin(), in[w].tight.end(), std::back_inserter(c));
    if ((int)c.size() != D - 1) continue;
    DV x;
    x.tight = c;
    x.tight.push_back(id);
    if (!solve(h, x.tight.data(), x.p)) return false;
    // how far the computed crossing can be off: the ends are off by err, their distances by err and rounding
    LD e = std::max(in[v].err, in[w].err), len = dist(in[v].p, in[w].p);
    x.err = e + 2 * len * (e + 8 * EPSN * R) / (f[v] - f[w]) + 8 * EPSN * R;
    for (int k = 0; k < id; ++k) if (std::find(c.begin(), c.end(), k) == c.end() && fabsl(sdist(h[k], x.p)) < gap) return false;
    out.push_back(x);
    ++cross;
  }
  return true;
}
// pulling triangulation of the face whose vertices are given
static LD dd_volume(const std::vector<DV> &v, std::vector<int> face, std::vector<int> fixed, Simp &cur, int depth, int nh) {
  if (face.empty()) return 0;
  int apex = face[0];
  cur.v[depth] = v[apex].p;
  if (depth == D) return fabsl(simpvol(cur));
  LD t = 0;
  for (int k = 0; k < nh; ++k) {
    if (std::find(fixed.begin(), fixed.end(), k) != fixed.end() || std::find(v[apex].tight.begin(), v[apex].tight.end(), k) != v[apex].tight.end()) continue;
    std::vector<int> sub;
    for (int i : face) if (std::find(v[i].tight.begin(), v[i].tight.end(), k) != v[i].tight.end()) sub.push_back(i);
    if ((int)sub.size() < D - depth) continue;
    std::vector<int> fx = fixed;
    fx.push_back(k);
    t += dd_volume(v, sub, fx, cur, depth + 1, nh);
  }
  return t;
}
static void mode_longclip() {
  Rng &r = M.rng;
  PN P;
  ShapeN s = gen_shapeN(r, P.p);
  std::vector<DV> ev;
  for (auto &e : enumerate(s.h, 1e-13L * (s.R + s.L) * 100)) { DV d; d.p = e.p; d.tight = e.tight; d.err = 2 * EPSN * s.R; ev.push_back(d); }
  if ((int)ev.size() != P.p->nverts) M.fail("nd-vertices", "new: %d vertices, the shape has %d", P.p->nverts, (int)ev.size());
  int ncut = r.range(D >= 5 ? 4 : 8, D >= 5 ? 10 : D == 4 ? 40 : 80), done = 0, calls = 0;
  LD gap = (FLOATN ? 5e-3L : 1e-4L) * s.L;
  double deep = r.chance(0.4) ? 0.06 : r.chance(0.5) ? 0.15 : 0.35;
  std::vector<HN> batch;
  auto apply = [&]() {
    if (batch.empty()) return true;
    rNd_plane *pp = (rNd_plane *)malloc(batch.size() * sizeof(rNd_plane));
    for (size_t k = 0; k < batch.size(); ++k) pp[k] = top(batch[k]);
    int st = VOX_STATUS(rNd_clip(P.p, pp, (int)batch.size()));
    free(pp);
    M.count("clip_calls");
    M.count("planes_applied", batch.size());
    batch.clear();
    ++calls;
    if (st != 1) M.fail("nd-clip-status", "clipping reported failure although %d vertices fit", (int)ev.size());
    check_structN(P.p, "after a long history");
    return true;
  };
  LD dev = 0;   // how far the vertices really are from the exact ones
  auto judge = [&]() {
    int n = (int)ev.size();
    dev = 0;
    if (P.p->nverts != n) M.fail("nd-vertices", "after %d cuts: %d vertices, the intersection has %d", done, P.p->nverts, n);
    std::vector<int> map(n);
    std::vector<char> used(n, 0);
    for (int v = 0; v < n; ++v) {
      int bi = -1;
      LD best = INFINITY;
      VN p = tov(P.p->verts[v].pos);
      for (int k = 0; k < n; ++k) { LD d = dist(p, ev[k].p); if (d < best) { best = d; bi = k; } }
      M.close("nd-vertices", best, 0, 2 * ev[bi].err, "distance of a vertex from the exact one");
      dev = std::max(dev, best);
      if (used[bi]) M.fail("nd-vertices", "after %d cuts: two vertices coincide with the same exact vertex", done);
      used[bi] = 1;
      map[v] = bi;
    }
    for (int v = 0; v < n; ++v) for (int k = 0; k < D; ++k) {
      std::vector<int> c;
      auto &a = ev[map[v]].tight, &b = ev[map[P.p->verts[v].pnbrs[k]]].tight;
      std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c));
      if ((int)c.size() != D - 1) M.fail("nd-edges", "after %d cuts: an edge joins two vertices that share %d facets", done, (int)c.size());
    }
    M.count("vertices_checked", n);
  };
  for (; done < ncut; ++done) {
    std::vector<VN> pts;
    for (auto &e : ev) pts.push_back(e.p);
    HN h;
    std::vector<DV> nx;
    bool ok = false;
    for (int t = 0; t < 30 && !ok; ++t) {
      LD l = 0, lo = INFINITY, hi = -INFINITY;
      for (int i = 0; i < D; ++i) { h.n[i] = r.gauss(); l += h.n[i] * h.n[i]; }
      for (int i = 0; i < D; ++i) h.n[i] = (rNd_real)(h.n[i] / sqrtl(l));
      h.d = 0;
      for (auto &p : pts) { LD z = sdist(h, p); lo = std::min(lo, z); hi = std::max(hi, z); }
      h.d = (rNd_real)(-(lo + (LD)r.uni(0.005, deep) * (hi - lo)));
      int cross = 0;
      ok = dd_clip(ev, s.h, h, gap, s.R, nx, cross);
      for (auto &x : nx) if (x.err > (FLOATN ? 0.2L : 0.01L) * gap) ok = false;
      if ((int)ev.size() + cross > std::min(300, (int)RND_MAX_VERTS)) ok = false;
    }
    if (!ok) break;
    say_plane(h);
    s.h.push_back(h);
    ev.swap(nx);
    batch.push_back(h);
    if (r.chance(0.3)) continue;
    apply();
    if (r.chance(0.3)) judge();
  }
  apply();
  judge();
  M.count("long_histories");
  if (done >= 15) M.count("histories_of_15_cuts");
  if (ev.size() > 60) M.count("large_polytopes");
  std::vector<int> all;
  for (int i = 0; i < (int)ev.size(); ++i) all.push_back(i);
  Simp cur;
  LD want = dd_volume(ev, all, {}, cur, 0, (int)s.h.size()), tol = 4 * volerr(P.p, s.R, dev + 4 * EPSN * s.R), ref = 1, got = lib_volume(P.p);
  for (int i = 0; i < D; ++i) ref *= s.L;
  if (!std::isfinite((double)got)) M.fail("nd-clip-volume", "volume is not finite");
  if (!(tol < 1e-2L * ref)) M.count("volumes_ill_conditioned");
  else {
    M.count("volumes_compared");
    M.close("nd-clip-volume", got, want, tol + EPSN * ref, "volume after a long history");
  }
  M.sig(s.kind, P.p->nverts, done, calls);
}

// planes through vertices, edges and facets of a lattice shape, repeatedly: structure only
static bool same_shapeN(const rNd_poly *A, const rNd_poly *B) {
  auto edges = [](const rNd_poly *P) {
    std::vector<std::vector<LD>> e;
    for (int v = 0; v < P->nverts; ++v) for (int k = 0; k < D; ++k) {
      int w = P->verts[v].pnbrs[k];
      if (w < 0 || w >= P->nverts) continue;
      std::vector<LD> a;
      for (int i = 0; i < D; ++i) a.push_back(P->verts[v].pos.xyz[i]);
      for (int i = 0; i < D; ++i) a.push_back(P->verts[w].pos.xyz[i]);
      e.push_back(a);
    }
    std::sort(e.begin(), e.end());
    return e;
  };
  return A->nverts == B->nverts && edges(A) == edges(B);
}
static void mode_clipdeg() {
  Rng &r = M.rng;
  PN P, B4;
  int kind = r.range(0, 1);
  std::vector<VN> pts;
  std::vector<HN> hs;
  if (kind) {
    rNd_rvec *bb = (rNd_rvec *)malloc(2 * sizeof(rNd_rvec));
    for (int i = 0; i < D; ++i) { bb[0].xyz[i] = r.range(-3, 0); bb[1].xyz[i] = bb[0].xyz[i] + r.range(1, 4); }
    rNd_init_box(P.p, bb);
    free(bb);
  } else {
    rNd_rvec *vv = (rNd_rvec *)malloc((D + 1) * sizeof(rNd_rvec));
    for (int t = 0; t < 50; ++t) {
      Simp sp;
      for (int k = 0; k <= D; ++k) for (int i = 0; i < D; ++i) { vv[k].xyz[i] = r.range(-2, 2); sp.v[k].x[i] = vv[k].xyz[i]; }
      if (fabsl(simpvol(sp)) > 1e-9L) break;
    }
    rNd_init_simplex(P.p, vv);
    free(vv);
  }
  for (int i = 0; i < P.p->nverts; ++i) { pts.push_back(tov(P.p->verts[i].pos)); std::string t = "v"; char c[40]; for (int k = 0; k < D; ++k) { snprintf(c, sizeof c, " %.17Lg", pts.back().x[k]); t += c; } M.say("%s", t.c_str()); }
  LD R, L;
  extents(pts, R, L);
  int n = r.range(1, 6);
  for (int c = 0; c < n; ++c) {
    HN h;
    LD l = 0;
    for (int i = 0; i < D; ++i) h.n[i] = r.range(-1, 1);
    if (D == 4 && r.chance(0.4)) for (int i = 0; i < D; ++i) h.n[i] = r.chance(0.5) ? 1 : -1;   // exact components
    for (int i = 0; i < D; ++i) l += h.n[i] * h.n[i];
    if (l == 0) { h.n[0] = 1; l = 1; }
    for (int i = 0; i < D; ++i) h.n[i] = (rNd_real)(h.n[i] / sqrtl(l));
    VN q = r.chance(0.6) && P.p->nverts ? tov(P.p->verts[r.range(0, P.p->nverts - 1)].pos) : pts[r.range(0, (int)pts.size() - 1)];
    h.d = 0;
    LD s = sdist(h, q);
    h.d = (rNd_real)-s;
    if (r.chance(0.3)) {   // touching exactly at the extreme coordinate of an axis
      int ax = r.range(0, D - 1);
      LD lo = INFINITY, hi = -INFINITY;
      for (int v = 0; v < P.p->nverts; ++v) { lo = std::min(lo, (LD)P.p->verts[v].pos.xyz[ax]); hi = std::max(hi, (LD)P.p->verts[v].pos.xyz[ax]); }
      for (int i = 0; i < D; ++i) h.n[i] = 0;
      h.n[ax] = r.chance(0.5) ? 1 : -1;
      h.d = -h.n[ax] * (r.chance(0.75) == (h.n[ax] > 0) ? lo : hi);
    }
    say_plane(h);
    rNd_plane pl = top(h);
    int before = P.p->nverts, axes = 0, npos = 0, nneg = 0, nzero = 0;
    bool sure = true;
    for (int i = 0; i < D; ++i) if (pl.n.xyz[i] != 0) axes += pl.n.xyz[i] == 1 || pl.n.xyz[i] == -1 ? 1 : 100;
    for (int v = 0; v < before; ++v) {   // axis-parallel: the sign of the distance is exact
      LD sd = sdist(h, P.p->verts[v].pos);
      if (axes != 1 && fabsl(sd) <= 32 * EPSN * (R + L + fabsl(h.d))) sure = false;
      if (sd > 0) ++npos; else if (sd < 0) ++nneg; else ++nzero;
    }
    // rounding may put vertices that are almost, but not exactly, on the plane on inconsistent sides:
    // nothing is promised then, except that the call returns
    bool amb = false;
    for (int v = 0; v < before; ++v) {
      rNd_real f1 = pl.d, f2 = 0;
      for (int i = 0; i < D; ++i) f1 += P.p->verts[v].pos.xyz[i] * pl.n.xyz[i];
      for (int i = D - 1; i >= 0; --i) f2 += P.p->verts[v].pos.xyz[i] * pl.n.xyz[i];
      f2 += pl.d;
      LD sd = sdist(h, P.p->verts[v].pos);
      if (fabsl(sd) <= 1000 * EPSN * (R + L + fabsl(h.d)) && (sd != 0 || f1 != 0 || f2 != 0)) amb = true;
    }
    memcpy((void *)B4.p, (void *)P.p, sizeof(rNd_poly));
    int st = VOX_STATUS(rNd_clip(P.p, &pl, 1));
    M.count("degenerate_clips");
    if (amb) { M.count("rounding_ambiguous"); return; }
    M.count("exactly_degenerate_clips");
    if (st == 1 && sure && !npos && nneg) {
      M.count(nzero ? "plane_touches_from_outside" : "plane_removes");
      if (P.p->nverts) M.fail("nd-not-empty", "no vertex is at a positive signed distance but %d vertices remain", P.p->nverts);
    }
    if (st == 1 && sure && !nneg) {
      M.count(nzero ? "plane_touches_from_inside" : "plane_misses");
      if (!same_shapeN(B4.p, P.p)) M.fail("nd-not-unchanged", "every vertex is at a signed distance >= 0 but the polytope changed (%d -> %d vertices)", before, P.p->nverts);
    }
    if (st != 1) { if (before < RND_MAX_VERTS / 5) M.fail("nd-clip-status", "clipping reported failure although it fits"); M.count("capacity_reported"); return; }
    hs.push_back(h);
    check_structN(P.p, "clipped (degenerate)");
    for (int v = 0; v < P.p->nverts; ++v) {
      for (auto &x : hs) if (sdist(x, P.p->verts[v].pos) < -200 * EPSN * (R + L)) M.fail("nd-deg-outside", "vertex %d lies %.3Lg outside a clip plane", v, -sdist(x, P.p->verts[v].pos));
      M.count("vertices_checked");
    }
    if (!P.p->nverts) { M.count("outcome_empty"); break; }
  }
  M.sig(kind, P.p->nverts, n);
}

// volume of whole simplices and boxes under wide placements
static void mode_volume() {
  Rng &r = M.rng;
  PN P;
  ShapeN s = gen_shapeN(r, P.p);
  if (r.chance(0.5)) {   // general parallelotope / simplex through an affine map
    rNd_real mat[RND_DIM + 1][RND_DIM + 1];
    for (int i = 0; i <= D; ++i) for (int j = 0; j <= D; ++j) mat[i][j] = (rNd_real)((i == j) + (i < D && j < D ? r.uni(-0.5, 0.5) : 0));
    for (auto &sp : s.body) for (auto &v : sp.v) { VN t; for (int i = 0; i < D; ++i) { t.x[i] = 0; for (int j = 0; j < D; ++j) t.x[i] += mat[i][j] * v.x[j]; } v = t; }
    rNd_affine(P.p, mat);
    std::vector<VN> pts;
    for (int v = 0; v < P.p->nverts; ++v) pts.push_back(tov(P.p->verts[v].pos));
    extents(pts, s.R, s.L);
    s.amp = 4;
    M.say("affine");
    M.count("affine_shapes");
  }
  cmp_volume(P.p, s, s.body, "nd-volume", "volume");
  PN Z;
  if (r.chance(0.1)) { Z.p->nverts = 0; Z.p->nfaces = 0; M.close("nd-volume-empty", lib_volume(Z.p), 0, 0, "volume of the empty polytope"); }
  M.sig(s.kind, (int)floorl(log10l(s.L)), (int)floorl(log10l(s.R / s.L)));
}

static void grid_choice(Rng &r, const std::vector<VN> &pts, LD L, rNd_rvec &d, double lo, double hi) {
  bool iso = r.chance(0.4);
  double f = r.uni(lo, hi);
  for (int i = 0; i < D; ++i) { if (!iso) f = r.uni(lo, hi); d.xyz[i] = (rNd_real)(L / f); }
}
static HN axis_plane(int ax, int sign, LD pos) { HN h; for (int i = 0; i < D; ++i) h.n[i] = 0; h.n[ax] = sign; h.d = -sign * pos; return h; }

static void mode_vox() {
  Rng &r = M.rng;
  PN P, S;
  ShapeN s = gen_shapeN(r, P.p);
  std::vector<VN> pts;
  for (int v = 0; v < P.p->nverts; ++v) pts.push_back(tov(P.p->verts[v].pos));
  if (r.chance(0.35)) {   // a clipped shape
    HN h;
    for (int t = 0; t < 60; ++t) {
      h = gen_plane(r, pts, s.L);
      bool ok = false, bad = false;
      for (auto &p : pts) { LD q = sdist(h, p); if (q > 0) ok = true; if (fabsl(q) < 4 * GAP * s.L) bad = true; }
      if (!ok || bad) continue;
      say_plane(h);
      rNd_plane pl = top(h);
      if (VOX_STATUS(rNd_clip(P.p, &pl, 1)) != 1 || P.p->nverts == 0) M.skip("clip");
      clipbody(s.body, h);
      pts.clear();
      for (int v = 0; v < P.p->nverts; ++v) pts.push_back(tov(P.p->verts[v].pos));
      M.count("clipped_shapes");
      break;
    }
  }
  rNd_rvec d;
  grid_choice(r, pts, s.L, d, 0.4, D >= 5 ? 1.8 : 2.8);
  if (r.chance(0.2)) { int k = r.range(0, D - 1); for (int i = 0; i < D; ++i) d.xyz[i] = (rNd_real)(s.L / (i == k ? r.uni(6, 16) : r.uni(0.4, 0.9))); }
  rNd_dvec ib[2], ibs[2];
  rNd_get_ibox(P.p, ib, d);
  int grow = 0;
  if (r.chance(0.25)) { for (int t = 0; t < 2; ++t) { int i = r.range(0, D - 1); if (r.chance(0.5)) ib[0].ijk[i]--; else ib[1].ijk[i]++; ++grow; } }
  long nc = 1, n[RND_DIM];
  for (int i = 0; i < D; ++i) { n[i] = ib[1].ijk[i] - ib[0].ijk[i]; nc *= n[i]; }
  if (nc <= 0 || nc > 1200) M.skip("grid-size");
  // the grid planes must be in general position with the shape (simplex) or exactly axis-parallel (box)
  LD gap = INFINITY;
  for (int i = 0; i < D; ++i) for (int k = ib[0].ijk[i]; k <= ib[1].ijk[i]; ++k) for (auto &p : pts) gap = std::min(gap, fabsl((LD)d.xyz[i] * k - p.x[i]));
  if (gap < 0.004L * s.L) M.skip("near-degenerate grid");
  rNd_real *grid = (rNd_real *)malloc(nc * sizeof(rNd_real));
  struct F { void *p; ~F() { free(p); } } fr{grid};
  std::vector<rNd_real> pre(nc, 0);
  bool pf = r.chance(0.5);
  LD cellv = 1;
  for (int i = 0; i < D; ++i) cellv *= d.xyz[i];
  if (pf) for (auto &x : pre) x = (rNd_real)(cellv * r.uni(-2, 2));
  memcpy(grid, pre.data(), nc * sizeof(rNd_real));
  if (r.chance(0.04)) {
    // nothing to deposit: an empty polytope, or an empty range
    rNd_dvec tb[2] = {ib[0], ib[1]};
    PN T;
    memcpy((void *)T.p, (void *)P.p, sizeof(rNd_poly));
    bool what = r.chance(0.5);
    if (what) T.p->nverts = 0;
    else { int k = r.range(0, D - 1); tb[1].ijk[k] = tb[0].ijk[k]; }
    int ts = VOX_STATUS(rNd_voxelize(T.p, tb, grid, d, 0));
    M.count("trivial_calls");
    if (ts != 1) M.fail("nd-vox-trivial-status", "voxelizing %s did not report success", what ? "an empty polytope" : "onto an empty range");
    if (memcmp(grid, pre.data(), nc * sizeof(rNd_real))) M.fail("nd-vox-trivial-grid", "voxelizing %s changed the grid", what ? "an empty polytope" : "onto an empty range");
  }
  memcpy((void *)S.p, (void *)P.p, sizeof(rNd_poly));
  memcpy((void *)ibs, (void *)ib, sizeof ib);
  { std::string t = "grid"; char b[80]; for (int i = 0; i < D; ++i) { snprintf(b, sizeof b, " [%d,%d)*%.17g", ib[0].ijk[i], ib[1].ijk[i], (double)d.xyz[i]); t += b; } M.say("%s prefilled=%d", t.c_str(), pf); }
  int st = VOX_STATUS(rNd_voxelize(P.p, ib, grid, d, 0));
  M.count("voxelize_calls");
  M.count("cells_written", nc);
  if (memcmp((void *)S.p, (void *)P.p, sizeof(rNd_poly))) M.fail("nd-vox-input", "voxelization changed the polytope");
  if (memcmp((void *)ibs, (void *)ib, sizeof ib)) M.fail("nd-vox-ibox", "voxelization changed the index box");
  if (st != 1) { M.fail("nd-vox-status", "voxelization reported failure although it fits"); }
  // per cell comparison: recurse axis by axis
  LD ref = 1;
  for (int i = 0; i < D; ++i) ref *= s.L;
  // conditioning: short edges of length >= gap appear in cells
  LD cond = s.L / gap;
  LD ctol = 2000 * EPSN * powl(s.R / s.L, D) * cond * ref * (FLOATN ? 4 : 1);
  if (!(ctol < 1e-3L * ref)) M.skip("ill-conditioned");
  LD sum = 0, ap = 0;
  for (long c = 0; c < nc; ++c) { sum += (LD)grid[c] - (LD)pre[c]; ap += fabsl((LD)pre[c]); }
  M.close("nd-vox-conservation", sum, bodyvol(s.body), ctol * (1 + sqrtl((LD)nc)) + 4 * EPSN * ap, "sum over cells");
  long cmp = 0;
  struct Rec {
    static void go(int ax, long off, const BodyN &b, const rNd_dvec *ib, const rNd_rvec &d, const long *n, const rNd_real *grid, const std::vector<rNd_real> &pre, LD ctol, long &cmp) {
      if (ax == D) {
        LD w = bodyvol(b);
        M.close("nd-vox-cell", (LD)grid[off] - (LD)pre[off], w, ctol + 4 * EPSN * fabsl((LD)pre[off]), "cell volume");
        ++cmp;
        if (b.empty()) { M.count("cells_empty"); if (grid[off] != pre[off]) M.fail("nd-vox-outside", "a cell out of reach of the polytope changed"); }
        else M.count("cells_nonempty");
        return;
      }
      for (int i = 0; i < n[ax]; ++i) {
        BodyN c = b;
        if (i > 0) clipbody(c, axis_plane(ax, 1, (LD)(rNd_real)(d.xyz[ax] * (ib[0].ijk[ax] + i))));
        if (i < n[ax] - 1) clipbody(c, axis_plane(ax, -1, (LD)(rNd_real)(d.xyz[ax] * (ib[0].ijk[ax] + i + 1))));
        go(ax + 1, off * n[ax] + i, c, ib, d, n, grid, pre, ctol, cmp);
      }
    }
  };
  Rec::go(0, 0, s.body, ib, d, n, grid, pre, ctol, cmp);
  M.count("cells_compared", cmp);
  M.sig(s.kind, nc, pf, grow);
}

// ranges of more than 2^31 cells: the range is huge, the shape small
static void mode_bigvox() {
  Rng &r = M.rng;
  PN P, S;
  ShapeN s = gen_shapeN(r, P.p);
  std::vector<VN> pts;
  for (int v = 0; v < P.p->nverts; ++v) pts.push_back(tov(P.p->verts[v].pos));
  rNd_rvec d;
  grid_choice(r, pts, s.L, d, 0.4, 2.0);
  rNd_dvec ib[2], bb[2];
  rNd_get_ibox(P.p, ib, d);
  long nc = 1, n[RND_DIM], o[RND_DIM];
  for (int i = 0; i < D; ++i) nc *= ib[1].ijk[i] - ib[0].ijk[i];
  if (nc <= 0 || nc > 200) M.skip("grid-size");
  LD gap = INFINITY;
  for (int i = 0; i < D; ++i) for (int k = ib[0].ijk[i]; k <= ib[1].ijk[i]; ++k) for (auto &p : pts) gap = std::min(gap, fabsl((LD)d.xyz[i] * k - p.x[i]));
  if (gap < 0.004L * s.L) M.skip("near-degenerate grid");
  LD target = r.chance(0.8) ? r.uni(2.2e9, 6e9) : r.uni(2e8, 2e9);
  for (int t = 0;; ++t) {   // any shape of range, with the tight one somewhere inside
    LD w[RND_DIM], ws = 0, tot = 1;
    for (int i = 0; i < D; ++i) { w[i] = r.uni(0.05, 1); ws += w[i]; }
    bool ok = true;
    for (int i = 0; i < D; ++i) {
      long k = ib[1].ijk[i] - ib[0].ijk[i];
      n[i] = std::max(k, (long)powl(target, w[i] / ws));
      if (i == D - 1) n[i] = (long)(target / tot) + 1;
      tot *= n[i];
      if (n[i] < k || n[i] > 200000000) ok = false;
      LD f = r.chance(0.6) ? 1 - pow(10, r.uni(-6, -1)) : r.uni(0, 1);
      o[i] = (long)(f * (n[i] - k));
    }
    if (ok) break;
    if (t > 50) M.skip("range");
  }
  size_t tot = 1;
  for (int i = 0; i < D; ++i) { bb[0].ijk[i] = (int)(ib[0].ijk[i] - o[i]); bb[1].ijk[i] = (int)(bb[0].ijk[i] + n[i]); tot *= n[i]; }
  HugeGrid G(tot * sizeof(rNd_real));
  if (!G.p) M.skip("address-space");
  rNd_real *grid = (rNd_real *)G.p;
  std::vector<rNd_real> small(nc, 0);
  { std::string t = "range"; char b[60]; for (int i = 0; i < D; ++i) { snprintf(b, sizeof b, " %ld(at %ld)", n[i], o[i]); t += b; } M.say("%s", t.c_str()); }
  if (VOX_STATUS(rNd_voxelize(P.p, ib, small.data(), d, 0)) != 1) M.skip("capacity");
  if (VOX_STATUS(rNd_voxelize(P.p, bb, grid, d, 0)) != 1) M.fail("nd-big-status", "refused on the large range, accepted on the small one");
  LD ref = 1;
  for (int i = 0; i < D; ++i) ref *= s.L;
  LD ctol = 2000 * EPSN * powl(s.R / s.L, D) * (s.L / gap) * ref * (FLOATN ? 4 : 1);
  if (!(ctol < 1e-3L * ref)) M.skip("ill-conditioned");
  std::vector<size_t> at(nc);
  LD sum = 0;
  for (long c = 0; c < nc; ++c) {
    long rem = c, x[RND_DIM];
    for (int i = D - 1; i >= 0; --i) { long k = ib[1].ijk[i] - ib[0].ijk[i]; x[i] = rem % k; rem /= k; }
    size_t g = 0;
    for (int i = 0; i < D; ++i) g = g * n[i] + (o[i] + x[i]);
    at[c] = g;
    M.close("nd-big-cell", grid[g], small[c], ctol, "cell volume on the large range");
    sum += grid[g];
  }
  M.close("nd-big-sum", sum, bodyvol(s.body), ctol * (1 + sqrtl((LD)nc)), "sum over the cells");
  M.count("cells_compared", nc);
  M.count("big_grids");
  G.touched([&](size_t off, size_t len) {
    M.count("big_pages_inspected");
    for (size_t i = off / sizeof(rNd_real); i < (off + len) / sizeof(rNd_real); ++i)
      if (grid[i] != 0 && !std::binary_search(at.begin(), at.end(), i)) M.fail("nd-big-outside", "cell %zu is out of reach but was changed", i);
  });
  M.sig(s.kind, (uint64_t)log2((double)n[0]), (uint64_t)log2((double)n[1]), nc);
}

static void mode_ibox() {
  Rng &r = M.rng;
  PN P, S;
  ShapeN s = gen_shapeN(r, P.p);
  std::vector<VN> pts;
  for (int v = 0; v < P.p->nverts; ++v) pts.push_back(tov(P.p->verts[v].pos));
  rNd_rvec d;
  grid_choice(r, pts, s.L, d, r.chance(0.5) ? 0.3 : 5, 30);
  rNd_dvec ib[2], ib0[2], cb[2], cbs[2];
  memset((void *)ib, 0x7f, sizeof ib);
  if (r.chance(0.03)) {
    P.p->nverts = 0;
    rNd_get_ibox(P.p, ib, d);
    for (int i = 0; i < D; ++i) if (ib[0].ijk[i] != 0 || ib[1].ijk[i] != 0) M.fail("nd-ibox-empty", "the index box of an empty polytope is not zero: axis %d [%d,%d)", i, ib[0].ijk[i], ib[1].ijk[i]);
    M.count("empty_boxes");
    return;
  }
  memcpy((void *)S.p, (void *)P.p, sizeof(rNd_poly));
  rNd_get_ibox(P.p, ib, d);
  M.count("ibox_calls");
  if (memcmp((void *)S.p, (void *)P.p, sizeof(rNd_poly))) M.fail("nd-ibox-input", "computing the index box changed the polytope");
  for (int i = 0; i < D; ++i) {
    LD lo = INFINITY, hi = -INFINITY;
    for (auto &p : pts) { lo = std::min(lo, p.x[i]); hi = std::max(hi, p.x[i]); }
    LD t = 8 * EPSN * (fabsl(lo) + fabsl(hi)), dx = d.xyz[i];
    M.count("ibox_bounds_checked", 2);
    if (!(ib[0].ijk[i] * dx <= lo + t && (ib[0].ijk[i] + 1) * dx > lo - t)) M.fail("nd-ibox", "axis %d: lower index %d for bound %.17Lg spacing %.17Lg", i, ib[0].ijk[i], lo, dx);
    if (!(ib[1].ijk[i] * dx >= hi - t && (ib[1].ijk[i] - 1) * dx < hi + t)) M.fail("nd-ibox", "axis %d: upper index %d for bound %.17Lg spacing %.17Lg", i, ib[1].ijk[i], hi, dx);
  }
  memcpy((void *)ib0, (void *)ib, sizeof ib);
  int style = r.range(0, 5), pick = r.range(0, D - 1);
  for (int i = 0; i < D; ++i) {
    int lo = ib[0].ijk[i], hi = ib[1].ijk[i], w = std::max(1, hi - lo);
    cb[0].ijk[i] = lo - r.range(0, 2);
    cb[1].ijk[i] = hi + r.range(0, 2);
    if (style == 1 || (style == 2 && i == pick) || (style == 3 && r.chance(0.5))) { cb[0].ijk[i] = lo + r.range(0, w / 3); cb[1].ijk[i] = std::max(cb[0].ijk[i] + 1, hi - r.range(0, w / 3)); }
    if (style == 4 && i == pick) { if (r.chance(0.5)) { cb[0].ijk[i] = hi + r.range(0, 2); cb[1].ijk[i] = cb[0].ijk[i] + 2; } else { cb[1].ijk[i] = lo - r.range(0, 2); cb[0].ijk[i] = cb[1].ijk[i] - 2; } }
    if (style == 5) { cb[0].ijk[i] = lo + 1; cb[1].ijk[i] = std::max(lo + 2, hi - 1); }   // every side clips
  }
  memcpy((void *)cbs, (void *)cb, sizeof cb);
  bool disjoint = false, in = true;
  int sides = 0;
  LD gap = INFINITY;
  BodyN b = s.body;
  std::vector<HN> hs = s.h;
  for (int i = 0; i < D; ++i) {
    if (ib0[1].ijk[i] <= cb[0].ijk[i] || ib0[0].ijk[i] >= cb[1].ijk[i]) disjoint = true;
    for (int t = 0; t < 2; ++t) {
      if (!(t ? ib0[1].ijk[i] > cb[1].ijk[i] : ib0[0].ijk[i] < cb[0].ijk[i])) continue;
      in = false;
      ++sides;
      LD pos = (LD)(rNd_real)(d.xyz[i] * cb[t].ijk[i]);
      for (auto &p : pts) gap = std::min(gap, fabsl(pos - p.x[i]));
      hs.push_back(axis_plane(i, t ? -1 : 1, pos));
    }
  }
  if (!disjoint && !in && gap < GAP * s.L) M.skip("near-degenerate clamp");
  std::vector<EnumV> ev;
  bool gp = true;
  if (!disjoint && !in) {
    ev = enumerate(hs, 1e-11L * (s.R + s.L));
    gp = general_position(ev, hs, 0.2L * GAP * s.L);
  }
  int st = VOX_STATUS(rNd_clamp_ibox(P.p, ib, cb, d));
  M.count("clamp_calls");
  M.say("clamp style %d sides %d", style, sides);
  if (memcmp((void *)cb, (void *)cbs, sizeof cb)) M.fail("nd-clamp-range", "the clamp range was written to");
  if (st != 1) M.fail("nd-clamp-status", "clamping reported failure although it fits");
  if (disjoint) {
    M.count("outcome_disjoint");
    if (P.p->nverts) M.fail("nd-clamp-disjoint", "disjoint ranges but %d vertices remain", P.p->nverts);
    for (int i = 0; i < D; ++i) if (ib[0].ijk[i] || ib[1].ijk[i]) M.fail("nd-clamp-disjoint", "disjoint ranges but the index box is not empty");
    return;
  }
  for (int i = 0; i < D; ++i) {
    int lo = std::max(ib0[0].ijk[i], cb[0].ijk[i]), hi = std::min(ib0[1].ijk[i], cb[1].ijk[i]);
    if (ib[0].ijk[i] != lo || ib[1].ijk[i] != hi) M.fail("nd-clamp-box", "axis %d: clamped box [%d,%d) expected [%d,%d)", i, ib[0].ijk[i], ib[1].ijk[i], lo, hi);
  }
  if (in) { M.count("outcome_inside"); if (memcmp((void *)S.p, (void *)P.p, sizeof(rNd_poly))) M.fail("nd-clamp-inside", "the polytope was changed although it lies inside the range"); return; }
  M.count("outcome_clipped");
  if (sides == 2 * D) M.count("all_sides_clamped");
  check_structN(P.p, "clamped");
  for (int v = 0; v < P.p->nverts; ++v) for (size_t k = s.h.size(); k < hs.size(); ++k) if (sdist(hs[k], P.p->verts[v].pos) < -200 * EPSN * (s.R + s.L) / GAP) M.fail("nd-clamp-outside", "a vertex of the clamped polytope lies outside the range");
  s.amp += sides * 4 / (LD)GAP;
  if (gp) { M.count("clamps_in_general_position"); if (ev.empty() != (P.p->nverts == 0)) M.fail("nd-clamp", "%d vertices left, expected %d", P.p->nverts, (int)ev.size()); if (!ev.empty()) compare_graph(P.p, ev, s, "clamped"); }
  M.sig(s.kind, style, sides, P.p->nverts);
}

static void mode_xform() {
  Rng &r = M.rng;
  PN P, S;
  ShapeN s = gen_shapeN(r, P.p);
  int steps = r.range(1, 3);
  for (int k = 0; k < steps; ++k) {
    memcpy((void *)S.p, (void *)P.p, sizeof(rNd_poly));
    int n = S.p->nverts, op = r.range(0, 4);
    LD R = 0;
    for (int v = 0; v < n; ++v) for (int i = 0; i < D; ++i) R = std::max(R, fabsl((LD)S.p->verts[v].pos.xyz[i]));
    std::vector<VN> w(n);
    for (int v = 0; v < n; ++v) w[v] = tov(S.p->verts[v].pos);
    LD mag = R;
    int sg = op;
    if (op == 0) {
      int a = r.range(0, D - 1), b = r.range(0, D - 2);
      if (b >= a) ++b;
      rNd_real th = (rNd_real)xf_angle(r);
      rNd_rotate(P.p, th, a, b);
      for (auto &p : w) { LD x = p.x[a], y = p.x[b]; p.x[a] = cosl((LD)th) * x - sinl((LD)th) * y; p.x[b] = sinl((LD)th) * x + cosl((LD)th) * y; }
      mag = 2 * R * 8;
      sg = 10 + a * 8 + b;
    } else if (op == 1) {
      rNd_rvec t;
      for (int i = 0; i < D; ++i) { t.xyz[i] = (rNd_real)(r.chance(0.2) ? 0 : s.L * r.uni(-3, 3)); for (auto &p : w) p.x[i] += t.xyz[i]; mag = std::max(mag, R + fabsl((LD)t.xyz[i])); }
      rNd_translate(P.p, t);
    } else if (op == 2) {
      rNd_rvec t;
      LD m = 0;
      for (int i = 0; i < D; ++i) { t.xyz[i] = (rNd_real)xf_factor(r); for (auto &p : w) p.x[i] *= t.xyz[i]; m = std::max(m, fabsl((LD)t.xyz[i])); }
      mag = R * m;
      rNd_scale(P.p, t);
    } else if (op == 3) {
      int a = r.range(0, D - 1), b = r.range(0, D - 2);
      if (b >= a) ++b;
      if (r.chance(0.15)) b = a;
      rNd_real sh = (rNd_real)(r.chance(0.3) ? xf_factor(r) : r.uni(-2, 2));
      rNd_shear(P.p, sh, a, b);
      for (auto &p : w) p.x[a] += sh * p.x[b];
      mag = (1 + fabsl((LD)sh)) * R;
      sg = 100 + a * 8 + b;
    } else {
      rNd_real mat[RND_DIM + 1][RND_DIM + 1], ms[RND_DIM + 1][RND_DIM + 1];
      std::vector<std::vector<LD>> pts;
      for (auto &p : w) { std::vector<LD> q; for (int i = 0; i < D; ++i) q.push_back(p.x[i]); pts.push_back(q); }
      bool ok = false, persp = false;
      for (int a = 0; a < 20 && !ok; ++a) ok = xf_matrix(r, D, &mat[0][0], (double)s.L, (double)R, pts);
      if (!ok) M.skip("matrix");
      for (int j = 0; j < D; ++j) if (mat[D][j] != 0) persp = true;
      M.count(persp ? "projective_maps" : "affine_maps");
      LD wmax = 0;
      memcpy(ms, mat, sizeof mat);
      LD wmin = INFINITY;
      for (auto &p : w) {
        VN t;
        LD q = mat[D][D];
        for (int j = 0; j < D; ++j) q += mat[D][j] * p.x[j];
        for (int i = 0; i < D; ++i) { t.x[i] = mat[i][D]; for (int j = 0; j < D; ++j) t.x[i] += mat[i][j] * p.x[j]; t.x[i] /= q; }
        wmin = std::min(wmin, fabsl(q)); { LD z = fabsl((LD)mat[D][D]); for (int j = 0; j < D; ++j) z += fabsl(mat[D][j] * p.x[j]); wmax = std::max(wmax, z); }
        p = t;
      }
      mag = (D * R + s.L) * 4 / wmin * (wmax / wmin);
      rNd_affine(P.p, mat);
      if (memcmp(ms, mat, sizeof mat)) M.fail("nd-affine-matrix", "the matrix was written to");
      sg = 200 + persp;
    }
    M.count("transforms");
    if (P.p->nverts != n || P.p->nfaces != S.p->nfaces) M.fail("nd-xform-graph", "a transformation changed the vertex count");
    for (int v = 0; v < n; ++v) {
      if (memcmp((void *)P.p->verts[v].pnbrs, (void *)S.p->verts[v].pnbrs, sizeof P.p->verts[v].pnbrs) || memcmp((void *)P.p->verts[v].finds, (void *)S.p->verts[v].finds, sizeof P.p->verts[v].finds)) M.fail("nd-xform-graph", "a transformation changed the connectivity");
      for (int i = 0; i < D; ++i) M.close("nd-xform", P.p->verts[v].pos.xyz[i], w[v].x[i], 32 * EPSN * mag, "transformed coordinate", i);
    }
    M.sig(s.kind, sg);
  }
}

static void mode_orient() {
  Rng &r = M.rng;
  rNd_rvec *v = (rNd_rvec *)malloc((D + 1) * sizeof(rNd_rvec)), *c = (rNd_rvec *)malloc((D + 1) * sizeof(rNd_rvec));
  struct F { void *p; ~F() { free(p); } } f1{v}, f2{c};
  double scale = pow(10, r.uni(FLOATN ? -3 : -20, FLOATN ? 3 : 20)), off = r.chance(0.5) ? 0 : pow(10, r.uni(-1, 3)) * scale;
  LD L = 0, R = 0;
  Simp s;
  for (int k = 0; k <= D; ++k) for (int i = 0; i < D; ++i) { v[k].xyz[i] = (rNd_real)(off + scale * (r.chance(0.1) ? r.range(-1, 1) : r.uni(-1, 1))); s.v[k].x[i] = v[k].xyz[i]; R = std::max(R, fabsl(s.v[k].x[i])); }
  for (int k = 1; k <= D; ++k) for (int i = 0; i < D; ++i) L = std::max(L, fabsl(s.v[k].x[i] - s.v[0].x[i]));
  memcpy((void *)c, (void *)v, (D + 1) * sizeof(rNd_rvec));
  LD want = simpvol(s), ref = 1, tol;
  for (int i = 0; i < D; ++i) ref *= L;
  tol = 64 * EPSN * ref + 8 * EPSN * R * ref / (L > 0 ? L : 1) * 0;
  LD got = rNd_orient(v);
  M.count("orient_calls");
  if (memcmp((void *)c, (void *)v, (D + 1) * sizeof(rNd_rvec))) M.fail("nd-orient-input", "the vertices were written to");
  M.close("nd-orient", got, want, tol, "signed volume");
  int a = r.range(0, D), b = r.range(0, D - 1);
  if (b >= a) ++b;
  std::swap(v[a], v[b]);
  M.close("nd-orient-swap", rNd_orient(v), -want, 2 * tol, "signed volume after a swap");
  M.sig((int)log10(scale), want > 0, off > 0);
}

static void mode_init() {
  Rng &r = M.rng;
  PN P;
  G_REVERSE = true;
  ShapeN s = gen_shapeN(r, P.p);
  check_structN(P.p, "new");
  std::vector<EnumV> ev = enumerate(s.h, 1e-11L * (s.R + s.L));
  if (P.p->nverts != (s.kind ? (1 << D) : D + 1)) M.fail("nd-init", "%d vertices", P.p->nverts);
  compare_graph(P.p, ev, s, "new");
  // positions are taken over exactly
  for (int v = 0; v < P.p->nverts; ++v) for (int i = 0; i < D; ++i) {
    bool hit = false;
    for (auto &q : s.verts) if ((LD)P.p->verts[v].pos.xyz[i] == q.x[i]) hit = true;
    if (!hit) M.fail("nd-init", "a coordinate is not one of those given");
  }
  cmp_volume(P.p, s, s.body, "nd-init-volume", "volume");
  if (r.chance(0.05)) { M.count("is_good_calls"); if (rNd_is_good(P.p) != 1) M.fail("nd-init-good", "a new polytope is reported invalid"); }
  M.count("basic_polytopes");
  M.sig(s.kind, (int)floorl(log10l(s.L)));
}

// graphs far larger than the usual cells: a D-connected Harary graph, or two of them joined by two edges only
static void big_isgood() {
  Rng &r = M.rng;
  PN P;
  int m = 2 * r.range(14, 50), n = m;
  if (m < 2 * D + 4) m = n = 2 * D + 4;
  std::vector<std::vector<int>> a(m);
  for (int v = 0; v < m; ++v) {
    for (int k = 1; k <= D / 2; ++k) { a[v].push_back((v + k) % m); a[v].push_back((v + m - k) % m); }
    if (D % 2) a[v].push_back((v + m / 2) % m);
  }
  bool bridge = r.chance(0.5) && 2 * m <= std::min(130, (int)RND_MAX_VERTS);
  if (bridge) {
    n = 2 * m;
    a.resize(n);
    for (int v = 0; v < m; ++v) { a[m + v] = a[v]; for (int &w : a[m + v]) w += m; }
    int x = r.range(0, m - 1), y = a[x][r.range(0, D - 1)];
    for (int &w : a[x]) if (w == y) w = m + y;
    for (int &w : a[y]) if (w == x) w = m + x;
    for (int &w : a[m + x]) if (w == m + y) w = y;
    for (int &w : a[m + y]) if (w == m + x) w = x;
  }
  if (n > RND_MAX_VERTS) M.skip("capacity");
  std::vector<int> id(n);
  for (int v = 0; v < n; ++v) id[v] = v;
  r.shuffle(id);
  memset((void *)P.p, 0, sizeof(rNd_poly));
  P.p->nverts = n;
  for (int v = 0; v < n; ++v) {
    r.shuffle(a[v]);
    for (int k = 0; k < D; ++k) P.p->verts[id[v]].pnbrs[k] = id[a[v][k]];
    for (int k = 0; k < D; ++k) P.p->verts[id[v]].pos.xyz[k] = (rNd_real)r.uni(-1, 1);
  }
  M.say("%s graph, %d vertices", bridge ? "bridged" : "Harary", n);
  int got = rNd_is_good(P.p);
  M.count("is_good_calls");
  if (n > 64) M.count("huge_graphs_nd");
  M.count(bridge ? "rejected" : "accepted");
  if ((got != 0) == bridge) M.fail("nd-isgood", "verdict %d for a graph of %d vertices that is %s", got, n, bridge ? "held together by two edges" : "sound");
  M.sig(100 + bridge, n, !bridge);
}

static void mode_isgood() {
  Rng &r = M.rng;
  if (D < 5 && r.chance(0.006)) { big_isgood(); return; }
  PN P;
  ShapeN s = gen_shapeN(r, P.p, r.chance(0.7) ? 0 : 1);
  if (D < 5 && r.chance(0.3) && s.kind == 0) {
    std::vector<VN> pts;
    for (int v = 0; v < P.p->nverts; ++v) pts.push_back(tov(P.p->verts[v].pos));
    rNd_plane pl = top(gen_plane(r, pts, s.L));
    if (VOX_STATUS(rNd_clip(P.p, &pl, 1)) != 1 || P.p->nverts < D + 1) M.skip("clip");
  }
  int n = P.p->nverts, kind = r.range(0, 7);
  bool want = true, judge = true;
  const char *name = "sound";
  auto &vb = P.p->verts;
  auto slot = [&](int v, int w) { for (int k = 0; k < D; ++k) if (vb[v].pnbrs[k] == w) return k; return 0; };
  bool full = kind >= 1 && kind <= 4 && RND_MAX_VERTS % (1 << D) == 0 && r.chance(0.3);
  if (full) {   // every vertex slot in use
    rNd_rvec b[2];
    for (int j = 0; j < D; ++j) { b[0].xyz[j] = -1; b[1].xyz[j] = 1; }
    rNd_init_box(P.p, b);
    n = P.p->nverts;
    for (int i = n; i < RND_MAX_VERTS; ++i) { vb[i] = vb[i % n]; for (int j = 0; j < D; ++j) vb[i].pnbrs[j] += i / n * n; }
    P.p->nverts = n = RND_MAX_VERTS;
    M.count("full_buffer_graphs");
  }
  int v = r.range(0, n - 1), k = r.range(0, D - 1);
  if (r.chance(0.1)) v = n - 1;
  switch (kind) {
    case 0: break;
    case 1: vb[v].pnbrs[k] = v; want = false; name = "self"; break;
    case 2: vb[v].pnbrs[k] = n + (r.chance(0.5) ? 0 : r.range(0, 1 << 30)); want = false; name = "beyond"; break;
    case 3: vb[v].pnbrs[k] = r.chance(0.5) ? -1 : -r.range(1, 1 << 30); want = false; name = "negative"; break;
    case 4: vb[v].pnbrs[k] = vb[v].pnbrs[(k + 1) % D]; want = false; name = "double"; break;
    case 5: {   // a second copy, disconnected: both components are sound
      if (2 * n > (D >= 5 ? 14 : 20)) { name = "sound"; break; }
      for (int i = 0; i < n; ++i) { vb[n + i] = vb[i]; for (int j = 0; j < D; ++j) vb[n + i].pnbrs[j] += n; }
      P.p->nverts = 2 * n;
      name = "two components";
      break;
    }
    case 6: {   // two copies joined through D-1 or fewer crossing edges: a (D-1)-separator
      if (2 * n > (D >= 5 ? 14 : 20)) { name = "sound"; break; }
      for (int i = 0; i < n; ++i) { vb[n + i] = vb[i]; for (int j = 0; j < D; ++j) vb[n + i].pnbrs[j] += n; }
      P.p->nverts = 2 * n;
      int a = v, b = vb[v].pnbrs[k], ka = k, kb = slot(b, a);
      vb[a].pnbrs[ka] = n + b;
      vb[b].pnbrs[kb] = n + a;
      vb[n + b].pnbrs[kb] = a;
      vb[n + a].pnbrs[ka] = b;
      want = false;      // two crossing edges only
      name = "bridge";
      break;
    }
    case 7: {   // two symmetric links exchanged: cubic, judged by brute force
      for (int t = 0; t < 20; ++t) {
        int a = r.range(0, n - 1), b = vb[a].pnbrs[r.range(0, D - 1)], c = r.range(0, n - 1), d = vb[c].pnbrs[r.range(0, D - 1)];
        if (a == c || a == d || b == c || b == d) continue;
        auto adj = [&](int x, int y) { for (int j = 0; j < D; ++j) if (vb[x].pnbrs[j] == y) return true; return false; };
        if (adj(a, c) || adj(b, d)) continue;
        int sab = slot(a, b), sba = slot(b, a), scd = slot(c, d), sdc = slot(d, c);
        vb[a].pnbrs[sab] = c; vb[c].pnbrs[scd] = a; vb[b].pnbrs[sba] = d; vb[d].pnbrs[sdc] = b;
      }
      std::vector<char> none(n, 0);
      if (!connectedN(P.p, none)) judge = false; else want = dconnected(P.p);
      name = want ? "exchanged, still connected" : "exchanged, separable";
      break;
    }
  }
  if (!full && P.p->nverts > (D >= 5 ? 16 : 24)) M.skip("size");
  std::vector<char> before((char *)P.p, (char *)P.p + sizeof(rNd_poly));
  int got = rNd_is_good(P.p);
  M.count("is_good_calls");
  M.say("kind %s n=%d", name, P.p->nverts);
  if (memcmp(before.data(), (void *)P.p, sizeof(rNd_poly))) M.fail("nd-isgood-input", "the validity check changed the polytope");
  if (!judge) return;
  M.count(want ? "accepted" : "rejected");
  if ((got != 0) != want) M.fail("nd-isgood", "verdict %d for a polytope that is %s (%s)", got, want ? "sound" : "broken", name);
  M.sig(kind, P.p->nverts, want);
}

// near the vertex capacity (build with a small RND_MAX_VERTS)
static void mode_capacity() {
  Rng &r = M.rng;
  PN P;
  ShapeN s = gen_shapeN(r, P.p);
  if (P.p->nverts > RND_MAX_VERTS) M.skip("capacity");
  double deep = r.chance(0.5) ? 0.35 : r.chance(0.5) ? 0.12 : 0.04;
  // keep cutting small corners off until the buffer is exhausted
  for (int t = 0; t < 400; ++t) {
    int n = P.p->nverts;
    if (n == 0) break;
    HN h;
    // how many edges cross, from the library's own vertex positions
    int cross = 0, in = 0;
    bool unsure = false;
    int tries = n > RND_MAX_VERTS / 2 ? 60 : 1, goal = RND_MAX_VERTS + (r.chance(0.6) ? 0 : 1);
    for (int q = 0; q < tries; ++q) {   // close to the limit, look for a cut that lands exactly on it or one past it
      LD l = 0;
      for (int i = 0; i < D; ++i) { h.n[i] = r.gauss(); l += h.n[i] * h.n[i]; }
      for (int i = 0; i < D; ++i) h.n[i] = (rNd_real)(h.n[i] / sqrtl(l));
      h.d = 0;
      LD lo = INFINITY, hi = -INFINITY;
      for (int v = 0; v < n; ++v) { LD z = sdist(h, P.p->verts[v].pos); lo = std::min(lo, z); hi = std::max(hi, z); }
      h.d = (rNd_real)(-(lo + (LD)r.uni(0.005, deep) * (hi - lo)));
      cross = in = 0;
      unsure = false;
      std::vector<char> out(n);
      for (int v = 0; v < n; ++v) { LD z = sdist(h, P.p->verts[v].pos); out[v] = z < 0; in += !out[v]; if (fabsl(z) < 64 * EPSN * (s.R + s.L)) unsure = true; }
      for (int v = 0; v < n; ++v) if (!out[v]) for (int k = 0; k < D; ++k) cross += out[P.p->verts[v].pnbrs[k]];
      if (n + cross == goal && !unsure) break;
    }
    rNd_plane pl = top(h);
    if (unsure) continue;
    int st = VOX_STATUS(rNd_clip(P.p, &pl, 1));
    M.count("clip_calls");
    if (st == 1) {
      M.count("fits");
      if (P.p->nverts != in + cross) M.fail("nd-cap-count", "%d vertices after the cut, expected %d", P.p->nverts, in + cross);
      if (n + cross == RND_MAX_VERTS) M.count("exact_fits");
      if (n + cross == RND_MAX_VERTS - 1) M.count("one_below_capacity");
      check_structN(P.p, "clipped near the capacity");
      if (n + cross > 2 * RND_MAX_VERTS) M.fail("nd-cap-missed", "success reported although the cut needs more vertices than the buffer holds");
    } else {
      M.count("refused");
      if (n + cross == RND_MAX_VERTS + 1) M.count("one_above_capacity");
      if (n + cross <= RND_MAX_VERTS) M.fail("nd-cap-refused", "refused although %d + %d vertices fit in %d", n, cross, RND_MAX_VERTS);
      if (P.p->nverts < 0 || P.p->nverts > RND_MAX_VERTS) M.fail("nd-cap-count", "vertex count %d after a refused cut", P.p->nverts);
      M.sig(1, n, cross);
      return;
    }
    if (in + cross > RND_MAX_VERTS) M.fail("nd-cap-missed", "success reported although the result has more vertices than the buffer holds");
  }
}

// hostile but legal sequences, for the sanitizers
static void mode_mem() {
  Rng &r = M.rng;
  PN P;
  ShapeN s = gen_shapeN(r, P.p);
  int kind = r.range(0, 4);
  if (kind == 0) { P.p->nverts = 0; P.p->nfaces = 0; }
  if (kind == 1) for (int v = 0; v < P.p->nverts; ++v) for (int i = 0; i < D; ++i) P.p->verts[v].pos.xyz[i] = (rNd_real)floor((double)(P.p->verts[v].pos.xyz[i] / s.L * 2));
  if (kind == 2) for (int v = 0; v < P.p->nverts; ++v) P.p->verts[v].pos = P.p->verts[0].pos;
  std::vector<rNd_plane> past;
  for (int st = 0, ops = r.range(1, 8); st < ops; ++st) {
    int op = r.range(0, 5);
    M.count("hostile_calls");
    if (op <= 1) {
      int n = r.range(0, 4);
      rNd_plane *pl = (rNd_plane *)malloc(std::max(1, n) * sizeof(rNd_plane));
      for (int i = 0; i < n; ++i) {
        HN h;
        LD l = 0;
        for (int k = 0; k < D; ++k) { h.n[k] = r.chance(0.5) ? r.range(-1, 1) : r.gauss(); l += h.n[k] * h.n[k]; }
        if (l == 0) { h.n[0] = 1; l = 1; }
        for (int k = 0; k < D; ++k) h.n[k] /= sqrtl(l);
        h.d = 0;
        if (P.p->nverts) h.d = -sdist(h, P.p->verts[r.range(0, P.p->nverts - 1)].pos);
        if (r.chance(0.4)) h.d += s.L * r.uni(-0.3, 0.3);
        pl[i] = top(h);
        if (!past.empty() && r.chance(0.35)) {   // a plane met before, as it was or off by rounding
          pl[i] = past[r.range(0, (int)past.size() - 1)];
          if (r.chance(0.5)) pl[i].d = (rNd_real)(pl[i].d * (1 + r.range(-2, 2) * (double)std::numeric_limits<rNd_real>::epsilon()));
          M.count("repeated_planes");
        }
        past.push_back(pl[i]);
      }
      int ok = VOX_STATUS(rNd_clip(P.p, pl, n));
      free(pl);
      if (ok != 1) return;
    } else if (op == 2) { rNd_real m[1]; if (P.p->nverts < 80) rNd_reduce(P.p, m, 0); }
    else if (op == 3) { if (P.p->nverts <= 12) rNd_is_good(P.p); }
    else if (op == 4) {
      rNd_rvec d;
      rNd_dvec ib[2], cb[2];
      LD mx = 0;
      for (int v = 0; v < P.p->nverts; ++v) for (int i = 0; i < D; ++i) mx = std::max(mx, fabsl((LD)P.p->verts[v].pos.xyz[i]));
      for (int i = 0; i < D; ++i) d.xyz[i] = (rNd_real)(std::max(mx, s.L) / r.uni(0.3, 2));
      rNd_get_ibox(P.p, ib, d);
      if (r.chance(0.6)) {
        for (int i = 0; i < D; ++i) { cb[0].ijk[i] = ib[0].ijk[i] + r.range(-1, 1); cb[1].ijk[i] = ib[1].ijk[i] + r.range(-1, 1); }
        if (VOX_STATUS(rNd_clamp_ibox(P.p, ib, cb, d)) != 1) return;
      }
      long nc = 1;
      for (int i = 0; i < D; ++i) nc *= std::max(0, ib[1].ijk[i] - ib[0].ijk[i]);
      if (nc > 600) break;
      rNd_real *g = (rNd_real *)calloc(std::max(1L, nc), sizeof(rNd_real));
      if (P.p->nverts < 80) rNd_voxelize(P.p, ib, g, d, 0);
      rNd_voxelize(nullptr, ib, g, d, 0);
      rNd_voxelize(P.p, ib, nullptr, d, 0);
      free(g);
    } else { rNd_rotate(P.p, (rNd_real)r.uni(-3, 3), 0, D - 1); rNd_print(P.p); }
    M.sig(kind, op, P.p->nverts);
  }
}

// cutting again by planes met before: rounding leaves the vertices of the cut facet on either side
static void mode_reclip() {
  Rng &r = M.rng;
  PN P;
  ShapeN s = gen_shapeN(r, P.p);
  LD c[RND_DIM];
  for (int k = 0; k < D; ++k) {
    LD lo = 1e300L, hi = -1e300L;
    for (int v = 0; v < P.p->nverts; ++v) { lo = std::min(lo, (LD)P.p->verts[v].pos.xyz[k]); hi = std::max(hi, (LD)P.p->verts[v].pos.xyz[k]); }
    c[k] = lo + (hi - lo) * r.uni(0.3, 0.6);
  }
  int n = r.range(1, 3), rounds = r.range(2, 4);
  std::vector<rNd_plane> pl(n);
  for (int i = 0; i < n; ++i) {
    LD nn[RND_DIM], l = 0, d = 0;
    for (int k = 0; k < D; ++k) { nn[k] = r.uni(-0.5, 0.5); l += nn[k] * nn[k]; }
    l = sqrtl(l);
    for (int k = 0; k < D; ++k) { pl[i].n.xyz[k] = (rNd_real)(nn[k] / l); d += nn[k] / l * (c[k] + s.L * r.uni(-0.1, 0.1)); }
    pl[i].d = (rNd_real)-d;
  }
  for (int t = 0; t < rounds; ++t) {
    M.count("hostile_calls");
    M.count("repeated_planes", t ? n : 0);
    int st = VOX_STATUS(rNd_clip(P.p, pl.data(), n));
    if (st == 0) { M.count("refused"); break; }
    if (st != 1) M.fail("nd-clip-status", "unexpected status %d", st);
    if (P.p->nverts < 0 || P.p->nverts > RND_MAX_VERTS) M.fail("nd-clip", "%d vertices", P.p->nverts);
    for (int v = 0; v < P.p->nverts; ++v) for (int k = 0; k < D; ++k)
      if (P.p->verts[v].pnbrs[k] < 0 || P.p->verts[v].pnbrs[k] >= P.p->nverts) M.fail("nd-clip", "vertex %d points to vertex %d of %d", v, P.p->verts[v].pnbrs[k], P.p->nverts);
    if (P.p->nverts > 200) break;
    if (r.chance(0.3)) for (auto &q : pl) q.d = (rNd_real)(q.d * (1 + r.range(-2, 2) * (double)std::numeric_limits<rNd_real>::epsilon()));
  }
  M.sig(s.kind, n, rounds, P.p->nverts);
}

// the recorded finding: coincident vertices (a cut exactly through a vertex) spoil the volume
static void mode_degen() {
  PN P;
  ShapeN s;
  rNd_rvec b[2];
  for (int i = 0; i < D; ++i) { b[0].xyz[i] = 0; b[1].xyz[i] = 1; }
  rNd_init_box(P.p, b);
  rNd_plane pl;
  memset((void *)&pl, 0, sizeof pl);
  pl.n.xyz[0] = (rNd_real)sqrt(0.5);
  pl.n.xyz[1] = -pl.n.xyz[0];
  pl.d = 0;
  M.say("unit box cut by x0 >= x1 (exactly through four vertices)");
  int st = VOX_STATUS(rNd_clip(P.p, &pl, 1));
  if (st != 1) M.fail("nd-clip-status", "clipping failed");
  check_structN(P.p, "clipped");
  LD v = lib_volume(P.p);
  M.count("volumes_compared");
  if (!(fabsl(v - 0.5L) < 1e-6L)) M.fail("nd-coincident-vertices", "volume of the half box is %.6Lg instead of 0.5", v);
}

// ------------------------------------------------------------------ printing
static void mode_print() {
  Rng &r = M.rng;
  PN P, S;
  gen_shapeN(r, P.p);
  if (r.chance(0.03)) P.p->nverts = 0;
  memcpy((void *)S.p, (void *)P.p, sizeof(rNd_poly));
  std::string out = capture_stdout([&] { rNd_print(P.p); });
  M.count("prints");
  M.count("bytes_printed", (long)out.size());
  if (memcmp((void *)S.p, (void *)P.p, sizeof(rNd_poly))) M.fail("print-modified", "printing changed the shape");
  std::vector<PrintedLine> L = printed_lines(out);
  if ((int)L.size() != P.p->nverts) M.fail("print-lines", "%d vertices, %zu lines printed", P.p->nverts, L.size());
  for (int v = 0; v < P.p->nverts; ++v) {
    const auto &n = L[v].num;
    if ((int)n.size() != 1 + 2 * D) M.fail("print-line", "vertex %d: %zu numbers printed instead of index, %d coordinates, %d neighbours", v, n.size(), D, D);
    if (atol(n[0].c_str()) != v) M.fail("print-index", "line %d is labelled %s", v, n[0].c_str());
    for (int i = 0; i < D; ++i) {
      if (!printed_close(n[1 + i], P.p->verts[v].pos.xyz[i], 6)) M.fail("print-coordinate", "vertex %d axis %d: %s printed for %.17g", v, i, n[1 + i].c_str(), (double)P.p->verts[v].pos.xyz[i]);
      if (atol(n[1 + D + i].c_str()) != P.p->verts[v].pnbrs[i]) M.fail("print-neighbour", "vertex %d neighbour %d: %s printed for %d", v, i, n[1 + D + i].c_str(), (int)P.p->verts[v].pnbrs[i]);
    }
    M.count("vertices_printed");
  }
  M.sig(0, P.p->nverts, out.size());
}

// boxes on a quarter-cell lattice at cell indices near the ends of the integer range (one axis; the others near the origin):
// index box, clamping and every cell are known exactly
static void mode_farvox() {
  Rng &r = M.rng;
  PN P;
  int ax = r.range(0, D - 1), ord = 0, e0 = r.range(-12, 12);
  rNd_rvec d, b[2];
  long lo[D], hi[D];   // in quarter cells
  for (int i = 0; i < D; ++i) {
    d.xyz[i] = (rNd_real)ldexp(1, e0 + r.range(0, 1));
    long base = i != ax ? r.range(-8, 8) : (r.chance(0.5) ? 1 : -1) * (r.chance(0.7) ? (1L << 30) + r.range(0, 1 << 29) + r.range(0, (1 << 29) - 100) : (1L << r.range(24, 30)) - r.range(0, 12));
    int w = i == ax ? r.range(1, 24) : r.range(1, 6);
    lo[i] = 4 * base + r.range(0, 3);
    hi[i] = lo[i] + w;
    if (true) { lo[i] |= 1; hi[i] |= 1; if (hi[i] <= lo[i]) hi[i] += 2; }
    b[0].xyz[i] = (rNd_real)(d.xyz[i] * (lo[i] / (LD)4));
    b[1].xyz[i] = (rNd_real)(d.xyz[i] * (hi[i] / (LD)4));
  }
  rNd_init_box(P.p, b);
  rNd_dvec ib[2], cb[2], ibs[2];
  auto fl = [](long q) { return q >= 0 ? q / 4 : -((-q + 3) / 4); };
  auto ce = [](long q) { return q >= 0 ? (q + 3) / 4 : -((-q) / 4); };
  rNd_get_ibox(P.p, ib, d);
  M.say("axis %d index %ld..%ld d=%g", ax, fl(lo[ax]), ce(hi[ax]), (double)d.xyz[ax]);
  for (int i = 0; i < D; ++i) if (ib[0].ijk[i] != fl(lo[i]) || ib[1].ijk[i] != ce(hi[i])) M.fail("far-ibox", "axis %d: %d..%d, expected %ld..%ld", i, ib[0].ijk[i], ib[1].ijk[i], fl(lo[i]), ce(hi[i]));
  M.count("far_boxes");
  bool clamp = r.chance(0.4), cut = false;
  if (clamp) {
    for (int i = 0; i < D; ++i) {
      int n = ib[1].ijk[i] - ib[0].ijk[i], x = r.chance(0.5) ? r.range(0, n - 1) : -r.range(0, 3), y = r.range(std::max(x, 0) + 1, n + 2);
      cb[0].ijk[i] = ib[0].ijk[i] + x;
      cb[1].ijk[i] = ib[0].ijk[i] + y;
      if (x > 0 || y < n) cut = true;
      lo[i] = std::max(lo[i], 4L * cb[0].ijk[i]);
      hi[i] = std::min(hi[i], 4L * cb[1].ijk[i]);
    }
    rNd_dvec want[2];
    for (int i = 0; i < D; ++i) { want[0].ijk[i] = std::max(ib[0].ijk[i], cb[0].ijk[i]); want[1].ijk[i] = std::min(ib[1].ijk[i], cb[1].ijk[i]); }
    if (VOX_STATUS(rNd_clamp_ibox(P.p, ib, cb, d)) != 1) M.fail("far-clamp-status", "clamping a box reported failure");
    for (int i = 0; i < D; ++i) if (ib[0].ijk[i] != want[0].ijk[i] || ib[1].ijk[i] != want[1].ijk[i]) M.fail("far-clamp", "axis %d: %d..%d, expected %d..%d", i, ib[0].ijk[i], ib[1].ijk[i], want[0].ijk[i], want[1].ijk[i]);
    M.count("far_clamps");
    for (int i = 0; i < D; ++i) if (hi[i] <= lo[i]) { if (P.p->nverts) M.fail("far-clamp", "nothing of the box is inside, but %d vertices remain", P.p->nverts); return; }
  } else if (r.chance(0.3)) for (int i = 0; i < D; ++i) { ib[0].ijk[i] -= r.range(0, 2); ib[1].ijk[i] += r.range(0, 2); }
  long n[D], tot = 1;
  for (int i = 0; i < D; ++i) { n[i] = ib[1].ijk[i] - ib[0].ijk[i]; tot *= n[i]; }
  int nm = 1;
  std::vector<rNd_real> g(tot * nm), pre(tot * nm);
  LD cv = 1;
  for (int i = 0; i < D; ++i) cv *= d.xyz[i];
  bool pf = r.chance(0.5);
  for (long k = 0; k < tot * nm; ++k) g[k] = pre[k] = (rNd_real)(pf && k % nm == 0 ? cv * r.uni(-2, 2) : 0);
  memcpy((void *)ibs, (void *)ib, sizeof ib);
  int st = VOX_STATUS(rNd_voxelize(P.p, ib, g.data(), d, ord));
  M.count("far_grids");
  if (st != 1) M.fail("far-status", "reported failure although it fits");
  if (memcmp((void *)ibs, (void *)ib, sizeof ib)) M.fail("far-ibox-modified", "the index box was changed");
  for (long k = 0; k < tot; ++k) {
    LD v = cv, c[D];
    long q = k;
    for (int i = D - 1; i >= 0; --i) {
      long cell = ib[0].ijk[i] + q % n[i];
      q /= n[i];
      long x = std::max(lo[i], 4 * cell), y = std::min(hi[i], 4 * cell + 4);
      v *= std::max(0L, y - x) / (LD)4;
      c[i] = (x + y) / (LD)8 * d.xyz[i];
    }
    M.close("far-cell", (LD)g[k * nm] - pre[k * nm], v, 0.05L * cv, "content of a cell");
    for (int j = 1; j < nm; ++j) M.close("far-moment", (LD)g[k * nm + j] - pre[k * nm + j], v * c[j - 1], 2e-4L * cv * (fabsl(c[j - 1]) + 4 * d.xyz[j - 1]), "first moment of a cell");
    M.count(v > 0 ? "cells_nonempty" : "cells_empty");
  }
  M.count("cells_compared", tot);
  M.sig(ax, lo[ax] < 0, tot, clamp + cut);
}

#ifndef MODE_LIST
#define MODE_LIST X(bigvox) X(farvox) X(clip) X(clipdeg) X(volume) X(vox) X(ibox) X(xform) X(orient) X(init) X(isgood) X(capacity) X(mem) X(reclip) X(longclip) X(degen) X(print)
#endif
#define X(n) {#n, mode_##n},
static const Mode MODES[] = {MODE_LIST};
int main(int argc, char **argv) { return run_monitor(argc, argv, MODES, sizeof MODES / sizeof *MODES); }
