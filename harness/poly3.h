// Bridges between meshes / oracle bodies and the library's 3D polyhedra, and
// the structural monitor of the vertex graph.
#pragma once
#include <array>
#include <algorithm>
#include "mesh3.h"
extern "C" {
#include "r3d.h"
#include "v3d.h"
}
static const LD EPS3 = std::numeric_limits<r3d_real>::epsilon();
static const bool FLOAT3 = sizeof(r3d_real) == 4;

// round the mesh to the library's precision so that oracle and library see identical input
static void mesh_round(Mesh &m) { for (auto &v : m.v) for (int i = 0; i < 3; ++i) v[i] = (double)(r3d_real)v[i]; }

static r3d_rvec3 rv(const V3 &v) { r3d_rvec3 r; for (int i = 0; i < 3; ++i) r.xyz[i] = (r3d_real)v[i]; return r; }

// Independent construction of the vertex graph of a mesh; vertices of degree > 3
// are expanded into a random tree of coincident degree-3 vertices.
static bool build_poly(Rng &r, const Mesh &m, r3d_poly *P) {
  int need = mesh_cubic(m);
  if (need > R3D_MAX_VERTS) return false;
  int nv = (int)m.v.size();
  std::vector<std::map<int, int>> nextprev(nv);
  for (auto &f : m.f) {
    int k = (int)f.size();
    for (int i = 0; i < k; ++i) {
      int pv = f[(i + k - 1) % k], cu = f[i], nx = f[(i + 1) % k];
      if (nextprev[cu].count(nx)) return false;
      nextprev[cu][nx] = pv;
    }
  }
  struct Node { int v; int st[3]; };
  std::vector<Node> nodes;
  std::map<std::pair<int, int>, std::pair<int, int>> ext;  // (v->w) -> (node, slot)
  for (int v = 0; v < nv; ++v) {
    std::vector<int> ring;
    if (nextprev[v].size() < 3) return false;
    int s = nextprev[v].begin()->first, c = s;
    do {
      ring.push_back(c);
      if (!nextprev[v].count(c)) return false;
      c = nextprev[v][c];
    } while (c != s && ring.size() <= nextprev[v].size());
    if (ring.size() != nextprev[v].size()) return false;
    // stubs: >=0 mesh neighbour, <0 internal -(node*3+slot)-1
    struct Split {
      static void go(Rng &r, std::vector<int> ring, int v, std::vector<Node> &nodes,
                     std::map<std::pair<int, int>, std::pair<int, int>> &ext) {
        int k = (int)ring.size();
        std::rotate(ring.begin(), ring.begin() + r.range(0, k - 1), ring.end());
        if (k == 3) {
          int id = (int)nodes.size();
          Node nd; nd.v = v;
          nodes.push_back(nd);
          for (int i = 0; i < 3; ++i) {
            if (ring[i] >= 0) { ext[{v, ring[i]}] = {id, i}; nodes[id].st[i] = -1; }
            else {
              int t = -ring[i] - 1, on = t / 3, os = t % 3;
              nodes[id].st[i] = on;
              nodes[on].st[os] = id;
            }
          }
          return;
        }
        // peel a pair into its own vertex
        int id = (int)nodes.size();
        Node nd; nd.v = v;
        nodes.push_back(nd);
        for (int i = 0; i < 2; ++i) {
          if (ring[i] >= 0) { ext[{v, ring[i]}] = {id, i}; nodes[id].st[i] = -1; }
          else { int t = -ring[i] - 1, on = t / 3, os = t % 3; nodes[id].st[i] = on; nodes[on].st[os] = id; }
        }
        nodes[id].st[2] = -2;
        std::vector<int> rest;
        rest.push_back(-(id * 3 + 2) - 1);
        for (int i = 2; i < k; ++i) rest.push_back(ring[i]);
        go(r, rest, v, nodes, ext);
      }
    };
    Split::go(r, ring, v, nodes, ext);
  }
  int n = (int)nodes.size();
  if (n != need) return false;
  for (auto &kv : ext) {
    auto it = ext.find({kv.first.second, kv.first.first});
    if (it == ext.end()) return false;
    nodes[kv.second.first].st[kv.second.second] = it->second.first;
  }
  std::vector<int> perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  if (r.chance(0.5)) r.shuffle(perm);
  P->nverts = n;
  for (int i = 0; i < n; ++i) {
    r3d_vertex &q = P->verts[perm[i]];
    int rot = r.range(0, 2);
    for (int k = 0; k < 3; ++k) q.pnbrs[(k + rot) % 3] = perm[nodes[i].st[k]];
    q.pos = rv(m.v[nodes[i].v]);
  }
  return true;
}

struct GraphInfo { int comps = 0, faces = 0, genus = 0; int maxface = 0; };

// 3-connectivity of the component structure by brute force (small graphs)
static bool three_connected(const r3d_poly *P, const std::vector<int> &reg) {
  int n = P->nverts;
  std::vector<char> mark(n);
  std::vector<int> st;
  std::vector<int> cnt;
  int nr = 0;
  for (int v = 0; v < n; ++v) nr = std::max(nr, reg[v] + 1);
  cnt.assign(nr, 0);
  for (int v = 0; v < n; ++v) cnt[reg[v]]++;
  for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) {
    if (reg[a] != reg[b]) continue;
    std::fill(mark.begin(), mark.end(), 0);
    mark[a] = mark[b] = 1;
    int s = -1;
    for (int v = 0; v < n && s < 0; ++v) if (!mark[v] && reg[v] == reg[a]) s = v;
    if (s < 0) return false;
    int seen = 0;
    st.assign(1, s);
    mark[s] = 1;
    while (!st.empty()) {
      int c = st.back(); st.pop_back();
      ++seen;
      for (int k = 0; k < 3; ++k) { int w = P->verts[c].pnbrs[k]; if (!mark[w]) { mark[w] = 1; st.push_back(w); } }
    }
    if (seen != cnt[reg[a]] - 2) return false;
  }
  return true;
}

// Structural monitor. level: 1 = links/faces/Euler, 2 = + genus 0, 3 = + 3-connected
static GraphInfo check_graph(const r3d_poly *P, int level, const char *what, int maxn3 = 48) {
  GraphInfo g;
  int n = P->nverts;
  M.count("graphs_checked");
  if (n < 0 || n > R3D_MAX_VERTS) M.fail("graph-count", "%s: vertex count %d out of range", what, n);
  if (n == 0) { M.count("graphs_empty"); return g; }
  if (n < 4) M.fail("graph-small", "%s: %d vertices cannot bound a solid", what, n);
  for (int v = 0; v < n; ++v) {
    for (int k = 0; k < 3; ++k) {
      int w = P->verts[v].pnbrs[k];
      if (w < 0 || w >= n) M.fail("graph-range", "%s: vertex %d has neighbour %d of %d", what, v, w, n);
      if (w == v) M.fail("graph-self", "%s: vertex %d points to itself", what, v);
      if (w == P->verts[v].pnbrs[(k + 1) % 3]) M.fail("graph-double", "%s: vertex %d double edge to %d", what, v, w);
      if (!std::isfinite((double)P->verts[v].pos.xyz[k])) M.fail("graph-nan", "%s: vertex %d position not finite", what, v);
    }
  }
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) {
    int w = P->verts[v].pnbrs[k];
    bool back = false;
    for (int j = 0; j < 3; ++j) back |= P->verts[w].pnbrs[j] == v;
    if (!back) M.fail("graph-oneway", "%s: edge %d->%d is not reciprocated", what, v, w);
  }
  std::vector<int> reg(n, -1), st;
  for (int v = 0; v < n; ++v) {
    if (reg[v] >= 0) continue;
    st.assign(1, v);
    reg[v] = g.comps;
    while (!st.empty()) {
      int c = st.back(); st.pop_back();
      for (int k = 0; k < 3; ++k) { int w = P->verts[c].pnbrs[k]; if (reg[w] < 0) { reg[w] = g.comps; st.push_back(w); } }
    }
    g.comps++;
  }
  std::vector<int> nv(g.comps, 0), nf(g.comps, 0);
  for (int v = 0; v < n; ++v) nv[reg[v]]++;
  std::vector<char> mk(3 * n, 0);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) {
    if (mk[3 * v + k]) continue;
    int c = v, e = k, len = 0;
    do {
      if (mk[3 * c + e]) M.fail("graph-face", "%s: face walk does not close", what);
      mk[3 * c + e] = 1;
      ++len;
      int w = P->verts[c].pnbrs[e], j = 0;
      while (j < 3 && P->verts[w].pnbrs[j] != c) ++j;
      c = w;
      e = (j + 1) % 3;
    } while (!(c == v && e == k));
    if (len < 3) M.fail("graph-face", "%s: face with %d edges", what, len);
    g.maxface = std::max(g.maxface, len);
    nf[reg[v]]++;
    g.faces++;
  }
  M.count("faces_walked", g.faces);
  for (int c = 0; c < g.comps; ++c) {
    int chi = nv[c] - nv[c] * 3 / 2 + nf[c];
    if (nv[c] % 2) M.fail("graph-euler", "%s: odd component", what);
    int genus = (2 - chi) / 2;
    if (chi > 2 || (chi & 1)) M.fail("graph-euler", "%s: Euler characteristic %d", what, chi);
    g.genus = std::max(g.genus, genus);
    if (level >= 2 && genus != 0) M.fail("graph-genus", "%s: component %d has genus %d (not a closed sphere-like surface)", what, c, genus);
  }
  if (level >= 3 && n <= maxn3) {
    M.count("graphs_3connectivity_checked");
    if (!three_connected(P, reg)) M.fail("graph-3conn", "%s: graph is not 3-connected", what);
  }
  return g;
}

// body of a (already structurally checked) library polyhedron
static Body<3> poly_body(const r3d_poly *P) {
  Body<3> b;
  int n = P->nverts;
  if (n <= 0) return b;
  LD c0[3] = {0, 0, 0};
  for (int v = 0; v < n; ++v) for (int i = 0; i < 3; ++i) c0[i] += P->verts[v].pos.xyz[i];
  for (int i = 0; i < 3; ++i) c0[i] /= n;
  std::vector<char> mk(3 * n, 0);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) {
    if (mk[3 * v + k]) continue;
    std::vector<int> f;
    int c = v, e = k;
    do {
      mk[3 * c + e] = 1;
      f.push_back(c);
      int w = P->verts[c].pnbrs[e], j = 0;
      while (j < 3 && P->verts[w].pnbrs[j] != c) ++j;
      c = w;
      e = (j + 1) % 3;
    } while (!(c == v && e == k) && f.size() <= (size_t)3 * n);
    // faces walked this way come out clockwise seen from outside
    for (size_t t = 1; t + 1 < f.size(); ++t) {
      Simp<3> s;
      for (int i = 0; i < 3; ++i) {
        s.x[0][i] = c0[i];
        s.x[1][i] = P->verts[f[0]].pos.xyz[i];
        s.x[2][i] = P->verts[f[t + 1]].pos.xyz[i];
        s.x[3][i] = P->verts[f[t]].pos.xyz[i];
      }
      b.s.push_back(s);
    }
  }
  return b;
}

static r3d_plane rp(const Plane<3> &p) {
  r3d_plane q;
  for (int i = 0; i < 3; ++i) q.n.xyz[i] = (r3d_real)p.n[i];
  q.d = (r3d_real)p.d;
  return q;
}
// round a plane to library precision (so both sides see the same plane)
static void plane_round(Plane<3> &p) { for (int i = 0; i < 3; ++i) p.n[i] = (r3d_real)p.n[i]; p.d = (r3d_real)p.d; }

static Plane<3> plane_thru(const LD *n, const LD *pt) {
  Plane<3> p;
  LD l = sqrtl(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
  for (int i = 0; i < 3; ++i) p.n[i] = (r3d_real)(n[i] / l);
  r3d_real d = 0;
  for (int i = 0; i < 3; ++i) d += (r3d_real)p.n[i] * (r3d_real)pt[i];
  p.d = -d;
  return p;
}

// On which side every vertex lies, where that is beyond doubt: for axis-parallel planes the sign of
// x*(+-1)+d is exact in floating point, otherwise distances well above rounding are. Returns false if any
// vertex is in doubt.
struct Sides { int pos = 0, neg = 0, zero = 0; bool sure = true; bool front() const { return sure && !neg; } bool behind() const { return sure && !pos && neg; } };
static Sides sides3(const r3d_poly *P, const r3d_plane &q) {
  Sides o;
  int nz = 0;
  bool unit = true;
  for (int i = 0; i < 3; ++i) { if (q.n.xyz[i] != 0) ++nz; if (q.n.xyz[i] != 0 && q.n.xyz[i] != 1 && q.n.xyz[i] != -1) unit = false; }
  bool exact = nz == 1 && unit;
  LD R = fabsl((LD)q.d);
  for (int v = 0; v < P->nverts; ++v) for (int i = 0; i < 3; ++i) R = std::max(R, fabsl((LD)P->verts[v].pos.xyz[i]));
  for (int v = 0; v < P->nverts; ++v) {
    LD s = q.d;
    for (int i = 0; i < 3; ++i) s += (LD)q.n.xyz[i] * P->verts[v].pos.xyz[i];
    if (!exact && fabsl(s) <= 32 * EPS3 * R) o.sure = false;
    if (s > 0) ++o.pos; else if (s < 0) ++o.neg; else ++o.zero;
  }
  return o;
}
// positions and edges as a multiset that does not depend on the numbering
static std::vector<std::array<LD, 6>> edges3(const r3d_poly *P) {
  std::vector<std::array<LD, 6>> e;
  for (int v = 0; v < P->nverts; ++v) for (int k = 0; k < 3; ++k) {
    int w = P->verts[v].pnbrs[k];
    if (w < 0 || w >= P->nverts) continue;
    std::array<LD, 6> a;
    for (int i = 0; i < 3; ++i) { a[i] = P->verts[v].pos.xyz[i]; a[3 + i] = P->verts[w].pos.xyz[i]; }
    e.push_back(a);
  }
  std::sort(e.begin(), e.end());
  return e;
}
static bool same_shape3(const r3d_poly *A, const r3d_poly *B) { return A->nverts == B->nverts && edges3(A) == edges3(B); }

// cls receives a small class number for coverage
static Plane<3> gen_plane(Rng &r, const Mesh &m, const Ext<3> &e, int &cls) {
  LD n[3], pt[3];
  V3 s = on_sphere(r);
  for (int i = 0; i < 3; ++i) n[i] = s[i];
  auto vert = [&](int k, LD *o) { for (int i = 0; i < 3; ++i) o[i] = m.v[k][i]; };
  int nv = (int)m.v.size();
  // random point in the bounding box, biased to the middle
  LD t = r.chance(0.7) ? 0.35L : 0.5L;
  for (int i = 0; i < 3; ++i) pt[i] = (e.lo[i] + e.hi[i]) / 2 + (e.hi[i] - e.lo[i]) * t * r.uni(-1, 1);
  cls = r.range(0, 14);
  switch (cls) {
    case 0: case 1: case 2: break;                               // generic
    case 3: case 4: {                                            // axis parallel
      int a = r.range(0, 2);
      for (int i = 0; i < 3; ++i) n[i] = 0;
      n[a] = r.chance(0.5) ? 1 : -1;
      break;
    }
    case 5: {                                                    // axis parallel through a vertex
      int a = r.range(0, 2);
      for (int i = 0; i < 3; ++i) n[i] = 0;
      n[a] = r.chance(0.5) ? 1 : -1;
      vert(r.range(0, nv - 1), pt);
      break;
    }
    case 6: vert(r.range(0, nv - 1), pt); break;                 // through a vertex
    case 7: {                                                    // through an edge
      auto &f = m.f[r.range(0, (int)m.f.size() - 1)];
      LD a[3], b[3];
      vert(f[0], a); vert(f[1], b);
      LD ed[3], l = 0, d = 0;
      for (int i = 0; i < 3; ++i) { ed[i] = b[i] - a[i]; l += ed[i] * ed[i]; }
      for (int i = 0; i < 3; ++i) d += n[i] * ed[i];
      if (l > 0) for (int i = 0; i < 3; ++i) n[i] -= d * ed[i] / l;
      for (int i = 0; i < 3; ++i) pt[i] = a[i];
      break;
    }
    case 8: case 9: case 10: {                                   // containing a face, exactly or nearly
      auto &f = m.f[r.range(0, (int)m.f.size() - 1)];
      LD a[3], b[3], c[3];
      vert(f[0], a); vert(f[1], b); vert(f[2], c);
      LD u[3], w[3], k[3], l = 0;
      for (int i = 0; i < 3; ++i) { u[i] = b[i] - a[i]; w[i] = c[i] - a[i]; }
      for (int i = 0; i < 3; ++i) { k[i] = u[(i + 1) % 3] * w[(i + 2) % 3] - u[(i + 2) % 3] * w[(i + 1) % 3]; l += k[i] * k[i]; }
      if (l > 0) for (int i = 0; i < 3; ++i) n[i] = (r.chance(0.5) && i == 0 ? 1 : 1) * k[i] / sqrtl(l);
      LD sg = r.chance(0.5) ? 1 : -1;
      for (int i = 0; i < 3; ++i) { n[i] *= sg; pt[i] = a[i]; }
      if (cls == 9) { LD q = powl(10, r.uni(-15, -3)) * e.L; for (int i = 0; i < 3; ++i) pt[i] += q * n[i] * r.uni(-1, 1); }
      if (cls == 10) { LD q = powl(10, r.uni(-14, -4)); for (int i = 0; i < 3; ++i) n[i] += q * r.uni(-1, 1); }
      break;
    }
    case 11: case 12: {                                          // misses the body on either side
      LD far = e.L * r.uni(1.0, 30);
      for (int i = 0; i < 3; ++i) pt[i] = (e.lo[i] + e.hi[i]) / 2 + (cls == 11 ? -1 : 1) * far * n[i];
      break;
    }
    case 14: {                                                   // axis parallel, touching the extreme vertices exactly
      int a = r.range(0, 2);
      for (int i = 0; i < 3; ++i) n[i] = 0;
      n[a] = r.chance(0.5) ? 1 : -1;
      for (int i = 0; i < 3; ++i) pt[i] = r.chance(0.5) ? e.lo[i] : e.hi[i];
      break;
    }
    case 13: {                                                   // through three vertices
      LD a[3], b[3], c[3];
      vert(r.range(0, nv - 1), a); vert(r.range(0, nv - 1), b); vert(r.range(0, nv - 1), c);
      LD u[3], w[3], k[3], l = 0;
      for (int i = 0; i < 3; ++i) { u[i] = b[i] - a[i]; w[i] = c[i] - a[i]; }
      for (int i = 0; i < 3; ++i) { k[i] = u[(i + 1) % 3] * w[(i + 2) % 3] - u[(i + 2) % 3] * w[(i + 1) % 3]; l += k[i] * k[i]; }
      if (l > e.L * e.L * e.L * e.L * 1e-12L) for (int i = 0; i < 3; ++i) n[i] = k[i] / sqrtl(l);
      for (int i = 0; i < 3; ++i) pt[i] = a[i];
      break;
    }
  }
  Plane<3> p = plane_thru(n, pt);
  // lattice planes: nudge d onto the lattice so that vertices lie exactly on it
  plane_round(p);
  return p;
}

// tolerance for the moment with exponents ex of a body with extent e after ncut cuts
static const LD KTOL = 400;
static LD tol3(const Ext<3> &e, const std::vector<int> &ex, int ncut, bool reduced = true) {
  int p = ex[0] + ex[1] + ex[2];
  LD R = e.Rmax + e.L;
  LD base = R * e.L * e.L;
#ifndef SHIFT_POLY
  if (reduced) base += R * R * R;
#else
  (void)reduced;
#endif
  LD mono = 1;
  for (int i = 0; i < 3; ++i) for (int k = 0; k < ex[i]; ++k) mono *= e.R[i] + e.L * 1e-3L;
  LD tiny = (LD)std::numeric_limits<r3d_real>::min();
  return KTOL * EPS3 * base * mono * (ncut + 2) * (p + 1) * (p + 1) + 1000 * tiny;
}
// exactly sized buffer for moments: one element too many is visible to ASan, the
// guard pattern makes it visible without
struct Moments {
  std::vector<r3d_real> buf;
  int n;
  explicit Moments(int p) : buf(R3D_NUM_MOMENTS(p) + 2, (r3d_real)-7.25e11), n(R3D_NUM_MOMENTS(p)) {}
};
static std::vector<LD> lib_moments(const r3d_poly *P, int p) {
  int n = R3D_NUM_MOMENTS(p);
  r3d_real *b = (r3d_real *)malloc(n * sizeof(r3d_real));
  for (int i = 0; i < n; ++i) b[i] = (r3d_real)-7.25e11;   // stale content must not survive
  r3d_reduce(const_cast<r3d_poly *>(P), b, p);
  std::vector<LD> r(b, b + n);
  free(b);
  return r;
}
static void cmp_moments(const char *key, const std::vector<LD> &got, const std::vector<LD> &want, int p,
                        const Ext<3> &e, int ncut, const char *what) {
  const auto &ex = exps<3>(p);
  for (size_t j = 0; j < ex.size(); ++j) M.close(key, got[j], want[j], tol3(e, ex[j], ncut), what, (int)j);
}
