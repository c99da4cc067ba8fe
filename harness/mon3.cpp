// Monitors for the 3D library (clip, split, reduce, voxelize, construction, ...).
#include "poly3.h"
#include <malloc.h>
#include "status.h"

// ------------------------------------------------------------------ malloc accounting
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__real_calloc(size_t, size_t);
}
static bool g_track = false;
static std::set<void *> *g_live = nullptr;
static long g_allocs = 0, g_badfree = 0;
extern "C" void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (g_track && p) { g_track = false; g_live->insert(p); ++g_allocs; g_track = true; }
  return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
  void *p = __real_calloc(a, b);
  if (g_track && p) { g_track = false; g_live->insert(p); ++g_allocs; g_track = true; }
  return p;
}
extern "C" void *__wrap_realloc(void *q, size_t n) {
  void *p = __real_realloc(q, n);
  if (g_track) { g_track = false; g_live->erase(q); if (p) g_live->insert(p); ++g_allocs; g_track = true; }
  return p;
}
extern "C" void __wrap_free(void *p) {
  if (g_track && p) { g_track = false; if (!g_live->erase(p)) ++g_badfree; g_track = true; }
  __real_free(p);
}

// ------------------------------------------------------------------ helpers
struct PolyBox {  // heap allocated, exactly one polyhedron: overruns hit a red zone
  r3d_poly *p;
  PolyBox() { p = (r3d_poly *)malloc(sizeof(r3d_poly)); memset(p, 0x5a, sizeof *p); p->nverts = 0; }
  ~PolyBox() { free(p); }
  PolyBox(const PolyBox &) = delete;
};
static int default_budget() {
  if (R3D_MAX_VERTS > 200 && M.rng.chance(0.015)) return R3D_MAX_VERTS - 8;
  int b = R3D_MAX_VERTS / 3;
  return std::max(8, std::min(b, 150));
}
static const char *how_built = "";
// put the mesh into a polyhedron; uses the library's own constructors now and then
static bool make_poly(Rng &r, const Mesh &m, r3d_poly *P, double via_init = 0.25) {
  how_built = "direct";
  if (m.name == "box" || m.name == "tet") {
    if (m.name == "tet" && r.chance(0.5)) {
      r3d_rvec3 v[4];
      for (int i = 0; i < 4; ++i) v[i] = rv(m.v[i]);
      r3d_init_tet(P, v);
      how_built = "init_tet";
      return true;
    }
  }
  if (r.chance(via_init) && mesh_corners(m) <= R3D_MAX_VERTS) {
    std::vector<r3d_rvec3> v;
    for (auto &x : m.v) v.push_back(rv(x));
    std::vector<std::vector<int>> f = m.f;
    std::vector<r3d_int *> fi;
    std::vector<r3d_int> nf;
    for (auto &x : f) { fi.push_back(x.data()); nf.push_back((r3d_int)x.size()); }
    if (r3d_init_poly(P, v.data(), (r3d_int)v.size(), fi.data(), nf.data(), (r3d_int)nf.size()) != 1) return false;
    how_built = "init_poly";
    return true;
  }
  return build_poly(r, m, P);
}
static int glevel(const Mesh &m) { return m.sphere ? 3 : 1; }
static void snap(Mesh &m) { mesh_round(m); }

static Mesh new_mesh(Rng &r, int budget, Placement &pl, bool extreme = true) {
  Mesh m = gen_mesh(r, budget, pl, extreme);
  snap(m);
  M.say("%s%s nv=%d nf=%d scale=%.3g off=%.3g", m.name.c_str(), pl.snapped ? "(lattice)" : "", (int)m.v.size(), (int)m.f.size(), pl.scale, pl.off);
  return m;
}
static void say_plane(const Plane<3> &p) { M.say("plane n=(%.17Lg,%.17Lg,%.17Lg) d=%.17Lg", p.n[0], p.n[1], p.n[2], p.d); }

// bounds on the number of new vertices a cut creates: [lo,hi] crossing edges
static void crossings(const r3d_poly *P, const r3d_plane &pl, int &lo, int &hi, bool &may_skip) {
  int n = P->nverts;
  std::vector<int> sg(n);
  LD R = fabsl(pl.d);
  for (int v = 0; v < n; ++v) for (int i = 0; i < 3; ++i) R = std::max(R, fabsl((LD)P->verts[v].pos.xyz[i]));
  for (int v = 0; v < n; ++v) {
    LD s = pl.d;
    for (int i = 0; i < 3; ++i) s += (LD)pl.n.xyz[i] * P->verts[v].pos.xyz[i];
    LD t = 16 * EPS3 * R;
    sg[v] = s > t ? 1 : s < -t ? -1 : 0;
  }
  lo = hi = 0;
  bool pos = false, neg = false, zero = false;
  for (int v = 0; v < n; ++v) {
    if (sg[v] > 0) pos = true; else if (sg[v] < 0) neg = true; else zero = true;
    for (int k = 0; k < 3; ++k) {
      int w = P->verts[v].pnbrs[k];
      if (w < v) continue;
      if (sg[v] * sg[w] < 0) { ++lo; ++hi; }
      else if (sg[v] == 0 || sg[w] == 0) ++hi;
    }
  }
  may_skip = (!neg && zero) || (!pos && zero);
  if (!pos || !neg) lo = 0;
  if (!zero && (!pos || !neg)) hi = 0;
}

// ------------------------------------------------------------------ clip
static int pick_nplanes(Rng &r) {
  if (r.chance(0.012)) return r.range(61, 700);   // a long list, most of whose planes miss
  int k = r.range(0, 19);
  if (k == 0) return 0;
  if (k < 7) return 1;
  if (k < 11) return 2;
  if (k < 17) return r.range(3, 7);
  if (k < 19) return r.range(8, 14);
  return r.range(20, 60);
}
static void vertices_inside(const r3d_poly *P, const Ext<3> &e, const std::vector<Plane<3>> &pls, const char *what) {
  LD R = e.Rmax + e.L;
  LD tol = 200 * EPS3 * R * (pls.size() + 2);
  for (int v = 0; v < P->nverts; ++v) {
    for (int i = 0; i < 3; ++i) {
      LD x = P->verts[v].pos.xyz[i];
      if (!(x >= e.lo[i] - tol && x <= e.hi[i] + tol))
        M.fail("vertex-outside", "%s: vertex %d coordinate %d = %.17Lg leaves the input's extent [%.17Lg,%.17Lg]", what, v, i, x, e.lo[i], e.hi[i]);
    }
    for (size_t k = 0; k < pls.size(); ++k) {
      LD s = pls[k].d;
      for (int i = 0; i < 3; ++i) s += pls[k].n[i] * P->verts[v].pos.xyz[i];
      if (!(s >= -tol)) M.fail("vertex-clipped-side", "%s: vertex %d lies %.3Lg behind plane %zu", what, v, s, k);
    }
  }
  M.count("vertices_checked", P->nverts);
}

// every vertex of a clipped polyhedron is an old vertex or lies on the plane and on an old edge
static void provenance3(const r3d_poly *A, const r3d_poly *B, const r3d_plane &q, int k) {
  LD R = fabsl((LD)q.d);
  for (int v = 0; v < A->nverts; ++v) for (int i = 0; i < 3; ++i) R = std::max(R, fabsl((LD)A->verts[v].pos.xyz[i]));
  LD tol = 100 * EPS3 * R;
  std::vector<std::array<LD, 3>> old;
  for (int v = 0; v < A->nverts; ++v) old.push_back({A->verts[v].pos.x, A->verts[v].pos.y, A->verts[v].pos.z});
  auto sorted = old;
  std::sort(sorted.begin(), sorted.end());
  for (int v = 0; v < B->nverts; ++v) {
    std::array<LD, 3> x = {B->verts[v].pos.x, B->verts[v].pos.y, B->verts[v].pos.z};
    if (std::binary_search(sorted.begin(), sorted.end(), x)) { M.count("old_vertices"); continue; }
    LD s = q.d;
    for (int i = 0; i < 3; ++i) s += (LD)q.n.xyz[i] * x[i];
    if (!(fabsl(s) <= tol)) M.fail("clip-vertex-origin", "after plane %d vertex %d is neither an old vertex nor on the plane (distance %.3Lg)", k, v, s);
    LD best = INFINITY;
    for (int a = 0; a < A->nverts; ++a) for (int j = 0; j < 3; ++j) {
      int b = A->verts[a].pnbrs[j];
      if (b < a) continue;
      LD l = 0, d = 0, e = 0;
      for (int i = 0; i < 3; ++i) { LD u = old[b][i] - old[a][i]; l += u * u; d += u * (x[i] - old[a][i]); }
      LD t = l > 0 ? std::min((LD)1, std::max((LD)0, d / l)) : 0;
      for (int i = 0; i < 3; ++i) e = std::max(e, fabsl(x[i] - old[a][i] - t * (old[b][i] - old[a][i])));
      best = std::min(best, e);
    }
    if (!(best <= tol)) M.fail("clip-vertex-origin", "after plane %d new vertex %d is %.3Lg away from every old edge", k, v, best);
    M.count("new_vertices");
  }
}

static void mode_clip() {
  Rng &r = M.rng;
  Placement pl;
  int np = pick_nplanes(r);
  Mesh m = new_mesh(r, np > 8 ? std::min(60, default_budget()) : default_budget(), pl);
  Ext<3> e = mesh_ext(m);
  Body<3> body = mesh_body(m);
  PolyBox P, W, B4;
  if (!make_poly(r, m, P.p)) M.skip("build");
  check_graph(P.p, glevel(m), "input");
  int p = std::max(0, r.range(-2, 3));
  if (pl.scale > 1e15 || pl.scale < 1e-15) p = std::min(p, 2);
  std::vector<Plane<3>> pls;
  uint64_t clsmix = 0;
  for (int k = 0; k < np; ++k) {
    int cls;
    Plane<3> q;
    if (np > 8) {  // carve around the middle so that something is left
      LD n[3], pt[3];
      V3 s = on_sphere(r);
      double dist = np > 60 && !r.chance(8.0 / np) && k != np - 1 ? r.uni(1, 3) : r.uni(0.15, 0.6);
      for (int i = 0; i < 3; ++i) { n[i] = -s[i]; pt[i] = (e.lo[i] + e.hi[i]) / 2 + s[i] * e.L * dist; }
      q = plane_thru(n, pt);
      cls = 0;
    } else q = gen_plane(r, m, e, cls);
    if (k && r.chance(0.08)) { q = pls[r.range(0, k - 1)]; cls = 20; if (r.chance(0.5)) { for (int i = 0; i < 3; ++i) q.n[i] = -q.n[i]; q.d = -q.d; cls = 21; } }
    pls.push_back(q);
    clsmix = clsmix * 23 + cls + 1;
    if (k < 8) say_plane(q);
  }
  // must it fit? follow the library one plane at a time on a scratch copy
  *W.p = *P.p;
  bool mustfit = true, mustfail = false;
  std::vector<r3d_plane> rps;
  for (auto &q : pls) rps.push_back(rp(q));
  int cutplanes = 0;
  for (int k = 0; k < np && W.p->nverts > 0; ++k) {
    int lo, hi; bool ms;
    crossings(W.p, rps[k], lo, hi, ms);
    if (W.p->nverts + hi > R3D_MAX_VERTS) mustfit = false;
    if (W.p->nverts + lo > R3D_MAX_VERTS) mustfail = true;
    if (lo) ++cutplanes;
    memcpy(B4.p, W.p, sizeof(r3d_poly));
    Sides sd = sides3(W.p, rps[k]);
    int st = r3d_clip(W.p, &rps[k], 1);
    M.count("clip_calls");
    if (st != 1) { if (mustfit) M.fail("clip-status", "single-plane clip reported failure although the result fits"); break; }
    if (sd.front()) {
      M.count(sd.zero ? "plane_touches_from_inside" : "plane_misses");
      if (!same_shape3(B4.p, W.p)) M.fail("clip-not-unchanged", "plane %d has every vertex at signed distance >= 0 but the polyhedron changed (%d -> %d vertices)", k, B4.p->nverts, W.p->nverts);
    }
    if (sd.behind()) {
      M.count(sd.zero ? "plane_touches_from_outside" : "plane_removes");
      if (W.p->nverts) M.fail("clip-not-empty", "plane %d has no vertex at positive signed distance but %d vertices remain", k, W.p->nverts);
    }
    if (B4.p->nverts <= 150) provenance3(B4.p, W.p, rps[k], k);
    check_graph(W.p, glevel(m), "after single plane", 30);
  }
  std::vector<r3d_plane> cp = rps;
  int st = 1;
  if (np > 1 && r.chance(0.3)) {
    int cut = r.range(1, np - 1);
    st = r3d_clip(P.p, cp.data(), cut);
    if (st == 1 && P.p->nverts > 0) st = r3d_clip(P.p, cp.data() + cut, np - cut);
  } else st = r3d_clip(P.p, cp.empty() ? nullptr : cp.data(), np);
  M.count("clip_calls");
  M.count("planes_applied", np);
  for (int k = 0; k < np; ++k)
    if (memcmp(&cp[k].n, &rps[k].n, sizeof cp[k].n) || cp[k].d != rps[k].d) M.fail("planes-modified", "the plane array was written to");
  if (st != 1) {
    if (mustfit) M.fail("clip-status", "clip reported failure although the result fits");
    M.count("capacity_reported");
    return;
  }
  if (mustfail) M.fail("clip-status", "clip reported success although the vertex buffer cannot hold the result");
  GraphInfo g = check_graph(P.p, glevel(m), "clip result");
  if (np > 0) vertices_inside(P.p, e, pls, "clip result");
  // oracle
  bool surelyempty = false;
  for (auto &q : pls) {
    body.clip(q);
    if (body.s.size() > 60000) M.skip("oracle-size");
  }
  LD mar = 1000 * EPS3 * (e.Rmax + e.L);
  for (auto &q : pls) {
    LD mx = -1e4000L;
    for (auto &v : m.v) { LD s = q.d; for (int i = 0; i < 3; ++i) s += q.n[i] * v[i]; mx = std::max(mx, s); }
    if (mx < -mar) surelyempty = true;
  }
  if (surelyempty && P.p->nverts != 0) M.fail("clip-not-empty", "every vertex is behind one of the planes but %d vertices remain", P.p->nverts);
  std::vector<LD> want = body_moments<3>(body, p), got = lib_moments(P.p, p);
  cmp_moments("clip-moments", got, want, p, e, np, "clipped moment");
  // the vertex graph itself must describe that solid, whatever the integrator says
  LD gv = poly_body(P.p).volume();
  M.close("clip-geometry", gv, want[0], tol3(e, exps<3>(0)[0], np), "geometric volume");
  if (P.p->nverts == 0) M.count("outcome_empty");
  else if (cutplanes) M.count("outcome_cut");
  else M.count("outcome_whole");
  if (g.comps > 1) M.count("outcome_multi_component");
  M.sig(hashstr(m.name.c_str()), clsmix, P.p->nverts, g.comps * 100 + g.maxface);
}

// ------------------------------------------------------------------ split
static void mode_split() {
  Rng &r = M.rng;
  int np = r.chance(0.1) ? 0 : r.chance(0.5) ? 1 : r.range(2, 7);
  if (r.chance(0.006)) np = r.range(8, r.chance(0.2) ? 300 : 40);   // a long array
  if (np > 7) M.count("long_arrays");
  std::vector<Mesh> ms;
  Placement pl;
  std::vector<int> kind;   // 0 solid, 1 empty
  r3d_poly *in = (r3d_poly *)malloc(std::max(1, np) * sizeof(r3d_poly));
  r3d_poly *po = (r3d_poly *)malloc(std::max(1, np) * sizeof(r3d_poly));
  r3d_poly *ne = (r3d_poly *)malloc(std::max(1, np) * sizeof(r3d_poly));
  struct Fr { void *a, *b, *c; ~Fr() { free(a); free(b); free(c); } } fr{in, po, ne};
  Mesh first;
  int planefrom = np ? r.range(0, np - 1) : 0;
  Plane<3> q;
  q.n[0] = 1; q.n[1] = q.n[2] = 0; q.d = 0;
  int cls = 0;
  bool have = false;
  for (int k = 0; k < np; ++k) {
    Mesh m;
    bool empty = np > 1 && r.chance(0.15) && k != planefrom;
    if (empty) { m.name = "empty"; }
    else if (have && r.chance(0.5)) {  // relative of the first one, moved a little
      m = first;
      Ext<3> e = mesh_ext(m);
      V3 s = on_sphere(r);
      double a = r.uni(0, 2);
      for (auto &v : m.v) for (int i = 0; i < 3; ++i) v[i] += a * (double)e.L * s[i];
      snap(m);
    } else m = new_mesh(r, np > 7 ? std::min(24, default_budget() * 2 / 3) : default_budget() * 2 / 3, pl);
    memset(&in[k], 0x33, sizeof in[k]);
    in[k].nverts = 0;
    if (!empty) {
      if (!make_poly(r, m, &in[k])) M.skip("build");
      check_graph(&in[k], glevel(m), "input");
    }
    if (!have && !empty) { first = m; have = true; }
    ms.push_back(m);
    kind.push_back(empty);
  }
  if (np && !kind[planefrom]) q = gen_plane(r, ms[planefrom], mesh_ext(ms[planefrom]), cls);
  say_plane(q);
  memset((void *)po, r.chance(0.5) ? 0x77 : 0xff, std::max(1, np) * sizeof(r3d_poly));
  memset((void *)ne, r.chance(0.5) ? 0x11 : 0xff, std::max(1, np) * sizeof(r3d_poly));
  r3d_plane rq = rp(q);
  bool mustfit = true, mustfail = false;
  int firstfail = np;
  std::vector<int> nin;
  std::vector<Sides> sds;
  std::vector<r3d_poly> keep(np);   // split may use its input as scratch
  for (int k = 0; k < np; ++k) {
    nin.push_back(in[k].nverts);
    sds.push_back(kind[k] ? Sides() : sides3(&in[k], rq));
    memcpy(&keep[k], &in[k], sizeof(r3d_poly));
    if (kind[k]) continue;
    int lo, hi; bool sk;
    crossings(&in[k], rq, lo, hi, sk);
    if (in[k].nverts + 2 * hi > R3D_MAX_VERTS) mustfit = false;
    if (in[k].nverts + 2 * lo > R3D_MAX_VERTS) { mustfail = true; firstfail = std::min(firstfail, k); }
  }
  int st = r3d_split(in, np, rq, po, ne);
  M.count("split_calls");
  if (st != 1) {
    if (mustfit) M.fail("split-status", "split reported failure although every part fits");
    M.count("capacity_reported");
    return;
  }
  if (mustfail) M.fail("split-status", "split reported success although a part cannot fit");
  for (int k = 0; k < np; ++k) {
    M.count("polys_split");
    if (kind[k]) {
      if (po[k].nverts != 0 || ne[k].nverts != 0) M.fail("split-empty", "element %d: empty input gave %d/%d vertices", k, po[k].nverts, ne[k].nverts);
      M.count("outcome_empty_input");
      continue;
    }
    Mesh &m = ms[k];
    Ext<3> e = mesh_ext(m);
    char w[64];
    snprintf(w, sizeof w, "positive part of element %d", k);
    GraphInfo g0 = check_graph(&po[k], glevel(m), w);
    std::vector<Plane<3>> a(1, q), b(1, q);
    for (int i = 0; i < 3; ++i) b[0].n[i] = -b[0].n[i];
    b[0].d = -b[0].d;
    vertices_inside(&po[k], e, a, w);
    snprintf(w, sizeof w, "negative part of element %d", k);
    GraphInfo g1 = check_graph(&ne[k], glevel(m), w);
    vertices_inside(&ne[k], e, b, w);
    LD mx = -1e4000L, mn = 1e4000L;
    for (auto &v : m.v) { LD s = q.d; for (int i = 0; i < 3; ++i) s += q.n[i] * v[i]; mx = std::max(mx, s); mn = std::min(mn, s); }
    LD mar = 1000 * EPS3 * (e.Rmax + e.L + fabsl(q.d));
    if (mn > mar && ne[k].nverts != 0) M.fail("split-side-empty", "element %d is wholly on the positive side but its negative part has %d vertices", k, ne[k].nverts);
    if (mx < -mar && po[k].nverts != 0) M.fail("split-side-empty", "element %d is wholly on the negative side but its positive part has %d vertices", k, po[k].nverts);
    if (sds[k].front()) {
      M.count(sds[k].zero ? "touching_positive" : "wholly_positive");
      if (ne[k].nverts) M.fail("split-side-empty", "element %d has every vertex at signed distance >= 0 but its negative part has %d vertices", k, ne[k].nverts);
      if (!same_shape3(&keep[k], &po[k])) M.fail("split-not-unchanged", "element %d has every vertex at signed distance >= 0 but was changed (%d -> %d vertices)", k, nin[k], po[k].nverts);
    }
    if (sds[k].behind() && !sds[k].zero) {
      M.count("wholly_negative");
      if (po[k].nverts) M.fail("split-side-empty", "element %d has every vertex at signed distance < 0 but its positive part has %d vertices", k, po[k].nverts);
      if (!same_shape3(&keep[k], &ne[k])) M.fail("split-not-unchanged", "element %d has every vertex at signed distance < 0 but was changed (%d -> %d vertices)", k, nin[k], ne[k].nverts);
    }
    int p = k < 2 ? r.range(0, 2) : 0;
    if (pl.scale > 1e15 || pl.scale < 1e-15) p = 0;
    Body<3> bp = mesh_body(m), bn = bp;
    bp.clip(q, 1);
    bn.clip(q, -1);
    // an element whose own extent is far smaller than |d| still sees rounding of n.x+d
    Ext<3> ee = e;
    if (mn < mar && mx > -mar) ee.Rmax = std::max(ee.Rmax, fabsl(q.d));
    std::vector<LD> wp = body_moments<3>(bp, p), wn = body_moments<3>(bn, p);
    std::vector<LD> gp = lib_moments(&po[k], p), gn = lib_moments(&ne[k], p);
    cmp_moments("split-moments", gp, wp, p, ee, 1, "positive part moment");
    cmp_moments("split-moments", gn, wn, p, ee, 1, "negative part moment");
    M.close("split-geometry", poly_body(&po[k]).volume(), wp[0], tol3(ee, exps<3>(0)[0], 1), "positive geometric volume");
    M.close("split-geometry", poly_body(&ne[k]).volume(), wn[0], tol3(ee, exps<3>(0)[0], 1), "negative geometric volume");
    if (po[k].nverts && ne[k].nverts) M.count("outcome_divided");
    else if (po[k].nverts) M.count("outcome_all_positive");
    else M.count("outcome_all_negative");
    M.sig(hashstr(m.name.c_str()), cls, po[k].nverts * 1000 + ne[k].nverts, k * 100 + g0.comps * 10 + g1.comps);
  }
}

// ------------------------------------------------------------------ moments
static void mode_moments() {
  Rng &r = M.rng;
  Placement pl;
  Mesh m = new_mesh(r, default_budget(), pl);
  int p = r.chance(0.15) ? r.range(5, 9) : r.range(0, 4);
  if (pl.scale > 1e12 || pl.scale < 1e-12) p = std::min(p, 3);
  if (m.f.size() > 60) p = std::min(p, 4);
  // now and then a really high order, past where integer factorials and multinomials overflow
  if (m.f.size() <= 24 && pl.scale < 1e5 && pl.scale > 1e-5 && pl.off < 1e5 && r.chance(0.02)) p = r.range(10, 24);
  while (p > 3 && log10(10 * pl.scale * (pl.off + 2)) * (p + 3) > 280) --p;   // must be representable
  if (FLOAT3) p = std::min(p, 3);
  PolyBox P, S;
  if (!make_poly(r, m, P.p)) M.skip("build");
  int ncut = 0;
  Body<3> b = mesh_body(m);
  Ext<3> e = mesh_ext(m);
  if (r.chance(0.4)) {
    int cls;
    Plane<3> q = gen_plane(r, m, e, cls);
    r3d_plane rq = rp(q);
    if (r3d_clip(P.p, &rq, 1) != 1) M.skip("capacity");
    b.clip(q);
    ncut = 1;
  }
  memcpy(S.p, P.p, sizeof(r3d_poly));
  std::vector<LD> got = lib_moments(P.p, p);
  M.count("reduce_calls");
  M.count("moments_computed", got.size());
  if (memcmp(S.p, P.p, sizeof(r3d_poly))) M.fail("moments-input-modified", "integration changed the polyhedron");
  Ext<3> eh = e;
  if (p > 9) {   // at high orders the growth through re-centring about the vertex mean counts
    LD vc[3] = {0, 0, 0};
    for (int v = 0; v < P.p->nverts; ++v) for (int i = 0; i < 3; ++i) vc[i] += (LD)P.p->verts[v].pos.xyz[i] / P.p->nverts;
    for (int i = 0; i < 3; ++i) eh.R[i] = std::max(e.R[i], fabsl(vc[i]) + std::max(e.hi[i] - vc[i], vc[i] - e.lo[i]));
    M.count("high_order_reductions");
  }
  cmp_moments("moments", got, body_moments<3>(b, p), p, eh, ncut, "moment");
  // lower orders agree with the leading entries
  if (p > 0) {
    int pp = r.range(0, p - 1);
    std::vector<LD> g2 = lib_moments(P.p, pp);
    const auto &ex = exps<3>(pp);
    for (size_t j = 0; j < g2.size(); ++j) M.close("moments-prefix", g2[j], got[j], tol3(eh, ex[j], 1), "prefix moment", (int)j);
  }
  M.say("order=%d", p);
  M.sig(hashstr(m.name.c_str()), p, P.p->nverts, (int)log10(pl.scale) * 100 + (int)log10(pl.off + 1));
}
// re-centring of moments and the centre itself
static void mode_shift() {
  Rng &r = M.rng;
  Placement pl;
  bool large = r.chance(0.06);
  if (large) M.count("large_centers");
  Mesh m = new_mesh(r, large ? R3D_MAX_VERTS : std::min(60, default_budget()), pl, false);
  PolyBox P, S;
  if (!make_poly(r, m, P.p)) M.skip("build");
  Ext<3> e = mesh_ext(m);
  memcpy(S.p, P.p, sizeof(r3d_poly));
  r3d_rvec3 c = r3d_poly_center(P.p);
  if (memcmp(S.p, P.p, sizeof(r3d_poly))) M.fail("center-input-modified", "computing the centre changed the polyhedron");
  for (int i = 0; i < 3; ++i) {
    LD mean = 0;
    for (int v = 0; v < P.p->nverts; ++v) mean += P.p->verts[v].pos.xyz[i];
    mean /= P.p->nverts;
    M.close("center", c.xyz[i], mean, 50 * EPS3 * (e.Rmax + e.L) * P.p->nverts, "centre", i);
  }
  M.count("centers");
  {  // one vertex moves in place: the centre follows, and comes back with it
    int w = r.range(0, P.p->nverts - 1), ax = r.range(0, 2);
    r3d_real old = P.p->verts[w].pos.xyz[ax];
    P.p->verts[w].pos.xyz[ax] = (r3d_real)(old + e.L * r.uni(0.1, 0.9));
    r3d_rvec3 c2 = r3d_poly_center(P.p);
    LD mean = 0;
    for (int v = 0; v < P.p->nverts; ++v) mean += P.p->verts[v].pos.xyz[ax];
    M.close("center-follows", c2.xyz[ax], mean / P.p->nverts, 50 * EPS3 * (e.Rmax + 2 * e.L) * P.p->nverts, "centre after moving a vertex", ax);
    P.p->verts[w].pos.xyz[ax] = old;
    r3d_rvec3 c3 = r3d_poly_center(P.p);
    for (int i = 0; i < 3; ++i)
      M.close("center-follows", c3.xyz[i], c.xyz[i], 100 * EPS3 * (e.Rmax + e.L) * P.p->nverts, "centre after moving it back", i);
  }
  int p = r.range(0, FLOAT3 || large ? 3 : 7);
  if (!FLOAT3 && m.f.size() <= 24 && r.chance(0.02) && pl.scale < 1e5 && pl.scale > 1e-5 && pl.off < 1e5) p = r.range(8, 22);
  // moments of the body translated by v == library shift applied to moments of the body
  r3d_rvec3 v;
  Body<3> b = mesh_body(m), t = b;
  // keep the body near the origin so that the shift dominates
  LD mid[3];
  for (int i = 0; i < 3; ++i) mid[i] = (e.lo[i] + e.hi[i]) / 2;
  bool local = r.chance(0.6);
  int zmask = r.chance(0.4) ? r.range(0, 7) : 7;   // some components of the shift may be exactly zero
  for (int i = 0; i < 3; ++i) {
    v.xyz[i] = (zmask >> i & 1) ? (r3d_real)(e.L * r.uni(-1, 1) * (r.chance(0.2) ? (FLOAT3 ? 10 : 100) : 2)) : 0;
  }
  Ext<3> ee;
  for (auto &s : b.s) for (int a = 0; a < 4; ++a) {
    LD q[3];
    for (int i = 0; i < 3; ++i) { if (local) s.x[a][i] -= mid[i]; q[i] = fabsl(s.x[a][i]) + fabsl((LD)v.xyz[i]); }
    ee.add(q);
  }
  t = b;
  for (auto &s : t.s) for (int a = 0; a < 4; ++a) for (int i = 0; i < 3; ++i) s.x[a][i] += v.xyz[i];
  // moments of this order must be representable
  { LD R = 0; for (int i = 0; i < 3; ++i) R = std::max(R, 2 * ee.R[i]); while (p > 3 && log10l(R + 1e-300L) * (p + 3) > 280) --p; }
  std::vector<LD> m0 = body_moments<3>(b, p), m1 = body_moments<3>(t, p);
  int n = (int)m0.size();
  r3d_real *buf = (r3d_real *)malloc(n * sizeof(r3d_real));
  for (int i = 0; i < n; ++i) buf[i] = (r3d_real)m0[i];
  r3d_shift_moments(buf, p, v);
  std::vector<LD> got(buf, buf + n);
  free(buf);
  LD av = b.absvolume();
  const auto &ex = exps<3>(p);
  for (int j = 0; j < n; ++j) {
    LD mono = av * 100 * EPS3 * (p + 1) * (p + 1);
    for (int i = 0; i < 3; ++i) for (int k = 0; k < ex[j][i]; ++k) mono *= 2 * ee.R[i];
    M.close("shift-moments", got[j], m1[j], mono + 1000 * (LD)std::numeric_limits<r3d_real>::min(), "shifted moment", j);
  }
  M.count("shifts");
  M.say("order=%d shift=(%g,%g,%g) local=%d", p, (double)v.x, (double)v.y, (double)v.z, local);
  M.sig(hashstr(m.name.c_str()), p, zmask, local);
}

// ------------------------------------------------------------------ index boxes
static r3d_rvec3 pick_spacing(Rng &r, const Ext<3> &e, LD cellsacross) {
  r3d_rvec3 d;
  LD base = e.L / cellsacross;
  bool aniso = r.chance(0.5);
  bool pow2 = r.chance(0.35);
  for (int i = 0; i < 3; ++i) {
    LD x = base * (aniso ? r.uni(0.6, 3) : 1.0);
    if (pow2) x = ldexpl(1, (int)ceill(log2l(x)));
    d.xyz[i] = (r3d_real)x;
  }
  return d;
}
// index box must be the tightest enclosing one; ambiguous only within rounding of a cell face
static void check_ibox(const Ext<3> &e, const r3d_dvec3 *ib, const r3d_rvec3 &d, const char *what) {
  for (int i = 0; i < 3; ++i) {
    LD lo = e.lo[i] / (LD)d.xyz[i], hi = e.hi[i] / (LD)d.xyz[i];
    LD sl = 4 * EPS3 * std::max((LD)1, std::max(fabsl(lo), fabsl(hi)));
    // an exactly representable quotient leaves no freedom
    if ((LD)(r3d_real)lo == lo) { if (ib[0].ijk[i] != (r3d_int)floorl(lo)) M.fail("ibox", "%s: lower index %d on axis %d, extent starts at cell %.17Lg", what, ib[0].ijk[i], i, lo); }
    else if (!(ib[0].ijk[i] <= lo + sl && ib[0].ijk[i] + 1 >= lo - sl)) M.fail("ibox", "%s: lower index %d on axis %d, extent starts at cell %.17Lg", what, ib[0].ijk[i], i, lo);
    if ((LD)(r3d_real)hi == hi) { if (ib[1].ijk[i] != (r3d_int)ceill(hi)) M.fail("ibox", "%s: upper index %d on axis %d, extent ends at cell %.17Lg", what, ib[1].ijk[i], i, hi); }
    else if (!(ib[1].ijk[i] >= hi - sl && ib[1].ijk[i] - 1 <= hi + sl)) M.fail("ibox", "%s: upper index %d on axis %d, extent ends at cell %.17Lg", what, ib[1].ijk[i], i, hi);
    M.count("ibox_bounds_checked", 2);
  }
}
static Ext<3> poly_ext(const r3d_poly *P) {
  Ext<3> e;
  for (int v = 0; v < P->nverts; ++v) { LD q[3]; for (int i = 0; i < 3; ++i) q[i] = P->verts[v].pos.xyz[i]; e.add(q); }
  return e;
}
static void mode_ibox() {
  Rng &r = M.rng;
  Placement pl;
  Mesh m = new_mesh(r, std::min(80, default_budget()), pl);
  PolyBox P, S;
  if (!make_poly(r, m, P.p)) M.skip("build");
  Ext<3> e = mesh_ext(m);
  LD across = r.chance(0.2) ? r.uni(0.05, 1) : r.uni(1, 40);
  r3d_rvec3 d = pick_spacing(r, e, across);
  for (int i = 0; i < 3; ++i) {
    if (fabsl(e.lo[i] / d.xyz[i]) > 1e9L || fabsl(e.hi[i] / d.xyz[i]) > 1e9L) M.skip("index-range");
    if (FLOAT3 && (fabsl(e.lo[i] / d.xyz[i]) > 1e6L || fabsl(e.hi[i] / d.xyz[i]) > 1e6L)) M.skip("index-range");
  }
  r3d_dvec3 ib[2], ib0[2];
  memset(ib, 0x7f, sizeof ib);
  if (r.chance(0.03)) {
    P.p->nverts = 0;
    r3d_get_ibox(P.p, ib, d);
    for (int i = 0; i < 3; ++i) if (ib[0].ijk[i] != 0 || ib[1].ijk[i] != 0) M.fail("ibox-empty", "the index box of an empty polyhedron is not zero: axis %d [%d,%d)", i, ib[0].ijk[i], ib[1].ijk[i]);
    M.count("empty_boxes");
    r3d_dvec3 cb[2];
    for (int i = 0; i < 3; ++i) { cb[0].ijk[i] = r.range(-3, 1); cb[1].ijk[i] = cb[0].ijk[i] + r.range(1, 4); }
    r3d_clamp_ibox(P.p, ib, cb, d);
    if (P.p->nverts != 0) M.fail("clamp-empty", "clamping an empty polyhedron left %d vertices", P.p->nverts);
    return;
  }
  memcpy(S.p, P.p, sizeof(r3d_poly));
  r3d_get_ibox(P.p, ib, d);
  M.count("ibox_calls");
  if (memcmp(S.p, P.p, sizeof(r3d_poly))) M.fail("ibox-input-modified", "computing the index box changed the polyhedron");
  check_ibox(e, ib, d, "index box");
  // clamp
  memcpy(ib0, ib, sizeof ib);
  r3d_dvec3 cb[2];
  int style = r.range(0, 5);
  for (int i = 0; i < 3; ++i) {
    int a = ib[0].ijk[i], b = ib[1].ijk[i], w = std::max(1, b - a);
    switch (style) {
      case 0: cb[0].ijk[i] = a - r.range(0, 3); cb[1].ijk[i] = b + r.range(0, 3); break;                       // contains
      case 1: case 2: cb[0].ijk[i] = a + r.range(-w / 2 - 1, w / 2); cb[1].ijk[i] = std::max(cb[0].ijk[i] + 1, b - r.range(-w / 2 - 1, w / 2)); break;
      case 3: cb[0].ijk[i] = a + r.range(0, w - 1); cb[1].ijk[i] = cb[0].ijk[i] + 1; break;                     // one cell
      case 4: { int k = r.range(0, 2); if (i == 0) { if (k == 0) { cb[0].ijk[0] = b + r.range(0, 2); cb[1].ijk[0] = cb[0].ijk[0] + 3; } else { cb[1].ijk[0] = a - r.range(0, 2); cb[0].ijk[0] = cb[1].ijk[0] - 3; } } else { cb[0].ijk[i] = a - 1; cb[1].ijk[i] = b + 1; } break; }
      case 5: { cb[0].ijk[i] = a - 1; cb[1].ijk[i] = b + 1; if (i == r.range(0, 2)) { if (r.chance(.5)) cb[0].ijk[i] = a + w / 2; else cb[1].ijk[i] = std::max(a + 1, b - w / 2); } break; }
    }
  }
  M.say("d=(%g,%g,%g) clamp style %d", (double)d.x, (double)d.y, (double)d.z, style);
  r3d_dvec3 cbs[2];
  memcpy(cbs, cb, sizeof cb);
  bool disjoint = false, inside = true;
  for (int i = 0; i < 3; ++i) {
    if (ib0[1].ijk[i] <= cb[0].ijk[i] || ib0[0].ijk[i] >= cb[1].ijk[i]) disjoint = true;
    if (ib0[0].ijk[i] < cb[0].ijk[i] || ib0[1].ijk[i] > cb[1].ijk[i]) inside = false;
  }
  int cst = VOX_STATUS(r3d_clamp_ibox(P.p, ib, cb, d));
  M.count("clamp_calls");
  if (memcmp(cb, cbs, sizeof cb)) M.fail("clamp-range-modified", "the clamp range was written to");
  if (cst != 1) {
    if (S.p->nverts * 8 <= R3D_MAX_VERTS && R3D_MAX_VERTS >= 512) M.fail("clamp-status", "clamping reported failure although it fits");
    M.count("capacity_reported");
    return;
  }
  if (disjoint) {
    M.count("outcome_disjoint");
    if (P.p->nverts != 0) M.fail("clamp-disjoint", "disjoint ranges but %d vertices remain", P.p->nverts);
    for (int i = 0; i < 3; ++i) if (ib[0].ijk[i] != 0 || ib[1].ijk[i] != 0) M.fail("clamp-disjoint", "disjoint ranges but the index box is not empty");
    M.sig(1, style);
    return;
  }
  for (int i = 0; i < 3; ++i) {
    int a = std::max(ib0[0].ijk[i], cb[0].ijk[i]), b = std::min(ib0[1].ijk[i], cb[1].ijk[i]);
    if (ib[0].ijk[i] != a || ib[1].ijk[i] != b) M.fail("clamp-box", "axis %d: clamped box [%d,%d) expected [%d,%d)", i, ib[0].ijk[i], ib[1].ijk[i], a, b);
  }
  Body<3> b = mesh_body(m);
  std::vector<Plane<3>> pls;
  for (int i = 0; i < 3; ++i) for (int s = 0; s < 2; ++s) {
    Plane<3> q;
    q.n[0] = q.n[1] = q.n[2] = 0;
    q.n[i] = s ? -1 : 1;
    q.d = (r3d_real)(cb[s].ijk[i] * d.xyz[i]) * (s ? 1 : -1);
    // only sides that really cut: the others are implied up to rounding
    bool cuts = s ? ib0[1].ijk[i] > cb[1].ijk[i] : ib0[0].ijk[i] < cb[0].ijk[i];
    if (!cuts) continue;
    pls.push_back(q);
    b.clip(q);
  }
  if (inside) { M.count("outcome_inside"); if (memcmp(S.p, P.p, sizeof(r3d_poly))) M.fail("clamp-inside", "the polyhedron was changed although it lies inside the range"); }
  else M.count("outcome_clipped");
  check_graph(P.p, glevel(m), "clamped");
  vertices_inside(P.p, e, pls, "clamped");
  M.close("clamp-volume", poly_body(P.p).volume(), b.volume(), tol3(e, exps<3>(0)[0], (int)pls.size()), "clamped volume");
  int p = r.range(0, 1);
  cmp_moments("clamp-moments", lib_moments(P.p, p), body_moments<3>(b, p), p, e, (int)pls.size(), "clamped moment");
  M.sig(hashstr(m.name.c_str()), style, pls.size(), P.p->nverts);
}

// ------------------------------------------------------------------ voxelization
static void cell_planes(const r3d_dvec3 &c, const r3d_rvec3 &d, Plane<3> *pl) {
  for (int i = 0; i < 3; ++i) for (int s = 0; s < 2; ++s) {
    Plane<3> &q = pl[2 * i + s];
    q.n[0] = q.n[1] = q.n[2] = 0;
    q.n[i] = s ? -1 : 1;
    q.d = (LD)(r3d_real)(d.xyz[i] * (c.ijk[i] + s)) * (s ? 1 : -1);
  }
}
static void mode_vox() {
  Rng &r = M.rng;
  Placement pl;
  bool large = r.chance(0.25);
  Mesh m = new_mesh(r, large ? default_budget() : std::min(40, default_budget() / 2), pl);
  PolyBox P, S;
  if (!make_poly(r, m, P.p)) M.skip("build");
  Ext<3> e = mesh_ext(m);
  Body<3> body = mesh_body(m);
  int p = large ? r.range(0, 1) : r.range(0, 3);
  if (!large && !FLOAT3 && m.f.size() <= 24 && pl.scale < 1e8 && pl.scale > 1e-8 && pl.off < 1e4 && r.chance(0.08)) { p = r.range(4, 9); M.count("high_order_grids"); }
  if (pl.scale > 1e15 || pl.scale < 1e-15) p = std::min(p, 1);
  r3d_rvec3 d = pick_spacing(r, e, large ? r.uni(4, 16) : r.uni(0.4, 6));
  if (r.chance(0.15)) { int a = r.range(0, 2); d.xyz[a] = (r3d_real)(e.L / r.uni(20, 150)); d.xyz[(a + 1) % 3] = (r3d_real)(e.L * r.uni(0.6, 2)); d.xyz[(a + 2) % 3] = (r3d_real)(e.L * r.uni(0.6, 2)); }
  r3d_dvec3 ib[2];
  for (int i = 0; i < 3; ++i) if (fabsl(e.lo[i] / d.xyz[i]) > (FLOAT3 ? 1e4L : 1e8L) || fabsl(e.hi[i] / d.xyz[i]) > (FLOAT3 ? 1e4L : 1e8L)) M.skip("index-range");
  r3d_get_ibox(P.p, ib, d);
  int grow = 0;
  if (r.chance(0.3)) for (int i = 0; i < 3; ++i) { int a = r.range(0, 2), b = r.range(0, 2); ib[0].ijk[i] -= a; ib[1].ijk[i] += b; grow += a + b; }
  bool clamped = false;
  if (!grow && r.chance(0.2)) {
    r3d_dvec3 cb[2];
    for (int i = 0; i < 3; ++i) { int w = ib[1].ijk[i] - ib[0].ijk[i]; cb[0].ijk[i] = ib[0].ijk[i] + r.range(0, w / 3); cb[1].ijk[i] = std::max(cb[0].ijk[i] + 1, ib[1].ijk[i] - r.range(0, w / 3)); }
    for (int i = 0; i < 3; ++i) for (int s = 0; s < 2; ++s) {
      if (s ? ib[1].ijk[i] <= cb[1].ijk[i] : ib[0].ijk[i] >= cb[0].ijk[i]) continue;
      Plane<3> q; q.n[0] = q.n[1] = q.n[2] = 0; q.n[i] = s ? -1 : 1;
      q.d = (LD)(r3d_real)(d.xyz[i] * cb[s].ijk[i]) * (s ? 1 : -1);
      body.clip(q);
    }
    if (VOX_STATUS(r3d_clamp_ibox(P.p, ib, cb, d)) != 1) M.skip("capacity");
    clamped = true;
  }
  int n[3];
  long ncell = 1;
  for (int i = 0; i < 3; ++i) { n[i] = ib[1].ijk[i] - ib[0].ijk[i]; if (n[i] <= 0) n[i] = 0; ncell *= n[i]; }
  if (ncell == 0 || ncell > 40000) M.skip("grid-size");
  int nm = R3D_NUM_MOMENTS(p);
  long tot = ncell * nm;
  r3d_real *grid = (r3d_real *)malloc(tot * sizeof(r3d_real));
  struct Fr { void *a; ~Fr() { free(a); } } fr{grid};
  std::vector<r3d_real> pre(tot, 0);
  bool prefilled = r.chance(0.5);
  const auto &ex = exps<3>(p);
  LD cv = 1;
  for (int i = 0; i < 3; ++i) cv *= d.xyz[i];
  if (prefilled) for (long i = 0; i < tot; ++i) { LD mono = 1; for (int k = 0; k < 3; ++k) for (int q = 0; q < ex[i % nm][k]; ++q) mono *= e.R[k]; pre[i] = (r3d_real)(cv * mono * r.uni(-2, 2)); }
  memcpy(grid, pre.data(), tot * sizeof(r3d_real));
  if (r.chance(0.04)) {
    // nothing to deposit: an empty polyhedron, or an empty range
    r3d_dvec3 tb[2] = {ib[0], ib[1]};
    PolyBox T;
    memcpy(T.p, P.p, sizeof(r3d_poly));
    int what = r.range(0, 2);
    if (what == 0) T.p->nverts = 0;
    else if (what == 1) { int k = r.range(0, 2); tb[1].ijk[k] = tb[0].ijk[k]; }
    else {
      r3d_dvec3 cb[2] = {ib[0], ib[1]};
      int k = r.range(0, 2), w = ib[1].ijk[k] - ib[0].ijk[k];
      cb[0].ijk[k] += w; cb[1].ijk[k] += w;
      r3d_clamp_ibox(T.p, tb, cb, d);
    }
    int ts = VOX_STATUS(r3d_voxelize(T.p, tb, grid, d, p));
    M.count("trivial_calls");
    if (ts != 1) M.fail("vox-trivial-status", "voxelizing %s did not report success", what == 0 ? "an empty polyhedron" : "onto an empty range");
    if (memcmp(grid, pre.data(), tot * sizeof(r3d_real))) M.fail("vox-trivial-grid", "voxelizing %s changed the grid", what == 0 ? "an empty polyhedron" : "onto an empty range");
  }
  memcpy(S.p, P.p, sizeof(r3d_poly));
  r3d_dvec3 ibs[2];
  memcpy(ibs, ib, sizeof ib);
  M.say("grid %dx%dx%d at (%d,%d,%d) d=(%.17g,%.17g,%.17g) order=%d prefilled=%d grow=%d clamped=%d", n[0], n[1], n[2], ib[0].i, ib[0].j, ib[0].k, (double)d.x, (double)d.y, (double)d.z, p, prefilled, grow, clamped);
  int vst = VOX_STATUS(r3d_voxelize(P.p, ib, grid, d, p));
  M.count("voxelize_calls");
  M.count("cells_written", ncell);
  if (memcmp(S.p, P.p, sizeof(r3d_poly))) M.fail("vox-input-modified", "voxelization changed the polyhedron");
  if (memcmp(ibs, ib, sizeof ib)) M.fail("vox-ibox-modified", "voxelization changed the index box");
  if (vst != 1) {
    if (S.p->nverts * 8 <= R3D_MAX_VERTS && R3D_MAX_VERTS >= 512) M.fail("vox-status", "voxelization reported failure although it fits");
    M.count("capacity_reported");
    return;
  }
  int ncut = (int)ceil(log2((double)ncell)) + 3;
  // tolerance also covers the rounding of adding to existing content
  auto tolcell = [&](int j, LD preval) { return tol3(e, ex[j], ncut) + 4 * EPS3 * fabsl(preval); };
  // conservation
  std::vector<LD> want = body_moments<3>(body, p), sum(nm, 0);
  std::vector<LD> abspre(nm, 0);
  for (long c = 0; c < ncell; ++c) for (int j = 0; j < nm; ++j) { sum[j] += (LD)grid[c * nm + j] - (LD)pre[c * nm + j]; abspre[j] += fabsl((LD)pre[c * nm + j]); }
  for (int j = 0; j < nm; ++j) M.close("vox-conservation", sum[j], want[j], tol3(e, ex[j], ncut) + 4 * EPS3 * abspre[j], "sum over cells", j);
  // per cell
  bool all = ncell * (long)body.s.size() * std::max(nm, 20) < 240000;
  long sampled = 0;
  auto cmpcell = [&](int a, int b, int c, const Body<3> &cellb) {
    std::vector<LD> w = cellb.s.empty() ? std::vector<LD>(nm, 0) : body_moments<3>(cellb, p);
    long o = (((long)a * n[1] + b) * n[2] + c) * nm;
    for (int j = 0; j < nm; ++j) M.close("vox-cell", (LD)grid[o + j] - (LD)pre[o + j], w[j], tolcell(j, pre[o + j]), "cell moment", j);
    ++sampled;
    if (!cellb.s.empty()) M.count("cells_nonempty");
  };
  Plane<3> cp[6];
  if (all) {
    for (int a = 0; a < n[0]; ++a) {
      r3d_dvec3 c;
      c.i = ib[0].i + a; c.j = ib[0].j; c.k = ib[0].k;
      cell_planes(c, d, cp);
      Body<3> ba = body;
      if (a > 0) ba.clip(cp[0]);
      if (a < n[0] - 1) ba.clip(cp[1]);
      for (int b = 0; b < n[1]; ++b) {
        c.j = ib[0].j + b;
        cell_planes(c, d, cp);
        Body<3> bb = ba;
        if (b > 0) bb.clip(cp[2]);
        if (b < n[1] - 1) bb.clip(cp[3]);
        for (int k = 0; k < n[2]; ++k) {
          c.k = ib[0].k + k;
          cell_planes(c, d, cp);
          Body<3> bc = bb;
          if (k > 0) bc.clip(cp[4]);
          if (k < n[2] - 1) bc.clip(cp[5]);
          cmpcell(a, b, k, bc);
        }
      }
    }
  } else {
    for (int t = 0; t < 24; ++t) {
      int a = r.range(0, n[0] - 1), b = r.range(0, n[1] - 1), k = r.range(0, n[2] - 1);
      if (t == 0) a = b = k = 0;
      if (t == 1) { a = n[0] - 1; b = n[1] - 1; k = n[2] - 1; }
      r3d_dvec3 c;
      c.i = ib[0].i + a; c.j = ib[0].j + b; c.k = ib[0].k + k;
      cell_planes(c, d, cp);
      Body<3> bc = body;
      int idx[3] = {a, b, k};
      for (int q = 0; q < 3; ++q) { if (idx[q] > 0) bc.clip(cp[2 * q]); if (idx[q] < n[q] - 1) bc.clip(cp[2 * q + 1]); }
      cmpcell(a, b, k, bc);
    }
    // cells that the extent cannot reach must keep their content exactly
  }
  M.count("cells_compared", sampled);
  for (long c = 0; c < ncell; ++c) {
    int k = (int)(c % n[2]), b = (int)(c / n[2] % n[1]), a = (int)(c / n[2] / n[1]);
    int idx[3] = {a, b, k};
    bool out = false;
    for (int i = 0; i < 3; ++i) {
      LD lo = (LD)d.xyz[i] * (ib[0].ijk[i] + idx[i]), hi = lo + d.xyz[i];
      LD t = 64 * EPS3 * (e.Rmax + e.L + fabsl(lo) + fabsl(hi));
      if (lo > e.hi[i] + t || hi < e.lo[i] - t) out = true;
    }
    if (!out) continue;
    M.count("cells_untouchable");
    for (int j = 0; j < nm; ++j)
      if (grid[c * nm + j] != pre[c * nm + j]) M.fail("vox-outside", "cell (%d,%d,%d) is out of reach of the body but changed", a, b, k);
  }
  M.sig(hashstr(m.name.c_str()), n[0] * 10000 + n[1] * 100 + n[2], p, prefilled * 4 + clamped * 2 + (grow > 0));
}

// grids of more than 2^31 moments: the range is huge, the shape small
static void mode_bigvox() {
  Rng &r = M.rng;
  Placement pl;
  Mesh m = new_mesh(r, std::min(30, default_budget() / 2), pl, false);
  PolyBox P;
  if (!make_poly(r, m, P.p)) M.skip("build");
  Ext<3> e = mesh_ext(m);
  Body<3> body = mesh_body(m);
  r3d_rvec3 d = pick_spacing(r, e, r.uni(0.4, 4));
  for (int i = 0; i < 3; ++i) if (fabsl(e.lo[i] / d.xyz[i]) > 1e5L || fabsl(e.hi[i] / d.xyz[i]) > 1e5L) M.skip("index-range");
  const auto &ex = exps<3>(4);
  r3d_dvec3 ib[2], bb[2];
  r3d_get_ibox(P.p, ib, d);
  long nc = 1, n[3], o[3];
  for (int i = 0; i < 3; ++i) nc *= ib[1].ijk[i] - ib[0].ijk[i];
  if (nc <= 0 || nc > 400) M.skip("grid-size");
  bool cells = r.chance(0.4);   // more than 2^31 cells, not only moments
  if (cells) M.count("huge_cell_ranges");
  int p = cells ? r.range(0, 1) : r.range(1, 4), nm = R3D_NUM_MOMENTS(p);
  LD target = cells ? r.uni(2.2e9, 5e9) : (r.chance(0.8) ? r.uni(2.2e9, 3e9) : r.uni(2e8, 2e9)) / nm;
  for (int t = 0;; ++t) {   // any shape of range, with the tight one somewhere inside
    LD w[3], ws = 0, tot = 1;
    for (int i = 0; i < 3; ++i) { w[i] = r.uni(0.2, 1); ws += w[i]; }
    bool ok = true;
    for (int i = 0; i < 3; ++i) {
      long k = ib[1].ijk[i] - ib[0].ijk[i];
      n[i] = std::max(k, (long)powl(target, w[i] / ws));
      if (i == 3 - 1) n[i] = (long)(target / tot) + 1;
      tot *= n[i];
      if (n[i] < k || n[i] > 200000000) ok = false;
      LD f = r.chance(0.6) ? 1 - pow(10, r.uni(-6, -1)) : r.uni(0, 1);
      o[i] = (long)(f * (n[i] - k));
    }
    if (ok) break;
    if (t > 50) M.skip("range");
  }
  size_t tot = nm;
  for (int i = 0; i < 3; ++i) { bb[0].ijk[i] = (int)(ib[0].ijk[i] - o[i]); bb[1].ijk[i] = (int)(bb[0].ijk[i] + n[i]); tot *= n[i]; }
  HugeGrid G(tot * sizeof(r3d_real));
  if (!G.p) M.skip("address-space");
  r3d_real *grid = (r3d_real *)G.p;
  std::vector<r3d_real> small(nc * nm, 0);
  M.say("range %ldx%ldx%ld, shape at (%ld,%ld,%ld), order %d", n[0], n[1], n[2], o[0], o[1], o[2], p);
  int st = VOX_STATUS(r3d_voxelize(P.p, ib, small.data(), d, p));
  if (st != 1) M.skip("capacity");
  st = VOX_STATUS(r3d_voxelize(P.p, bb, grid, d, p));
  if (st != 1) M.fail("big-status", "refused on the large range, accepted on the small one");
  std::vector<LD> sum(nm, 0);
  std::vector<size_t> at(nc);
  int ncut = 40;
  for (long c = 0; c < nc; ++c) {
    long rem = c, x[3];
    for (int i = 3 - 1; i >= 0; --i) { long k = ib[1].ijk[i] - ib[0].ijk[i]; x[i] = rem % k; rem /= k; }
    size_t g = 0;
    for (int i = 0; i < 3; ++i) g = g * n[i] + (o[i] + x[i]);
    at[c] = g * nm;
    for (int j = 0; j < nm; ++j) {
      M.close("big-cell", grid[g * nm + j], small[c * nm + j], tol3(e, ex[j], ncut), "cell moment on the large range", j);
      sum[j] += grid[g * nm + j];
    }
  }
  std::vector<LD> want = body_moments<3>(body, p);
  for (int j = 0; j < nm; ++j) M.close("big-sum", sum[j], want[j], 4 * tol3(e, ex[j], ncut), "sum over the cells", j);
  M.count("cells_compared", nc);
  M.count("big_grids");
  G.touched([&](size_t off, size_t len) {
    M.count("big_pages_inspected");
    for (size_t i = off / sizeof(r3d_real); i < (off + len) / sizeof(r3d_real); ++i) {
      if (grid[i] == 0) continue;
      size_t cell = i / nm * nm;
      if (std::binary_search(at.begin(), at.end(), cell)) continue;
      // a boundary met up to rounding may leave a trace in the next cell
      size_t rem = cell / nm;
      bool near = true;
      for (int k = 2; k >= 0; --k) { long x = (long)(rem % n[k]), w = ib[1].ijk[k] - ib[0].ijk[k]; rem /= n[k]; if (x < o[k] - 1 || x > o[k] + w) near = false; }
      int j = (int)(i % nm);
      if (!near || !(fabsl((LD)grid[i]) <= tol3(e, ex[j], ncut))) M.fail("big-outside", "moment %zu of a cell out of reach was changed", i);
    }
  });
  M.sig(p, (uint64_t)log2((double)n[0]), (uint64_t)log2((double)n[1]), nc);
}

// ------------------------------------------------------------------ construction from a boundary description
static void mode_initpoly() {
  Rng &r = M.rng;
  Placement pl;
  int budget = r.chance(0.3) ? R3D_MAX_VERTS : default_budget();
  Mesh m;
  if (r.chance(0.12)) {
    // high degree vertices and large sizes on purpose
    int c = std::min(R3D_MAX_VERTS, 512);
    switch (r.range(0, 4)) {
      case 4: m = g_prism(r, c / 2 + r.range(-1, 4), 0); break;
      case 0: m = g_pyramid(r, r.range(3, c / 5 + 1), r.range(0, 1)); break;
      case 1: m = g_bipyramid(r, r.range(3, c / 7 + 1), r.range(0, 1)); break;
      case 2: m = g_prism(r, r.range(3, c / 2), 0); break;
      default: m = g_hull(r, r.range(4, c / 7 + 1), 0); break;
    }
    snap(m);
    M.say("%s nv=%d nf=%d", m.name.c_str(), (int)m.v.size(), (int)m.f.size());
  } else m = new_mesh(r, budget, pl);
  mesh_scramble(r, m);
  int nv = (int)m.v.size(), nf = (int)m.f.size();
  int maxdeg = 0, mindeg = 1 << 30;
  std::vector<int> deg(nv, 0);
  for (auto &f : m.f) for (int i : f) deg[i]++;
  for (int x : deg) { maxdeg = std::max(maxdeg, x); mindeg = std::min(mindeg, x); }
  bool bad = r.chance(0.1);
  if (bad) {
    // malformed: drop every face but two around some vertex
    int v = r.range(0, nv - 1), kept = 0, keep = r.range(0, 2);
    std::vector<std::vector<int>> nfv;
    for (auto &f : m.f) {
      bool has = std::find(f.begin(), f.end(), v) != f.end();
      if (has && kept >= keep) continue;
      if (has) ++kept;
      nfv.push_back(f);
    }
    m.f = nfv;
    nf = (int)m.f.size();
    M.say("malformed: vertex %d left with %d faces", v, kept);
  }
  std::vector<r3d_rvec3> v;
  for (auto &x : m.v) v.push_back(rv(x));
  std::vector<r3d_int *> fi;
  std::vector<r3d_int> npf;
  // exactly sized separate arrays so that reads past a face are visible
  for (auto &f : m.f) {
    r3d_int *q = (r3d_int *)malloc(f.size() * sizeof(r3d_int));
    for (size_t k = 0; k < f.size(); ++k) q[k] = f[k];
    fi.push_back(q);
    npf.push_back((r3d_int)f.size());
  }
  struct Fr { std::vector<r3d_int *> &a; ~Fr() { for (auto p : a) free(p); } } fr{fi};
  std::vector<r3d_rvec3> v0 = v;
  std::vector<r3d_int> npf0 = npf;
  PolyBox P;
  int corners = mesh_corners(m), cubic = mesh_cubic(m);
  bool mustfit = maxdeg == 3 ? nv <= R3D_MAX_VERTS : (corners <= R3D_MAX_VERTS && nv <= R3D_MAX_VERTS);
  bool mustfail = (maxdeg == 3 ? nv : cubic) > R3D_MAX_VERTS;
  if (r.chance(0.5)) {   // a polyhedron is already there
    r3d_rvec3 b[2];
    for (int k = 0; k < 3; ++k) { b[0].xyz[k] = -1; b[1].xyz[k] = 1; }
    r3d_init_box(P.p, b);
  }
  int st = r3d_init_poly(P.p, v.data(), nv, fi.data(), npf.data(), nf);
  M.count("init_poly_calls");
  for (int i = 0; i < nv; ++i) if (memcmp(&v[i], &v0[i], sizeof v[i])) M.fail("init-input-modified", "vertex array changed");
  if (npf != npf0) M.fail("init-input-modified", "face size array changed");
  for (int i = 0; i < nf; ++i) for (int k = 0; k < npf[i]; ++k) if (fi[i][k] != m.f[i][k]) M.fail("init-input-modified", "face array changed");
  if (bad) {
    M.count("malformed_descriptions");
    if (st != 0) M.fail("init-malformed", "a vertex with fewer than three faces was accepted");
    if (P.p->nverts != 0) M.fail("init-malformed", "rejected description left %d vertices", P.p->nverts);
    M.sig(hashstr(m.name.c_str()), 77, nv);
    return;
  }
  if (st != 1) {
    if (st != 0) M.fail("init-status", "unexpected status %d", st);
    if (mustfit) M.fail("init-status", "a description with %d face corners was refused (capacity %d)", corners, R3D_MAX_VERTS);
    if (P.p->nverts != 0) M.fail("init-refused", "a refused description left %d vertices", P.p->nverts);
    M.count("capacity_reported");
    return;
  }
  if (mustfail) M.fail("init-status", "needs %d vertices, capacity %d, but success was reported", cubic, R3D_MAX_VERTS);
  GraphInfo g = check_graph(P.p, glevel(m), "constructed", 40);
  if (m.comps != g.comps) M.fail("init-components", "%d components became %d", m.comps, g.comps);
  if (m.sphere && P.p->nverts <= 60) {
    M.count("is_good_calls");
    if (r3d_is_good(P.p) != 1) M.fail("init-not-good", "the validity checker rejects the constructed polyhedron");
  }
  // every vertex position is one of the given ones, and all are used
  std::set<std::vector<double>> given, used;
  for (auto &x : v) given.insert({(double)x.x, (double)x.y, (double)x.z});
  for (int i = 0; i < P.p->nverts; ++i) {
    std::vector<double> q = {(double)P.p->verts[i].pos.x, (double)P.p->verts[i].pos.y, (double)P.p->verts[i].pos.z};
    if (!given.count(q)) M.fail("init-position", "vertex %d is at a position that was not given", i);
    used.insert(q);
  }
  if (used.size() != given.size()) M.fail("init-position", "%zu of %zu given positions are used", used.size(), given.size());
  Ext<3> e = mesh_ext(m);
  int p = r.range(0, 2);
  if (pl.scale > 1e15 || pl.scale < 1e-15) p = 0;
  Body<3> b = mesh_body(m);
  cmp_moments("init-moments", lib_moments(P.p, p), body_moments<3>(b, p), p, e, 0, "moment");
  M.close("init-geometry", poly_body(P.p).volume(), b.volume(), tol3(e, exps<3>(0)[0], 0), "geometric volume");
  // and it can be cut
  int cls;
  Plane<3> q = gen_plane(r, m, e, cls);
  r3d_plane rq = rp(q);
  int lo, hi; bool ms;
  crossings(P.p, rq, lo, hi, ms);
  if (P.p->nverts + hi <= R3D_MAX_VERTS) {
    if (r3d_clip(P.p, &rq, 1) != 1) M.fail("init-clip", "clipping the constructed polyhedron failed");
    check_graph(P.p, glevel(m), "constructed then clipped", 30);
    b.clip(q);
    M.close("init-clip", poly_body(P.p).volume(), b.volume(), tol3(e, exps<3>(0)[0], 1), "volume after clip");
  }
  M.count(maxdeg == 3 ? "cubic_descriptions" : "high_degree_descriptions");
  if (maxdeg > 8) M.count("degree_above_8");
  M.sig(hashstr(m.name.c_str()), maxdeg, nv, g.comps);
}
// tetrahedra and boxes
static void mode_initbasic() {
  Rng &r = M.rng;
  PolyBox P;
  memset(P.p, r.range(0, 255), sizeof *P.p);
  double sc = pow(10, r.uni(-G_SCALE, G_SCALE)), off = r.chance(0.4) ? pow(10, r.uni(0, G_OFF / 2)) : 0;
  Mesh m;
  int p = r.range(0, 3);
  if (r.chance(0.5)) {
    r3d_rvec3 v[4], v0[4];
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) v[i].xyz[k] = (r3d_real)(sc * (r.uni(-1, 1) + off * ((k * 7 % 3) - 1)));
    if (r.chance(0.1)) v[3] = v[r.range(0, 2)];
    memcpy(v0, v, sizeof v);
    r3d_init_tet(P.p, v);
    if (memcmp(v, v0, sizeof v)) M.fail("init-input-modified", "vertex array changed");
    m.name = "tet";
    for (int i = 0; i < 4; ++i) m.v.push_back(mk(v[i].x, v[i].y, v[i].z));
    m.f = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
    r3d_real o = r3d_orient(v);
    Ext<3> e = mesh_ext(m);
    M.close("tet-orient", o, mesh_body(m).volume(), tol3(e, exps<3>(0)[0], 0), "signed volume");
    if (P.p->nverts != 4) M.fail("tet-verts", "tetrahedron with %d vertices", P.p->nverts);
  } else {
    r3d_rvec3 b[2], b0[2];
    for (int k = 0; k < 3; ++k) { double o = off * ((k * 5 % 3) - 1); b[0].xyz[k] = (r3d_real)(sc * (o + r.uni(-1, 0))); b[1].xyz[k] = (r3d_real)(sc * (o + r.uni(0, 1) + (r.chance(0.05) ? 50 : 0))); }
    if (r.chance(0.2)) { int k = r.range(1, 7); for (int i = 0; i < 3; ++i) if (k >> i & 1) std::swap(b[0].xyz[i], b[1].xyz[i]); M.count("boxes_reversed"); }
    memcpy(b0, b, sizeof b);
    r3d_init_box(P.p, b);
    if (memcmp(b, b0, sizeof b)) M.fail("init-input-modified", "bounds changed");
    m.name = "box";
    for (int k = 0; k < 2; ++k) {
      m.v.push_back(mk(b[0].x, b[0].y, b[k].z)); m.v.push_back(mk(b[1].x, b[0].y, b[k].z));
      m.v.push_back(mk(b[1].x, b[1].y, b[k].z)); m.v.push_back(mk(b[0].x, b[1].y, b[k].z));
    }
    m.f = {{3, 2, 1, 0}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    if (P.p->nverts != 8) M.fail("box-verts", "box with %d vertices", P.p->nverts);
  }
  M.count("basic_solids");
  M.say("%s scale=%g off=%g", m.name.c_str(), sc, off);
  GraphInfo g = check_graph(P.p, 3, "basic solid");
  if (g.faces != (int)m.f.size()) M.fail("basic-faces", "%s has %d faces", m.name.c_str(), g.faces);
  if (r3d_is_good(P.p) != 1) M.fail("basic-not-good", "validity checker rejects a %s", m.name.c_str());
  Ext<3> e = mesh_ext(m);
  cmp_moments("basic-moments", lib_moments(P.p, p), body_moments<3>(mesh_body(m), p), p, e, 0, "moment");
  M.sig(hashstr(m.name.c_str()), p, (int)log10(sc));
}

// ------------------------------------------------------------------ boundary representation
static void mode_brep() {
  Rng &r = M.rng;
  Placement pl;
  PolyBox P, S;
  Mesh m;
  Body<3> body;
  Ext<3> e;
  int ncut = 0;
  int kind = r.range(0, 9);
  if (kind == 0) {  // many components
    int nc = std::min(r.chance(0.1) ? r.range(20, 200) : r.range(3, 20), R3D_MAX_VERTS / 8);
    if (nc < 1) nc = 1;
    m.name = "many";
    m.comps = 0;
    for (int c = 0; c < nc; ++c) {
      Mesh a = r.chance(0.5) ? g_tet(r) : g_box(r);
      for (auto &v : a.v) { v[0] += 3 * (c % 4); v[1] += 3 * (c / 4); }
      mesh_append(m, a);
      m.comps++;
    }
    snap(m);
    M.say("many components=%d", nc);
  } else if (kind == 1) {  // filled to capacity
    int n = R3D_MAX_VERTS / 2;
    m = g_prism(r, std::max(3, n), r.range(0, 1) * 2);
    snap(m);
    M.say("full prism n=%d", n);
  } else m = new_mesh(r, default_budget(), pl);
  if (!make_poly(r, m, P.p, 0.5)) M.skip("build");
  body = mesh_body(m);
  e = mesh_ext(m);
  if (kind > 1 && r.chance(0.6)) {
    int k = r.range(1, 3);
    std::vector<r3d_plane> rps;
    for (int i = 0; i < k; ++i) {
      int cls;
      Plane<3> q = gen_plane(r, m, e, cls);
      say_plane(q);
      rps.push_back(rp(q));
      body.clip(q);
    }
    if (r3d_clip(P.p, rps.data(), k) != 1) M.skip("capacity");
    ncut = k;
  }
  if (P.p->nverts == 0) M.count("empty_inputs");
  GraphInfo g = check_graph(P.p, 1, "before conversion");
  memcpy(S.p, P.p, sizeof(r3d_poly));
  static r3d_brep stale;
  r3d_brep *br = r.chance(0.5) ? nullptr : &stale;   // whatever the caller's pointer held before
  r3d_int nc = r.chance(0.5) ? -1 : 77;
  std::set<void *> live;
  g_live = &live;
  g_allocs = g_badfree = 0;
  g_track = true;
  r3d_init_brep(P.p, &br, &nc);
  g_track = false;
  M.count("brep_conversions");
  if (memcmp(S.p, P.p, sizeof(r3d_poly))) M.fail("brep-input-modified", "conversion changed the polyhedron");
  if (nc != g.comps) M.fail("brep-components", "%d connected components, %d reported", g.comps, nc);
  LD vol = 0;
  std::vector<LD> mom(4, 0);
  std::set<std::vector<double>> have;
  for (int v = 0; v < P.p->nverts; ++v) have.insert({(double)P.p->verts[v].pos.x, (double)P.p->verts[v].pos.y, (double)P.p->verts[v].pos.z});
  std::set<std::vector<double>> seen;
  int degenerate = 0;
  std::vector<LD> compvol;
  for (int c = 0; c < nc; ++c) {
    Mesh b;
    b.name = "brep";
    if (br[c].numvertices < 0 || br[c].numfaces <= 0) M.fail("brep-shape", "component %d has %d vertices %d faces", c, br[c].numvertices, br[c].numfaces);
    for (int v = 0; v < br[c].numvertices; ++v) {
      r3d_rvec3 q = br[c].vertices[v];
      std::vector<double> w = {(double)q.x, (double)q.y, (double)q.z};
      if (!have.count(w)) M.fail("brep-position", "component %d vertex %d is not a vertex of the polyhedron", c, v);
      seen.insert(w);
      b.v.push_back(mk(q.x, q.y, q.z));
    }
    std::map<std::pair<int, int>, int> ed;
    std::vector<char> touched(br[c].numvertices, 0);
    bool fine = true;
    for (int f = 0; f < br[c].numfaces; ++f) {
      int k = br[c].numvertsperface[f];
      if (k < 0 || k > R3D_MAX_VERTS) M.fail("brep-face", "component %d face %d has %d vertices", c, f, k);
      std::vector<int> ff;
      for (int i = 0; i < k; ++i) {
        int a = br[c].faceinds[f][i];
        if (a < 0 || a >= br[c].numvertices) M.fail("brep-face", "component %d face %d index %d out of range", c, f, a);
        touched[a] = 1;
        ff.push_back(a);
      }
      for (int i = 0; i < k; ++i) {
        int a = ff[i], q = ff[(i + 1) % k];
        if (a == q && k > 1) M.fail("brep-face", "component %d face %d repeats vertex %d", c, f, a);
        ed[{a, q}]++;
        ed[{q, a}]--;
      }
      if (k < 3) { ++degenerate; fine = false; }
      b.f.push_back(ff);
    }
    for (auto &x : ed) if (x.second) M.fail("brep-open", "component %d: edge %d-%d is not shared by two faces in opposite directions", c, x.first.first, x.first.second);
    for (size_t v = 0; v < touched.size(); ++v) if (!touched[v] && fine) M.fail("brep-unused", "component %d: vertex %zu belongs to no face", c, v);
    Body<3> bb = mesh_body(b);
    LD cvv = bb.volume();
    compvol.push_back(cvv);
    vol += cvv;
    auto mm = body_moments<3>(bb, 1);
    for (int j = 0; j < 4; ++j) mom[j] += mm[j];
    M.count("brep_faces", br[c].numfaces);
    // round trip through the constructor
    std::vector<int> deg(b.v.size(), 0);
    std::map<std::pair<int, int>, int> he;
    bool simple = fine;
    for (auto &f : b.f) for (size_t i = 0; i < f.size(); ++i) { deg[f[i]]++; if (++he[{f[i], f[(i + 1) % f.size()]}] > 1) simple = false; }
    for (auto &f : b.f) { std::set<int> u(f.begin(), f.end()); if (u.size() != f.size()) simple = false; }
    for (int dg : deg) if (dg < 3) simple = false;
    if (simple && mesh_corners(b) <= R3D_MAX_VERTS && (ncut == 0 || (int)have.size() == P.p->nverts)) {
      if (ncut) M.count("round_trips_of_clipped");
      PolyBox Q;
      int st = r3d_init_poly(Q.p, br[c].vertices, br[c].numvertices, br[c].faceinds, br[c].numvertsperface, br[c].numfaces);
      if (st != 1) M.fail("brep-roundtrip", "component %d: its boundary representation was refused by the constructor", c);
      check_graph(Q.p, m.sphere ? 2 : 1, "round trip");
      M.close("brep-roundtrip", poly_body(Q.p).volume(), cvv, tol3(e, exps<3>(0)[0], ncut), "round trip volume");
      auto lm = lib_moments(Q.p, 0);
      M.close("brep-roundtrip", lm[0], cvv, tol3(e, exps<3>(0)[0], ncut), "round trip reduced volume");
      M.count("round_trips");
    }
  }
  if (P.p->nverts > 0) {
    M.close("brep-volume", vol, body.volume(), tol3(e, exps<3>(0)[0], ncut), "sum of component volumes");
    const auto &ex = exps<3>(1);
    if (pl.scale < 1e15 && pl.scale > 1e-15) {
      auto bm = body_moments<3>(body, 1);
      for (int j = 1; j < 4; ++j) M.close("brep-moment", mom[j], bm[j], tol3(e, ex[j], ncut), "sum of component first moments", j);
    }
    if (seen.size() != have.size() && !degenerate) M.fail("brep-missing", "%zu of %zu distinct vertex positions appear", seen.size(), have.size());
  }
  // nothing was cut: the loops must be those the polyhedron was built from, each corner listed once
  if (ncut == 0 && P.p->nverts > 0 && strcmp(how_built, "direct")) {
    auto key = [](double x, double y, double z) { return std::vector<double>{x, y, z}; };
    std::set<std::vector<double>> mv;
    for (auto &v : m.v) mv.insert(key((double)v[0], (double)v[1], (double)v[2]));
    if (mv.size() == m.v.size()) {
      auto norm = [](std::vector<std::vector<double>> f) { std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end()); return f; };
      std::multiset<std::vector<std::vector<double>>> want, got;
      for (auto &f : m.f) {
        std::vector<std::vector<double>> l;
        for (int i : f) l.push_back(key((double)m.v[i][0], (double)m.v[i][1], (double)m.v[i][2]));
        want.insert(norm(l));
      }
      size_t nv = 0;
      for (int c = 0; c < nc; ++c) {
        nv += br[c].numvertices;
        for (int f = 0; f < br[c].numfaces; ++f) {
          std::vector<std::vector<double>> l;
          for (int i = 0; i < br[c].numvertsperface[f]; ++i) {
            r3d_rvec3 q = br[c].vertices[br[c].faceinds[f][i]];
            l.push_back(key((double)q.x, (double)q.y, (double)q.z));
          }
          if (l.empty()) M.fail("brep-loops", "component %d face %d is empty", c, f);
          got.insert(norm(l));
        }
      }
      if (nv != m.v.size()) M.fail("brep-merge", "%zu corners, %zu vertices listed", m.v.size(), nv);
      if (got != want) M.fail("brep-loops", "the face loops (%zu) are not those the polyhedron was built from (%zu)", got.size(), want.size());
      M.count("brep_loops_compared", (long)got.size());
    }
  }
  g_track = true;
  r3d_free_brep(&br, nc);
  g_track = false;
  if (g_badfree) M.fail("brep-badfree", "%ld pointers freed that were not live", g_badfree);
  if (!live.empty()) M.fail("brep-leak", "%zu of %ld allocations are still live after release", live.size(), g_allocs);
  M.count("allocations_tracked", g_allocs);
  if (nc > 2) M.count("more_than_two_components");
  M.sig(hashstr(m.name.c_str()), nc, P.p->nverts, degenerate);
}

// ------------------------------------------------------------------ face planes
static void mode_faces() {
  Rng &r = M.rng;
  int kind = r.range(0, 2);
  double sc = pow(10, r.uni(-G_SCALE, G_SCALE)), off = r.chance(0.4) ? pow(10, r.uni(0, G_OFF / 2)) : 0;
  auto unit = [&](const r3d_plane &q, const char *what, int f) {
    LD l = 0;
    for (int i = 0; i < 3; ++i) l += (LD)q.n.xyz[i] * q.n.xyz[i];
    M.close("face-unit", sqrtl(l), 1, 20 * EPS3, what, f);
  };
  auto sd = [&](const r3d_plane &q, const V3 &v) { LD s = q.d; for (int i = 0; i < 3; ++i) s += (LD)q.n.xyz[i] * v[i]; return s; };
  if (kind == 0) {
    r3d_rvec3 v[4];
    Mesh m = g_tet(r);
    for (auto &x : m.v) for (int i = 0; i < 3; ++i) x[i] = sc * (x[i] + off * ((i * 7 % 3) - 1));
    snap(m);
    Ext<3> e = mesh_ext(m);
    LD vol = mesh_body(m).volume();
    if (vol < 1e-4L * e.L * e.L * e.L) M.skip("flat");
    for (int i = 0; i < 4; ++i) v[i] = rv(m.v[i]);
    r3d_plane *f = (r3d_plane *)malloc(4 * sizeof(r3d_plane));
    struct Fr { void *a; ~Fr() { free(a); } } fr{f};
    memset(f, 0x55, 4 * sizeof *f);
    r3d_tet_faces_from_verts(f, v);
    M.count("tet_face_sets");
    // normals are cross products of edges: relative error grows with R/L and flatness
    LD cond = 1;
    for (int k = 0; k < 4; ++k) {
      V3 a = m.v[(k + 1) % 4], b = m.v[(k + 2) % 4], c = m.v[(k + 3) % 4];
      LD u[3], w[3], l = 0;
      for (int i = 0; i < 3; ++i) { u[i] = (LD)b[i] - a[i]; w[i] = (LD)c[i] - a[i]; }
      for (int i = 0; i < 3; ++i) { LD z = u[(i + 1) % 3] * w[(i + 2) % 3] - u[(i + 2) % 3] * w[(i + 1) % 3]; l += z * z; }
      cond = std::max(cond, e.L * e.L / sqrtl(l));
    }
    LD tol = 100 * EPS3 * ((e.Rmax + e.L) + e.L * cond);
    int usedmask = 0;
    for (int k = 0; k < 4; ++k) {
      unit(f[k], "tet face normal length", k);
      int on = 0, opp = -1;
      for (int j = 0; j < 4; ++j) {
        LD s = sd(f[k], m.v[j]);
        if (fabsl(s) <= tol) ++on;
        else opp = j;
      }
      if (on != 3) M.fail("face-plane", "tet plane %d contains %d vertices (tol %.3Lg)", k, on, tol);
      if (!(sd(f[k], m.v[opp]) > 0)) M.fail("face-inward", "tet plane %d does not face the interior", k);
      usedmask |= 1 << opp;
    }
    if (usedmask != 15) M.fail("face-set", "two tet planes coincide");
    // clipping a surrounding box against the planes reproduces the tet
    PolyBox P;
    r3d_rvec3 bb[2];
    for (int i = 0; i < 3; ++i) { bb[0].xyz[i] = (r3d_real)(e.lo[i] - 0.3L * e.L); bb[1].xyz[i] = (r3d_real)(e.hi[i] + 0.3L * e.L); }
    r3d_init_box(P.p, bb);
    if (r3d_clip(P.p, f, 4) != 1) M.skip("capacity");
    Ext<3> eb = e;
    LD t3 = tol3(eb, exps<3>(0)[0], 4) + 4 * tol * e.L * e.L * 10;
    M.close("face-intersection", lib_moments(P.p, 0)[0], vol, t3, "box clipped to the tet");
    M.sig(1, (int)log10(sc), (int)log10(off + 1));
  } else if (kind == 1) {
    r3d_rvec3 b[2];
    for (int k = 0; k < 3; ++k) { double o = off * ((k * 5 % 3) - 1); b[0].xyz[k] = (r3d_real)(sc * (o + r.uni(-1, -0.01))); b[1].xyz[k] = (r3d_real)(sc * (o + r.uni(0.01, 1))); }
    r3d_plane *f = (r3d_plane *)malloc(6 * sizeof(r3d_plane));
    struct Fr { void *a; ~Fr() { free(a); } } fr{f};
    memset(f, 0x55, 6 * sizeof *f);
    r3d_box_faces_from_verts(f, b);
    M.count("box_face_sets");
    int mask = 0;
    for (int k = 0; k < 6; ++k) {
      unit(f[k], "box face normal length", k);
      int ax = -1;
      for (int i = 0; i < 3; ++i) if (fabs((double)f[k].n.xyz[i]) > 0.5) ax = i;
      if (ax < 0) M.fail("face-plane", "box plane %d is not axis aligned", k);
      bool up = f[k].n.xyz[ax] > 0;
      LD where = -f[k].d / f[k].n.xyz[ax];
      M.close("face-plane", where, up ? b[0].xyz[ax] : b[1].xyz[ax], 4 * EPS3 * fabsl(where), "box plane position", k);
      mask |= 1 << (2 * ax + up);
    }
    if (mask != 63) M.fail("face-set", "the six box planes are not the six sides");
    PolyBox P;
    r3d_rvec3 bb[2];
    Ext<3> e;
    for (int i = 0; i < 3; ++i) { bb[0].xyz[i] = b[0].xyz[i] - (b[1].xyz[i] - b[0].xyz[i]); bb[1].xyz[i] = b[1].xyz[i] + (b[1].xyz[i] - b[0].xyz[i]); }
    LD q[3];
    for (int s = 0; s < 2; ++s) { for (int i = 0; i < 3; ++i) q[i] = bb[s].xyz[i]; e.add(q); }
    r3d_init_box(P.p, bb);
    if (r3d_clip(P.p, f, 6) != 1) M.skip("capacity");
    LD vol = 1;
    for (int i = 0; i < 3; ++i) vol *= (LD)b[1].xyz[i] - b[0].xyz[i];
    M.close("face-intersection", lib_moments(P.p, 0)[0], vol, tol3(e, exps<3>(0)[0], 6), "box clipped to the box");
    M.sig(2, (int)log10(sc), (int)log10(off + 1));
  } else {
    Placement pl;
    Mesh m = new_mesh(r, 200, pl);
    mesh_scramble(r, m);
    Ext<3> e = mesh_ext(m);
    int nf = (int)m.f.size();
    std::vector<r3d_rvec3> v;
    for (auto &x : m.v) v.push_back(rv(x));
    std::vector<r3d_int *> fi;
    std::vector<r3d_int> npf;
    for (auto &f : m.f) { fi.push_back(f.data()); npf.push_back((r3d_int)f.size()); }
    r3d_plane *pf = (r3d_plane *)malloc(nf * sizeof(r3d_plane));
    struct Fr { void *a; ~Fr() { free(a); } } fr{pf};
    memset(pf, 0x55, nf * sizeof *pf);
    r3d_poly_faces_from_verts(pf, v.data(), (r3d_int)v.size(), fi.data(), npf.data(), nf);
    M.count("poly_face_sets");
    for (int k = 0; k < nf; ++k) {
      auto &f = m.f[k];
      LD nn[3] = {0, 0, 0}, l = 0, per = 0;
      for (size_t j = 1; j + 1 < f.size(); ++j) {
        LD u[3], w[3];
        for (int i = 0; i < 3; ++i) { u[i] = (LD)m.v[f[j]][i] - m.v[f[0]][i]; w[i] = (LD)m.v[f[j + 1]][i] - m.v[f[0]][i]; }
        for (int i = 0; i < 3; ++i) nn[i] += u[(i + 1) % 3] * w[(i + 2) % 3] - u[(i + 2) % 3] * w[(i + 1) % 3];
      }
      for (size_t j = 0; j < f.size(); ++j) { LD q = 0; for (int i = 0; i < 3; ++i) { LD z = (LD)m.v[f[j]][i] - m.v[f[(j + 1) % f.size()]][i]; q += z * z; } per += sqrtl(q); }
      for (int i = 0; i < 3; ++i) l += nn[i] * nn[i];
      l = sqrtl(l);
      LD R = e.Rmax + e.L;
      // direction error of the face normal: position rounding over the face's thinnest width
      LD ang = 100 * EPS3 * (f.size() + 2) * (R * per + per * per) / l;
      if (!(ang < 1e-3L)) { M.count("faces_too_thin"); continue; }
      unit(pf[k], "face normal length", k);
      LD dotp = 0;
      for (int i = 0; i < 3; ++i) dotp += nn[i] / l * pf[k].n.xyz[i];
      if (!(dotp > 0.99)) M.fail("face-normal", "face %d (%zu corners): normal deviates from the right-hand normal, cosine %.6Lg", k, f.size(), dotp);
      for (int i : f) { LD s = sd(pf[k], m.v[i]); if (!(fabsl(s) <= per * ang + 100 * EPS3 * R)) M.fail("face-plane", "face %d: vertex %d is %.3Lg off its plane", k, i, s); }
      M.count("face_planes_checked");
    }
    M.sig(hashstr(m.name.c_str()), nf, (int)log10(pl.scale));
  }
}

// ------------------------------------------------------------------ transforms
static void mode_xform() {
  Rng &r = M.rng;
  Placement pl;
  Mesh m = new_mesh(r, r.chance(0.1) ? R3D_MAX_VERTS : std::min(60, default_budget()), pl, false);
  PolyBox P, S;
  if (r.chance(0.03)) P.p->nverts = 0;
  else if (!make_poly(r, m, P.p)) M.skip("build");
  for (int step = 0, ns = r.range(1, 3); step < ns; ++step) {
    memcpy(S.p, P.p, sizeof(r3d_poly));
    Ext<3> e0 = poly_ext(S.p);
    if (!e0.any) { LD z[3] = {1, 1, 1}; e0.add(z); }
    LD A[3][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}}, w4[4] = {0, 0, 0, 1};
    int op = r.range(0, 4);
    if (op == 0) {
      int ax = r.range(0, 2);
      double th = xf_angle(r);
      r3d_real t = (r3d_real)th;
      LD c = cosl(t), s = sinl(t);
      int a = (ax + 1) % 3, b = (ax + 2) % 3;
      A[a][a] = c; A[a][b] = -s; A[b][a] = s; A[b][b] = c;
      if (r.chance(0.5)) {   // a nearly equal rotation of something else just before
        static r3d_poly q;
        r3d_rvec3 bb[2] = {{{0, 0, 0}}, {{1, 1, 1}}};
        r3d_init_box(&q, bb);
        r3d_rotate(&q, (r3d_real)(th * (1 + pow(10, r.uni(-12, -2)))), ax);
      }
      r3d_rotate(P.p, t, ax);
      M.say("rotate %.17g about %d", th, ax);
    } else if (op == 1) {
      r3d_rvec3 s;
      for (int i = 0; i < 3; ++i) { s.xyz[i] = (r3d_real)(r.chance(0.2) ? 0 : e0.L * r.uni(-3, 3)); A[i][3] = s.xyz[i]; }
      r3d_translate(P.p, s);
      M.say("translate");
    } else if (op == 2) {
      r3d_real s = (r3d_real)xf_factor(r);
      for (int i = 0; i < 3; ++i) A[i][i] = s;
      r3d_scale(P.p, s);
      M.say("scale %g", (double)s);
    } else if (op == 3) {
      r3d_real s = (r3d_real)(r.chance(0.3) ? xf_factor(r) : r.uni(-2, 2));
      int b = r.range(0, 2), q = (b + r.range(r.chance(0.2) ? 0 : 1, 2)) % 3;
      if (q == b) s = std::fabs(s);   // along its own axis: a stretch
      A[b][q] += s;
      r3d_shear(P.p, s, b, q);
      M.say("shear %g axes %d %d", (double)s, b, q);
    } else {
      r3d_real mat[4][4], keep[4][4];
      std::vector<std::vector<LD>> pts;
      for (int v = 0; v < S.p->nverts; ++v) pts.push_back({S.p->verts[v].pos.x, S.p->verts[v].pos.y, S.p->verts[v].pos.z});
      bool ok = false;
      for (int a = 0; a < 20 && !ok; ++a) ok = xf_matrix(r, 3, &mat[0][0], (double)e0.L, (double)e0.Rmax, pts);
      if (!ok) M.skip("matrix");
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) A[i][j] = mat[i][j];
      bool persp = mat[3][0] != 0 || mat[3][1] != 0 || mat[3][2] != 0;
      M.count(persp ? "projective_maps" : "affine_maps");
      for (int j = 0; j < 4; ++j) w4[j] = mat[3][j];
      memcpy(keep, mat, sizeof mat);
      r3d_affine(P.p, mat);
      if (memcmp(keep, mat, sizeof mat)) M.fail("xform-matrix-modified", "the matrix was written to");
      M.say("affine persp=%d w=%g", persp, (double)w4[3]);
    }
    M.count("transforms");
    if (P.p->nverts != S.p->nverts) M.fail("xform-count", "vertex count changed");
    for (int v = 0; v < P.p->nverts; ++v) {
      for (int k = 0; k < 3; ++k) if (P.p->verts[v].pnbrs[k] != S.p->verts[v].pnbrs[k]) M.fail("xform-graph", "connectivity changed");
      LD w = w4[3], wm = fabsl(w4[3]);
      for (int j = 0; j < 3; ++j) { w += w4[j] * S.p->verts[v].pos.xyz[j]; wm += fabsl(w4[j] * S.p->verts[v].pos.xyz[j]); }
      for (int i = 0; i < 3; ++i) {
        LD x = A[i][3], mag = fabsl(A[i][3]);
        for (int j = 0; j < 3; ++j) { x += A[i][j] * S.p->verts[v].pos.xyz[j]; mag += fabsl(A[i][j] * S.p->verts[v].pos.xyz[j]); }
        M.close("xform-position", P.p->verts[v].pos.xyz[i], x / w, 30 * EPS3 * mag / fabsl(w) * (wm / fabsl(w)) + 10 * (LD)std::numeric_limits<r3d_real>::min(), "transformed coordinate", i);
      }
      M.count("vertices_checked");
    }
    for (int v = P.p->nverts; v < R3D_MAX_VERTS; ++v)
      if (memcmp(&P.p->verts[v], &S.p->verts[v], sizeof(r3d_vertex))) M.fail("xform-slack", "an unused vertex slot was written");
    M.sig(hashstr(m.name.c_str()), op, step, P.p->nverts);
  }
}

// ------------------------------------------------------------------ orientation predicate
static void mode_orient() {
  Rng &r = M.rng;
  double sc = pow(10, r.uni(-G_SCALE, G_SCALE)), off = r.chance(0.5) ? pow(10, r.uni(0, G_OFF)) : 0;
  r3d_rvec3 v[4], v0[4];
  Simp<3> s;
  int flat = r.range(0, 5);
  for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) {
    double x = r.uni(-1, 1);
    if (flat == 0 && i == 3) x = 0;
    if (flat == 1) x = r.range(-3, 3);
    v[i].xyz[k] = (r3d_real)(sc * (x + off * (k - 1)));
  }
  if (flat == 2) v[r.range(0, 3)] = v[r.range(0, 3)];
  if (flat == 3) { double a = r.uni(0, 1), b = r.uni(0, 1); for (int k = 0; k < 3; ++k) v[3].xyz[k] = (r3d_real)(v[0].xyz[k] + a * (v[1].xyz[k] - v[0].xyz[k]) + b * (v[2].xyz[k] - v[0].xyz[k])); }
  memcpy(v0, v, sizeof v);
  Ext<3> e;
  for (int i = 0; i < 4; ++i) { LD q[3]; for (int k = 0; k < 3; ++k) { q[k] = v[i].xyz[k]; s.x[i][k] = q[k]; } e.add(q); }
  LD want = simp_det<3>(s) / 6;
  r3d_real got = r3d_orient(v);
  if (memcmp(v, v0, sizeof v)) M.fail("orient-input-modified", "vertices changed");
  LD tol = 50 * EPS3 * e.L * e.L * e.L + 1000 * (LD)std::numeric_limits<r3d_real>::min();
  M.close("orient", got, want, tol, "signed volume");
  M.count("orient_calls");
  // permutations
  int p[4] = {0, 1, 2, 3}, sg = 1;
  for (int k = 3; k > 0; --k) { int j = r.range(0, k); if (j != k) { std::swap(p[j], p[k]); sg = -sg; } }
  r3d_rvec3 w[4];
  for (int i = 0; i < 4; ++i) w[i] = v[p[i]];
  M.close("orient-permuted", r3d_orient(w), sg * want, tol, "permuted signed volume");
  PolyBox P;
  r3d_init_tet(P.p, v);
  M.close("orient-tet", lib_moments(P.p, 0)[0], want, tol3(e, exps<3>(0)[0], 0), "volume of the tetrahedron");
  M.say("scale=%g off=%g flat=%d", sc, off, flat);
  M.sig(flat, sg, want > 0 ? 1 : want < 0 ? 2 : 3, (int)log10(sc));
}

// ------------------------------------------------------------------ validity checker
static bool oracle_good(const r3d_poly *P) {
  int n = P->nverts;
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) {
    int w = P->verts[v].pnbrs[k];
    if (w < 0 || w >= n || w == v) return false;
    if (w == P->verts[v].pnbrs[(k + 1) % 3]) return false;
  }
  std::vector<int> in(n, 0);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) in[P->verts[v].pnbrs[k]]++;
  for (int v = 0; v < n; ++v) if (in[v] != 3) return false;
  std::vector<int> reg(n, -1), st;
  int c = 0;
  for (int v = 0; v < n; ++v) {
    if (reg[v] >= 0) continue;
    st.assign(1, v); reg[v] = c;
    while (!st.empty()) { int q = st.back(); st.pop_back(); for (int k = 0; k < 3; ++k) { int w = P->verts[q].pnbrs[k]; if (reg[w] < 0) { reg[w] = c; st.push_back(w); } } }
    ++c;
  }
  return three_connected(P, reg);
}
static bool symmetric_links(const r3d_poly *P) {
  for (int v = 0; v < P->nverts; ++v) for (int k = 0; k < 3; ++k) {
    int w = P->verts[v].pnbrs[k];
    if (w < 0 || w >= P->nverts) return true;
    bool back = false;
    for (int j = 0; j < 3; ++j) back |= P->verts[w].pnbrs[j] == v;
    if (!back) return false;
  }
  return true;
}
// defects that make a graph unacceptable whatever else it looks like
static bool defective_links(const r3d_poly *P) {
  int n = P->nverts;
  std::vector<int> in(n, 0);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) {
    int w = P->verts[v].pnbrs[k];
    if (w < 0 || w >= n || w == v || w == P->verts[v].pnbrs[(k + 1) % 3]) return true;
    in[w]++;
  }
  for (int v = 0; v < n; ++v) if (in[v] != 3) return true;
  return false;
}
static void mode_isgood() {
  Rng &r = M.rng;
  PolyBox P, S;
  int cap = std::min(R3D_MAX_VERTS, r.chance(0.03) ? 200 : 44);
  int kind = r.range(0, 10);
  bool huge = r.chance(0.006) && R3D_MAX_VERTS > 200;   // judged by connectivity at (nearly) every slot in use
  if (huge) { static const int ks[4] = {0, 5, 5, 9}; kind = ks[r.range(0, 3)]; M.count("huge_graphs"); }
  auto any_mesh = [&](int c, Placement &pl) {
    if (huge) return g_prism(r, (int)(c / 2 * (r.chance(0.5) ? 1.0 : r.uni(0.6, 1))), r.range(0, 2));
    return gen_mesh(r, c, pl);
  };
  if (huge) cap = R3D_MAX_VERTS;
  const char *k = "";
  auto edges_to_poly = [&](int n, const std::vector<std::pair<int, int>> &ed) {
    std::vector<int> d(n, 0);
    P.p->nverts = n;
    for (int v = 0; v < n; ++v) { for (int j = 0; j < 3; ++j) { P.p->verts[v].pnbrs[j] = -1; P.p->verts[v].pos.xyz[j] = (r3d_real)r.uni(-1, 1); } }
    for (auto &e : ed) { P.p->verts[e.first].pnbrs[d[e.first]++] = e.second; P.p->verts[e.second].pnbrs[d[e.second]++] = e.first; }
  };
  if (kind <= 2) {
    k = "valid";
    Placement pl;
    Mesh m;
    do m = any_mesh(cap, pl); while (!m.sphere);
    snap(m);
    if (!build_poly(r, m, P.p)) M.skip("build");
    if (!huge && r.chance(0.4)) {
      int cls;
      Plane<3> q = gen_plane(r, m, mesh_ext(m), cls);
      r3d_plane rq = rp(q);
      if (r3d_clip(P.p, &rq, 1) != 1) M.skip("capacity");
    }
  } else if (kind == 3 || kind == 4) {
    k = "random cubic";   // random perfect matchings: often not 3-connected, sometimes disconnected
    int n = 2 * r.range(2, std::min(cap, 30) / 2);
    bool ok = false;
    std::vector<std::pair<int, int>> ed;
    for (int t = 0; t < 200 && !ok; ++t) {
      std::vector<int> s;
      for (int v = 0; v < n; ++v) for (int j = 0; j < 3; ++j) s.push_back(v);
      r.shuffle(s);
      ed.clear();
      std::set<std::pair<int, int>> u;
      ok = true;
      for (size_t i = 0; i < s.size(); i += 2) {
        int a = std::min(s[i], s[i + 1]), b = std::max(s[i], s[i + 1]);
        if (a == b || !u.insert({a, b}).second) { ok = false; break; }
        ed.push_back({a, b});
      }
    }
    if (!ok) { n = 4; ed = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}; }
    edges_to_poly(n, ed);
  } else if (kind == 5) {
    k = "two-connected";   // two valid graphs joined through a 2-edge cut, or a necklace of them
    Placement pl;
    Mesh m;
    int parts = r.range(2, 3);
    int base = 0;
    P.p->nverts = 0;
    std::vector<std::pair<int, int>> cut;
    for (int q = 0; q < parts; ++q) {
      PolyBox T;
      do m = any_mesh(std::max(4, cap / parts - 1), pl); while (!m.sphere || m.comps != 1);
      snap(m);
      if (!build_poly(r, m, T.p)) M.skip("build");
      if (base + T.p->nverts > R3D_MAX_VERTS) M.skip("size");
      for (int v = 0; v < T.p->nverts; ++v) { P.p->verts[base + v] = T.p->verts[v]; for (int j = 0; j < 3; ++j) P.p->verts[base + v].pnbrs[j] += base; }
      int a = base + r.range(0, T.p->nverts - 1);
      cut.push_back({a, P.p->verts[a].pnbrs[r.range(0, 2)]});
      base += T.p->nverts;
    }
    P.p->nverts = base;
    // open the chosen edge of every part and chain them in a ring
    auto relink = [&](int v, int from, int to) { for (int j = 0; j < 3; ++j) if (P.p->verts[v].pnbrs[j] == from) { P.p->verts[v].pnbrs[j] = to; return; } };
    for (int q = 0; q < parts; ++q) {
      int nq = (q + 1) % parts;
      relink(cut[q].second, cut[q].first, cut[nq].first);
    }
    for (int q = 0; q < parts; ++q) {
      int pq = (q + parts - 1) % parts;
      relink(cut[q].first, cut[q].second, cut[pq].second);
    }
  } else {
    k = "corrupted";
    Placement pl;
    Mesh m;
    bool full = kind != 9 && r.chance(0.1);   // every vertex slot in use
    if (full) { m = g_prism(r, R3D_MAX_VERTS / 2, r.range(0, 2)); M.count("full_buffer_graphs"); }
    else do m = any_mesh(cap, pl); while (!m.sphere);
    snap(m);
    if (!build_poly(r, m, P.p)) M.skip("build");
    int n = P.p->nverts, v = r.range(0, n - 1), j = r.range(0, 2);
    if (r.chance(0.1)) v = n - 1;
    switch (kind) {
      case 10: {  // somebody else's neighbour: in-degrees two and four
        int w = r.chance(0.2) ? n - 1 : r.range(0, n - 1);
        if (w == v || w == P.p->verts[v].pnbrs[0] || w == P.p->verts[v].pnbrs[1] || w == P.p->verts[v].pnbrs[2]) M.skip("same");
        P.p->verts[v].pnbrs[j] = w;
        k = "redirected link";
        break;
      }
      case 6: P.p->verts[v].pnbrs[j] = P.p->verts[v].pnbrs[(j + 1) % 3]; k = "double edge"; break;
      case 7: {
        int c = r.range(0, 5);
        P.p->verts[v].pnbrs[j] = c == 0 ? n : c == 1 ? -1 : c == 2 ? R3D_MAX_VERTS : c == 3 ? INT32_MAX : c == 4 ? INT32_MIN : n + r.range(1, 1000);
        k = "pointer out of range";
        break;
      }
      case 8: {  // self pointing vertices; keep all counts at three
        if (r.chance(0.5)) {
          P.p->nverts = 3;
          for (int q = 0; q < 3; ++q) for (int t = 0; t < 3; ++t) P.p->verts[q].pnbrs[t] = (q + t) % 3;
          k = "three self-pointing";
        } else { P.p->verts[v].pnbrs[j] = v; k = "self pointing"; }
        break;
      }
      case 9: {  // swap two endpoints -> a different cubic graph, symmetric
        int a = v, b = P.p->verts[a].pnbrs[j];
        int c = r.range(0, n - 1), d = P.p->verts[c].pnbrs[r.range(0, 2)];
        auto adj = [&](int x, int y) { for (int t = 0; t < 3; ++t) if (P.p->verts[x].pnbrs[t] == y) return true; return false; };
        auto relink = [&](int x, int from, int to) { for (int t = 0; t < 3; ++t) if (P.p->verts[x].pnbrs[t] == from) { P.p->verts[x].pnbrs[t] = to; return; } };
        std::set<int> u = {a, b, c, d};
        if (u.size() == 4 && !adj(a, c) && !adj(b, d)) { relink(a, b, c); relink(b, a, d); relink(c, d, a); relink(d, c, b); }
        k = "edge swap";
        break;
      }
    }
  }
  memcpy(S.p, P.p, sizeof(r3d_poly));
  M.say("%s n=%d", k, P.p->nverts);
  int got = r3d_is_good(P.p);
  M.count("is_good_calls");
  if (memcmp(S.p, P.p, sizeof(r3d_poly))) M.fail("isgood-input-modified", "the validity check changed the polyhedron");
  if (got != 0 && got != 1) M.fail("isgood-value", "returned %d", got);
  bool defective = defective_links(P.p);
  if (!defective && !symmetric_links(P.p)) { M.count("one_way_links_not_judged"); M.sig(hashstr(k), P.p->nverts, 5); return; }
  bool want = !defective && oracle_good(P.p);
  if (got != (int)want) M.fail("isgood", "%s graph with %d vertices: answered %d, expected %d", k, P.p->nverts, got, want);
  M.count(want ? "accepted" : "rejected");
  M.sig(hashstr(k), P.p->nverts, want);
}

// ------------------------------------------------------------------ graph validity over histories
static void mode_history() {
  Rng &r = M.rng;
  Placement pl;
  int budget = r.chance(0.1) ? R3D_MAX_VERTS / 2 : default_budget();
  Mesh m = new_mesh(r, budget, pl, false);
  int lev = glevel(m);
  std::vector<r3d_poly> pool;
  pool.reserve(8);  // references into it stay valid
  pool.resize(1);
  if (!make_poly(r, m, &pool[0])) M.skip("build");
  check_graph(&pool[0], lev, "initial", 40);
  Ext<3> e0 = mesh_ext(m);
  int steps = r.range(2, 12);
  static r3d_poly po, ne;
  for (int s = 0; s < steps; ++s) {
    int i = r.range(0, (int)pool.size() - 1);
    r3d_poly &Q = pool[i];
    if (Q.nverts == 0) { M.count("empty_operand"); }
    Ext<3> e = Q.nverts ? poly_ext(&Q) : e0;
    Plane<3> q;
    if (Q.nverts && r.chance(0.3)) {
      // plane through existing vertices of the current polyhedron: cuts through earlier cut corners
      LD n[3], pt[3];
      V3 sp = on_sphere(r);
      int a = r.range(0, Q.nverts - 1), b = Q.verts[a].pnbrs[r.range(0, 2)], c = Q.verts[b].pnbrs[r.range(0, 2)];
      LD u[3], w[3], l = 0;
      for (int k = 0; k < 3; ++k) { u[k] = (LD)Q.verts[b].pos.xyz[k] - Q.verts[a].pos.xyz[k]; w[k] = (LD)Q.verts[c].pos.xyz[k] - Q.verts[a].pos.xyz[k]; pt[k] = Q.verts[a].pos.xyz[k]; n[k] = sp[k]; }
      LD z[3];
      for (int k = 0; k < 3; ++k) { z[k] = u[(k + 1) % 3] * w[(k + 2) % 3] - u[(k + 2) % 3] * w[(k + 1) % 3]; l += z[k] * z[k]; }
      if (l > 1e-14L * e.L * e.L * e.L * e.L) for (int k = 0; k < 3; ++k) n[k] = z[k];
      q = plane_thru(n, pt);
    } else { int cls; q = gen_plane(r, m, e, cls); }
    r3d_plane rq = rp(q);
    bool was_empty = Q.nverts == 0;
    Ext<3> ee = e;
    ee.Rmax = std::max(ee.Rmax, std::min(fabsl(q.d), 1000 * (e.Rmax + e.L)));
    LD vtol = tol3(ee, exps<3>(0)[0], 2);
    switch (r.range(0, 6)) {
      case 0: case 1: {
        r3d_poly t = Q;
        r3d_plane two[2] = {rq, rq};
        int np = r.chance(0.25) ? 2 : 1;
        Plane<3> q2 = q;
        if (np == 2) { int cls; q2 = gen_plane(r, m, e, cls); two[1] = rp(q2); }
        if (r3d_clip(&t, two, np) != 1 && Q.nverts > 0) { M.count("capacity_reported"); break; }
        Body<3> b = poly_body(&Q);
        b.clip(q);
        if (np == 2) b.clip(q2);
        Q = t;
        check_graph(&Q, lev, "clip in history", 40);
        M.close("history-volume", poly_body(&Q).volume(), b.volume(), vtol, "volume after clip");
        M.count("history_clips");
        break;
      }
      case 6: {   // clamping to a range of cells clips too
        r3d_rvec3 d;
        r3d_dvec3 ib[2], cl[2];
        for (int k = 0; k < 3; ++k) d.xyz[k] = (r3d_real)((e.hi[k] - e.lo[k] + 0.1L * e.L) * r.uni(0.2, 2));
        r3d_get_ibox(&Q, ib, d);
        bool ok = true;
        for (int k = 0; k < 3; ++k) {
          if (ib[1].ijk[k] - ib[0].ijk[k] > 100000 || abs(ib[0].ijk[k]) > 1000000) ok = false;
          cl[0].ijk[k] = ib[0].ijk[k] + r.range(-1, 1);
          cl[1].ijk[k] = std::max(cl[0].ijk[k] + 1, ib[1].ijk[k] + r.range(-1, 1));
        }
        if (!ok) break;
        r3d_poly t = Q;
        LD before = poly_body(&Q).volume();
        if (VOX_STATUS(r3d_clamp_ibox(&t, ib, cl, d)) != 1) { M.count("capacity_reported"); break; }
        Q = t;
        check_graph(&Q, lev, "clamp in history", 40);
        if (m.convex && m.comps == 1 && fabsl(poly_body(&Q).volume()) > fabsl(before) + vtol) M.fail("history-volume", "clamping enlarged the polyhedron");
        M.count("history_clamps");
        break;
      }
      case 2: case 3: {
        r3d_poly t = Q;
        if (r3d_split(&t, 1, rq, &po, &ne) != 1) { M.count("capacity_reported"); break; }
        check_graph(&po, lev, "split+ in history", 40);
        check_graph(&ne, lev, "split- in history", 40);
        M.close("history-volume", poly_body(&po).volume() + poly_body(&ne).volume(), poly_body(&Q).volume(), vtol, "volume of both parts");
        if (was_empty && (po.nverts || ne.nverts)) M.fail("history-empty", "splitting an empty polyhedron gave %d/%d vertices", po.nverts, ne.nverts);
        Q = po;
        if (pool.size() < 5) pool.push_back(ne);
        M.count("history_splits");
        break;
      }
      case 4: {
        switch (r.range(0, 3)) {
          case 0: r3d_rotate(&Q, (r3d_real)r.uni(-4, 4), r.range(0, 2)); break;
          case 1: { r3d_rvec3 t; for (int k = 0; k < 3; ++k) t.xyz[k] = (r3d_real)(e.L * r.uni(-1, 1)); r3d_translate(&Q, t); break; }
          case 2: r3d_scale(&Q, (r3d_real)r.uni(0.3, 2)); break;
          case 3: r3d_shear(&Q, (r3d_real)r.uni(-1, 1), 0, r.range(1, 2)); break;
        }
        check_graph(&Q, lev, "transform in history", 20);
        M.count("history_transforms");
        break;
      }
      case 5: {
        if (Q.nverts == 0 || Q.nverts > R3D_MAX_VERTS / 4) break;
        r3d_brep *br = nullptr; r3d_int nc = 0;
        r3d_init_brep(&Q, &br, &nc);
        std::set<std::array<LD, 3>> dist;
        for (int v = 0; v < Q.nverts; ++v) dist.insert({Q.verts[v].pos.x, Q.verts[v].pos.y, Q.verts[v].pos.z});
        if (nc == 1 && (int)dist.size() == Q.nverts && r.chance(0.5)) {   // continue from the re-initialised solid
          static r3d_poly again;
          LD before = poly_body(&Q).volume();
          if (r3d_init_poly(&again, br[0].vertices, br[0].numvertices, br[0].faceinds, br[0].numvertsperface, br[0].numfaces) == 1) {
            check_graph(&again, lev, "re-initialised in history", 40);
            M.close("history-volume", poly_body(&again).volume(), before, vtol, "volume after re-initialisation");
            M.count("history_reinits");
            r3d_free_brep(&br, nc);
            Q = again;
            break;
          }
        }
        r3d_free_brep(&br, nc);
        M.count("history_breps");
        break;
      }
    }
    if (was_empty && Q.nverts) M.fail("history-empty", "step %d: an empty polyhedron became non-empty", s);
    if (Q.nverts > 0 && Q.nverts <= 24 && m.sphere) {
      M.count("is_good_calls");
      if (r3d_is_good(&Q) != 1) M.fail("history-not-good", "step %d: the validity checker rejects a polyhedron with %d vertices", s, Q.nverts);
    }
  }
  for (auto &Q : pool) if (Q.nverts) {
    int used = 0;
    GraphInfo g = check_graph(&Q, lev, "final", 30);
    (void)used;
    M.sig(hashstr(m.name.c_str()), Q.nverts, g.comps, g.maxface);
  }
}

// ------------------------------------------------------------------ capacity
static void mode_capacity() {
  Rng &r = M.rng;
  int cap = R3D_MAX_VERTS;
  int op = r.range(0, 3);
  Mesh m;
  // sizes around what just fits
  int style = r.range(0, 4);
  auto sized_prism = [&](int target, int st) { return g_prism(r, std::max(3, target), st); };
  if (op == 2) {  // constructor
    switch (style) {
      case 0: m = sized_prism(cap / 2 + r.range(-2, 2), 0); break;
      case 1: m = g_pyramid(r, std::max(3, cap / 4 + r.range(-2, 2)), 0); break;      // corners 4n
      case 2: m = g_bipyramid(r, std::max(3, cap / 6 + r.range(-2, 2)), 0); break;    // corners 6n
      case 3: m = g_pyramid(r, std::max(3, cap / 2 + r.range(-3, 3)), 0); break;      // cubic count 2n-2
      default: m = g_hull(r, std::max(4, std::min(90, cap / 6 + 2 + r.range(-2, 2))), 0); break;
    }
    snap(m);
    mesh_scramble(r, m);
    int nv = (int)m.v.size(), corners = mesh_corners(m), cubic = mesh_cubic(m);
    std::vector<int> deg(nv, 0);
    for (auto &f : m.f) for (int i : f) deg[i]++;
    int maxdeg = *std::max_element(deg.begin(), deg.end());
    std::vector<r3d_rvec3> v;
    for (auto &x : m.v) v.push_back(rv(x));
    std::vector<r3d_int *> fi;
    std::vector<r3d_int> npf;
    for (auto &f : m.f) { fi.push_back(f.data()); npf.push_back((r3d_int)f.size()); }
    PolyBox P;
    M.say("construct %s nv=%d corners=%d cubic=%d cap=%d", m.name.c_str(), nv, corners, cubic, cap);
    int st = r3d_init_poly(P.p, v.data(), nv, fi.data(), npf.data(), (r3d_int)npf.size());
    bool mustfit = maxdeg == 3 ? nv <= cap : (corners <= cap);
    bool mustfail = (maxdeg == 3 ? nv : cubic) > cap;
    if (st == 1) {
      if (mustfail) M.fail("capacity-init", "success reported but %d vertices are needed", maxdeg == 3 ? nv : cubic);
      check_graph(P.p, 2, "constructed at capacity");
      Ext<3> e = mesh_ext(m);
      M.close("capacity-init-volume", lib_moments(P.p, 0)[0], mesh_body(m).volume(), tol3(e, exps<3>(0)[0], 0), "volume");
      M.count("fits");
      if (P.p->nverts == cap) M.count("exact_fits");
    } else {
      if (mustfit) M.fail("capacity-init", "refused although it fits");
      M.count("refused");
    }
    M.sig(2, style, corners - cap, st);
    return;
  }
  // clip / split: nverts + new vertices around the capacity
  int fac = op == 1 ? 2 : 1;
  int n, cuts;
  Plane<3> q;
  bool across = r.chance(0.5);
  if (across) {
    // horizontal cut of a prism: n side edges are cut; nverts = 2n
    n = std::max(3, cap / (2 + fac) + r.range(-2, 2));
    if (2 * n > cap) n = cap / 2;
    m = g_prism(r, std::max(3, n), r.range(0, 1) * 2);
    cuts = (int)m.v.size() / 2;
    LD nn[3] = {0, 0, r.chance(0.5) ? 1.0L : -1.0L}, pt[3] = {0, 0, 0.01L};
    q = plane_thru(nn, pt);
  } else {
    // vertical cut of a comb: many edges
    int teeth = std::max(2, cap / (8 + 4 * fac) + r.range(-1, 2));
    m = g_comb(r, teeth);
    for (auto &v : m.v) if (v[1] > 0.25) v[1] = 0.9;
    LD nn[3] = {0, r.chance(0.5) ? 1.0L : -1.0L, 0}, pt[3] = {0, 0.1L, 0};
    q = plane_thru(nn, pt);
    cuts = 4 * teeth;
  }
  snap(m);
  PolyBox P;
  if (mesh_cubic(m) > cap || !build_poly(r, m, P.p)) M.skip("size");
  Ext<3> e = mesh_ext(m);
  r3d_plane rq = rp(q);
  int lo, hi; bool ms;
  crossings(P.p, rq, lo, hi, ms);
  (void)cuts;
  int n0 = P.p->nverts;
  M.say("%s %s n=%d crossing=%d cap=%d", op == 1 ? "split" : "clip", m.name.c_str(), n0, hi, cap);
  if (op == 1) {
    // second element of an array overflows as well as the first
    int pos = r.range(0, 1);
    r3d_poly *in = (r3d_poly *)malloc(2 * sizeof(r3d_poly)), *po = (r3d_poly *)malloc(2 * sizeof(r3d_poly)), *ne = (r3d_poly *)malloc(2 * sizeof(r3d_poly));
    struct Fr { void *a, *b, *c; ~Fr() { free(a); free(b); free(c); } } fr{in, po, ne};
    memset((void *)po, 0x5f, 2 * sizeof(r3d_poly));
    memset((void *)ne, 0x5f, 2 * sizeof(r3d_poly));
    r3d_rvec3 tv[4];
    Mesh tt = g_tet(r);
    for (int i = 0; i < 4; ++i) tv[i] = rv(tt.v[i]);
    in[pos] = *P.p;
    r3d_init_tet(&in[1 - pos], tv);
    int st = r3d_split(in, 2, rq, po, ne);
    if (st == 1) {
      if (n0 + 2 * lo > cap) M.fail("capacity-split", "success reported but %d vertices are needed", n0 + 2 * lo);
      check_graph(&po[pos], 2, "split at capacity +");
      check_graph(&ne[pos], 2, "split at capacity -");
      Body<3> b = mesh_body(m);
      b.clip(q);
      M.close("capacity-split-volume", lib_moments(&po[pos], 0)[0], b.volume(), tol3(e, exps<3>(0)[0], 1), "volume");
      M.count("fits");
      if (n0 + 2 * hi == cap) M.count("exact_fits");
    } else {
      if (n0 + 2 * hi <= cap) M.fail("capacity-split", "refused although %d <= %d", n0 + 2 * hi, cap);
      M.count("refused");
    }
    M.sig(1, across, n0 + 2 * hi - cap, st);
  } else {
    // optionally bury the critical plane behind harmless ones
    std::vector<r3d_plane> pls;
    int before = op == 3 ? r.range(1, 3) : 0;
    for (int i = 0; i < before; ++i) { r3d_plane f; for (int k = 0; k < 3; ++k) f.n.xyz[k] = k == i % 3; f.d = 100; pls.push_back(f); }
    pls.push_back(rq);
    int st = r3d_clip(P.p, pls.data(), (r3d_int)pls.size());
    if (st == 1) {
      if (n0 + lo > cap) M.fail("capacity-clip", "success reported but %d vertices are needed", n0 + lo);
      check_graph(P.p, 2, "clip at capacity");
      Body<3> b = mesh_body(m);
      b.clip(q);
      M.close("capacity-clip-volume", lib_moments(P.p, 0)[0], b.volume(), tol3(e, exps<3>(0)[0], 1), "volume");
      M.count("fits");
      if (n0 + hi == cap) M.count("exact_fits");
    } else {
      if (n0 + hi <= cap) M.fail("capacity-clip", "refused although %d <= %d", n0 + hi, cap);
      M.count("refused");
    }
    M.sig(0, across, n0 + hi - cap, st);
  }
}
// voxelization of bodies that are too large to be divided
static void mode_capvox() {
  Rng &r = M.rng;
  int cap = R3D_MAX_VERTS;
  Mesh m;
  bool onecut = r.chance(0.5);
  if (onecut) m = g_prism(r, std::max(3, cap / 4 + r.range(-1, 2)), 0);
  else if (r.chance(0.5)) m = g_comb(r, std::max(2, cap / r.range(6, 20) + r.range(-1, 1)));
  else m = g_prism(r, std::max(3, cap / r.range(2, 5) + r.range(-2, 0)), 0);
  if (mesh_cubic(m) > cap) M.skip("size");
  double sc = onecut ? 1 : r.uni(0.5, 2);
  // a single cut along a grid plane: the body straddles one plane and lies within one column of cells
  if (onecut) { int ax = r.range(0, 2); for (auto &v : m.v) { V3 w = v; w[0] += 2; w[1] += 2; w[2] -= 0.01; for (int i = 0; i < 3; ++i) v[(i + ax) % 3] = w[i]; } }
  for (auto &v : m.v) for (int i = 0; i < 3; ++i) v[i] *= sc;
  snap(m);
  PolyBox P, S;
  if (!build_poly(r, m, P.p)) M.skip("build");
  Ext<3> e = mesh_ext(m);
  r3d_rvec3 d;
  for (int i = 0; i < 3; ++i) d.xyz[i] = (r3d_real)(onecut ? r.uni(5, 9) : e.L / r.uni(0.7, 5));
  r3d_dvec3 ib[2];
  r3d_get_ibox(P.p, ib, d);
  long nc = 1;
  for (int i = 0; i < 3; ++i) nc *= ib[1].ijk[i] - ib[0].ijk[i];
  memcpy(S.p, P.p, sizeof(r3d_poly));
  r3d_real *grid = (r3d_real *)calloc(nc, sizeof(r3d_real));
  struct Fr { void *a; ~Fr() { free(a); } } fr{grid};
  M.say("voxelize %s n=%d cap=%d cells=%ld", m.name.c_str(), P.p->nverts, cap, nc);
  // upper bound of what any intermediate division can need
  bool surelyfits = 2 * (P.p->nverts + 3 * P.p->nverts) <= cap;
  int need = 0;
  if (onecut && nc == 2) {
    Plane<3> q; q.n[0] = q.n[1] = q.n[2] = 0; q.d = 0;
    for (int i = 0; i < 3; ++i) if (ib[1].ijk[i] - ib[0].ijk[i] == 2) q.n[i] = 1;
    int lo, hi; bool ms;
    crossings(P.p, rp(q), lo, hi, ms);
    need = P.p->nverts + 2 * hi;
    if (need <= cap) surelyfits = true;
    if (need == cap) M.count("exact_fits");
    M.say("one cut, %d needed", need);
  }
  // does the very first cut already not fit? follow the published scheme: halve the longest axis
  int st = VOX_STATUS(r3d_voxelize(P.p, ib, grid, d, 0));
  M.count("voxelize_calls");
  if (memcmp(S.p, P.p, sizeof(r3d_poly))) M.fail("vox-input-modified", "voxelization changed the polyhedron");
  LD sum = 0;
  for (long c = 0; c < nc; ++c) sum += grid[c];
  LD want = mesh_body(m).volume();
  if (st == 1) { M.close("capacity-vox", sum, want, tol3(e, exps<3>(0)[0], 20), "sum over cells"); M.count("fits"); }
  else { if (surelyfits) M.fail("capacity-vox", "refused although it fits"); M.count("refused"); }
  M.sig(3, st, P.p->nverts, nc);
}

// ------------------------------------------------------------------ hostile but legal use of every entry point
static void mode_mem() {
  Rng &r = M.rng;
  Placement pl;
  PolyBox P, Q, O;
  int kind = r.range(0, 9);
  Mesh m;
  if (kind == 0) { P.p->nverts = 0; M.say("empty"); m = g_tet(r); }
  else if (kind == 1) {
    m = g_tet(r);
    r3d_rvec3 v[4];
    for (int i = 0; i < 4; ++i) { v[i] = rv(m.v[i]); if (r.chance(0.5)) v[i] = v[0]; }
    r3d_init_tet(P.p, v);
    M.say("degenerate tet");
  } else if (kind == 2) {
    m = g_box(r);
    r3d_rvec3 b[2];
    for (int i = 0; i < 3; ++i) { b[0].xyz[i] = (r3d_real)r.uni(-1, 1); b[1].xyz[i] = r.chance(0.5) ? b[0].xyz[i] : (r3d_real)r.uni(-1, 1); }
    r3d_init_box(P.p, b);
    M.say("degenerate box");
  } else if (kind == 3) { m = g_prism(r, R3D_MAX_VERTS / 2, r.range(0, 2)); snap(m); if (!build_poly(r, m, P.p)) M.skip("build"); M.say("full buffer"); }
  else { m = new_mesh(r, default_budget(), pl); if (!make_poly(r, m, P.p)) M.skip("build"); }
  Ext<3> e = mesh_ext(m);
  int ops = r.range(1, 6);
  for (int s = 0; s < ops; ++s) {
    int op = r.range(0, 9);
    M.count("hostile_calls");
    switch (op) {
      case 0: {
        int n = r.range(0, 5), cls;
        r3d_plane *pls = (r3d_plane *)malloc(std::max(1, n) * sizeof(r3d_plane));
        for (int i = 0; i < n; ++i) pls[i] = rp(gen_plane(r, m, e, cls));
        int st = r3d_clip(P.p, pls, n);
        free(pls);
        if (st != 1 && P.p->nverts > 0) return;   // contents unspecified after a refusal
        break;
      }
      case 1: {
        int cls;
        r3d_plane q = rp(gen_plane(r, m, e, cls));
        *O.p = *P.p;
        PolyBox A, B;
        if (r3d_split(O.p, 1, q, A.p, B.p) == 1) *P.p = r.chance(0.5) ? *A.p : *B.p;
        break;
      }
      case 2: lib_moments(P.p, r.chance(0.1) ? r.range(8, 20) : r.range(0, 5)); break;
      case 3: if (P.p->nverts <= 80) r3d_is_good(P.p); break;
      case 4: {
        r3d_brep *b = nullptr; r3d_int nc = 0;
        r3d_init_brep(P.p, &b, &nc);
        r3d_print_brep(&b, nc);
        r3d_free_brep(&b, nc);
        break;
      }
      case 5: {
        if (P.p->nverts == 0) break;
        Ext<3> pe = poly_ext(P.p);
        r3d_rvec3 d;
        for (int i = 0; i < 3; ++i) d.xyz[i] = (r3d_real)(std::max(pe.L, e.L * 1e-3L) / r.uni(0.5, 5));
        bool ok = true;
        for (int i = 0; i < 3; ++i) if (!(fabsl(pe.Rmax / d.xyz[i]) < 1e8L)) ok = false;
        if (!ok) break;
        r3d_dvec3 ib[2], cb[2];
        r3d_get_ibox(P.p, ib, d);
        if (r.chance(0.5)) {
          for (int i = 0; i < 3; ++i) { cb[0].ijk[i] = ib[0].ijk[i] + r.range(-1, 1); cb[1].ijk[i] = ib[1].ijk[i] + r.range(-1, 1); }
          if (VOX_STATUS(r3d_clamp_ibox(P.p, ib, cb, d)) != 1) return;   // contents unspecified after a refusal
        }
        long nc = 1;
        for (int i = 0; i < 3; ++i) nc *= std::max(0, ib[1].ijk[i] - ib[0].ijk[i]);
        int p = r.range(0, 3);
        r3d_real *g = (r3d_real *)calloc(std::max(1L, nc * R3D_NUM_MOMENTS(p)), sizeof(r3d_real));
        r3d_voxelize(P.p, ib, g, d, p);
        if (nc > 0) { r3d_voxelize(nullptr, ib, g, d, p); r3d_voxelize(P.p, ib, nullptr, d, p); }
        free(g);
        break;
      }
      case 6: r3d_rotate(P.p, (r3d_real)r.uni(-9, 9), r.range(0, 2)); { r3d_rvec3 t; t.x = t.y = t.z = (r3d_real)e.L; r3d_translate(P.p, t); } break;
      case 7: r3d_scale(P.p, (r3d_real)r.uni(0.5, 2)); r3d_shear(P.p, (r3d_real)r.uni(-1, 1), r.range(0, 2), r.range(0, 2)); break;
      case 8: if (P.p->nverts <= 60) r3d_print(P.p); if (P.p->nverts) r3d_poly_center(P.p); break;
      case 9: {
        std::vector<r3d_rvec3> v;
        for (auto &x : m.v) v.push_back(rv(x));
        std::vector<r3d_int *> fi;
        std::vector<r3d_int> npf;
        for (auto &f : m.f) { r3d_int *q = (r3d_int *)malloc(f.size() * sizeof(r3d_int)); for (size_t k = 0; k < f.size(); ++k) q[k] = f[k]; fi.push_back(q); npf.push_back((r3d_int)f.size()); }
        r3d_init_poly(Q.p, v.data(), (r3d_int)v.size(), fi.data(), npf.data(), (r3d_int)npf.size());
        r3d_plane *pf = (r3d_plane *)malloc(fi.size() * sizeof(r3d_plane));
        r3d_poly_faces_from_verts(pf, v.data(), (r3d_int)v.size(), fi.data(), npf.data(), (r3d_int)npf.size());
        free(pf);
        for (auto x : fi) free(x);
        break;
      }
    }
    M.sig(kind, op, P.p->nverts);
  }
}

// ------------------------------------------------------------------ printing
static void mode_print() {
  Rng &r = M.rng;
  Placement pl;
  Mesh m = new_mesh(r, r.chance(0.2) ? default_budget() : std::min(40, default_budget()), pl);
  PolyBox P, S;
  if (!make_poly(r, m, P.p)) M.skip("build");
  if (r.chance(0.3)) { int cls; Plane<3> q = gen_plane(r, m, mesh_ext(m), cls); r3d_plane rq = rp(q); if (r3d_clip(P.p, &rq, 1) != 1) M.skip("capacity"); }
  if (r.chance(0.03)) P.p->nverts = 0;
  memcpy(S.p, P.p, sizeof(r3d_poly));
  std::string out = capture_stdout([&] { r3d_print(P.p); });
  M.count("prints");
  M.count("bytes_printed", (long)out.size());
  if (memcmp(S.p, P.p, sizeof(r3d_poly))) M.fail("print-modified", "printing changed the polyhedron");
  std::vector<PrintedLine> L = printed_lines(out);
  if ((int)L.size() != P.p->nverts) M.fail("print-lines", "%d vertices, %zu lines printed", P.p->nverts, L.size());
  for (int v = 0; v < P.p->nverts; ++v) {
    const auto &n = L[v].num;
    if (n.size() != 7) M.fail("print-line", "vertex %d: %zu numbers printed instead of index, 3 coordinates, 3 neighbours", v, n.size());
    if (atol(n[0].c_str()) != v) M.fail("print-index", "line %d is labelled %s", v, n[0].c_str());
    for (int i = 0; i < 3; ++i) {
      if (!printed_close(n[1 + i], P.p->verts[v].pos.xyz[i], 11)) M.fail("print-coordinate", "vertex %d axis %d: %s printed for %.17g", v, i, n[1 + i].c_str(), (double)P.p->verts[v].pos.xyz[i]);
      if (atol(n[4 + i].c_str()) != P.p->verts[v].pnbrs[i]) M.fail("print-neighbour", "vertex %d neighbour %d: %s printed for %d", v, i, n[4 + i].c_str(), (int)P.p->verts[v].pnbrs[i]);
    }
    M.count("vertices_printed");
  }
  M.sig(0, P.p->nverts, pl.scale);
  if (P.p->nverts <= 0 || !r.chance(0.5)) return;
  r3d_brep *b = nullptr;
  r3d_int nc = 0;
  r3d_init_brep(P.p, &b, &nc);
  std::string bo = capture_stdout([&] { r3d_print_brep(&b, nc); });
  M.count("brep_prints");
  std::vector<PrintedLine> B = printed_lines(bo);
  size_t k = 0;
  auto next = [&](const char *what, size_t want) -> const std::vector<std::string> & {
    if (k >= B.size()) M.fail("print-brep-short", "the listing ends before %s", what);
    const auto &n = B[k++].num;
    if (n.size() != want) M.fail("print-brep-line", "%s: %zu numbers printed, %zu expected", what, n.size(), want);
    return n;
  };
  if (atol(next("the component count", 1)[0].c_str()) != nc) M.fail("print-brep-count", "wrong number of components printed");
  for (int c = 0; c < nc; ++c) {
    if (atol(next("the component title", 1)[0].c_str()) != c) M.fail("print-brep-title", "component %d is mislabelled", c);
    { const auto &n = next("the vertex count", 2); if (atol(n[0].c_str()) != c || atol(n[1].c_str()) != b[c].numvertices) M.fail("print-brep-nv", "component %d: vertex count %s printed for %d", c, n[1].c_str(), (int)b[c].numvertices); }
    for (int v = 0; v < b[c].numvertices; ++v) {
      const auto &n = next("a vertex", 4);
      if (atol(n[0].c_str()) != v) M.fail("print-brep-vertex", "vertex %d is labelled %s", v, n[0].c_str());
      for (int i = 0; i < 3; ++i) if (!printed_close(n[1 + i], b[c].vertices[v].xyz[i], 11)) M.fail("print-brep-vertex", "vertex %d axis %d: %s printed for %.17g", v, i, n[1 + i].c_str(), (double)b[c].vertices[v].xyz[i]);
      M.count("brep_vertices_printed");
    }
    { const auto &n = next("the face count", 2); if (atol(n[0].c_str()) != c || atol(n[1].c_str()) != b[c].numfaces) M.fail("print-brep-nf", "component %d: face count %s printed for %d", c, n[1].c_str(), (int)b[c].numfaces); }
    for (int f = 0; f < b[c].numfaces; ++f) {
      int nv = b[c].numvertsperface[f];
      const auto &n = next("a face", (size_t)nv + 2);
      if (atol(n[0].c_str()) != f || atol(n[1].c_str()) != nv) M.fail("print-brep-face", "face %d with %d vertices is labelled %s with %s", f, nv, n[0].c_str(), n[1].c_str());
      for (int i = 0; i < nv; ++i) if (atol(n[2 + i].c_str()) != b[c].faceinds[f][i]) M.fail("print-brep-face", "face %d corner %d: %s printed for %d", f, i, n[2 + i].c_str(), (int)b[c].faceinds[f][i]);
      M.count("brep_faces_printed");
    }
  }
  if (k != B.size()) M.fail("print-brep-long", "%zu unexpected lines", B.size() - k);
  r3d_free_brep(&b, nc);
}

static void init3() { if (FLOAT3) { G_SCALE = 2; G_XSCALE = 3; G_OFF = 1.5; } }

// boxes on a quarter-cell lattice at cell indices near the ends of the integer range (one axis; the others near the origin):
// index box, clamping and every cell are known exactly
static void mode_farvox() {
  Rng &r = M.rng;
  PolyBox P;
  int ax = r.range(0, 3 - 1), ord = r.range(0, 1);
  r3d_rvec3 d, b[2];
  long lo[3], hi[3];   // in quarter cells
  for (int i = 0; i < 3; ++i) {
    d.xyz[i] = (r3d_real)ldexp(1, r.range(-12, 12));
    long base = i != ax ? r.range(-8, 8) : (r.chance(0.5) ? 1 : -1) * (r.chance(0.7) ? (1L << 30) + r.range(0, 1 << 29) + r.range(0, (1 << 29) - 100) : (1L << r.range(24, 30)) - r.range(0, 12));
    int w = i == ax ? r.range(1, 24) : r.range(1, 10);
    lo[i] = 4 * base + r.range(0, 3);
    hi[i] = lo[i] + w;
    if (false) { lo[i] |= 1; hi[i] |= 1; if (hi[i] <= lo[i]) hi[i] += 2; }
    b[0].xyz[i] = (r3d_real)(d.xyz[i] * (lo[i] / (LD)4));
    b[1].xyz[i] = (r3d_real)(d.xyz[i] * (hi[i] / (LD)4));
  }
  r3d_init_box(P.p, b);
  r3d_dvec3 ib[2], cb[2], ibs[2];
  auto fl = [](long q) { return q >= 0 ? q / 4 : -((-q + 3) / 4); };
  auto ce = [](long q) { return q >= 0 ? (q + 3) / 4 : -((-q) / 4); };
  r3d_get_ibox(P.p, ib, d);
  M.say("axis %d index %ld..%ld d=%g", ax, fl(lo[ax]), ce(hi[ax]), (double)d.xyz[ax]);
  for (int i = 0; i < 3; ++i) if (ib[0].ijk[i] != fl(lo[i]) || ib[1].ijk[i] != ce(hi[i])) M.fail("far-ibox", "axis %d: %d..%d, expected %ld..%ld", i, ib[0].ijk[i], ib[1].ijk[i], fl(lo[i]), ce(hi[i]));
  M.count("far_boxes");
  bool clamp = r.chance(0.4), cut = false;
  if (clamp) {
    for (int i = 0; i < 3; ++i) {
      int n = ib[1].ijk[i] - ib[0].ijk[i], x = r.chance(0.5) ? r.range(0, n - 1) : -r.range(0, 3), y = r.range(std::max(x, 0) + 1, n + 2);
      cb[0].ijk[i] = ib[0].ijk[i] + x;
      cb[1].ijk[i] = ib[0].ijk[i] + y;
      if (x > 0 || y < n) cut = true;
      lo[i] = std::max(lo[i], 4L * cb[0].ijk[i]);
      hi[i] = std::min(hi[i], 4L * cb[1].ijk[i]);
    }
    r3d_dvec3 want[2];
    for (int i = 0; i < 3; ++i) { want[0].ijk[i] = std::max(ib[0].ijk[i], cb[0].ijk[i]); want[1].ijk[i] = std::min(ib[1].ijk[i], cb[1].ijk[i]); }
    if (VOX_STATUS(r3d_clamp_ibox(P.p, ib, cb, d)) != 1) M.fail("far-clamp-status", "clamping a box reported failure");
    for (int i = 0; i < 3; ++i) if (ib[0].ijk[i] != want[0].ijk[i] || ib[1].ijk[i] != want[1].ijk[i]) M.fail("far-clamp", "axis %d: %d..%d, expected %d..%d", i, ib[0].ijk[i], ib[1].ijk[i], want[0].ijk[i], want[1].ijk[i]);
    M.count("far_clamps");
    for (int i = 0; i < 3; ++i) if (hi[i] <= lo[i]) { if (P.p->nverts) M.fail("far-clamp", "nothing of the box is inside, but %d vertices remain", P.p->nverts); return; }
  } else if (r.chance(0.3)) for (int i = 0; i < 3; ++i) { ib[0].ijk[i] -= r.range(0, 2); ib[1].ijk[i] += r.range(0, 2); }
  long n[3], tot = 1;
  for (int i = 0; i < 3; ++i) { n[i] = ib[1].ijk[i] - ib[0].ijk[i]; tot *= n[i]; }
  int nm = ord ? 4 : 1;
  std::vector<r3d_real> g(tot * nm), pre(tot * nm);
  LD cv = 1;
  for (int i = 0; i < 3; ++i) cv *= d.xyz[i];
  bool pf = r.chance(0.5);
  for (long k = 0; k < tot * nm; ++k) g[k] = pre[k] = (r3d_real)(pf && k % nm == 0 ? cv * r.uni(-2, 2) : 0);
  memcpy((void *)ibs, (void *)ib, sizeof ib);
  int st = VOX_STATUS(r3d_voxelize(P.p, ib, g.data(), d, ord));
  M.count("far_grids");
  if (st != 1) M.fail("far-status", "reported failure although it fits");
  if (memcmp((void *)ibs, (void *)ib, sizeof ib)) M.fail("far-ibox-modified", "the index box was changed");
  for (long k = 0; k < tot; ++k) {
    LD v = cv, c[3];
    long q = k;
    for (int i = 3 - 1; i >= 0; --i) {
      long cell = ib[0].ijk[i] + q % n[i];
      q /= n[i];
      long x = std::max(lo[i], 4 * cell), y = std::min(hi[i], 4 * cell + 4);
      v *= std::max(0L, y - x) / (LD)4;
      c[i] = (x + y) / (LD)8 * d.xyz[i];
    }
    M.close("far-cell", (LD)g[k * nm] - pre[k * nm], v, 2e-4L * cv, "content of a cell");
    for (int j = 1; j < nm; ++j) M.close("far-moment", (LD)g[k * nm + j] - pre[k * nm + j], v * c[j - 1], 2e-4L * cv * (fabsl(c[j - 1]) + 4 * d.xyz[j - 1]), "first moment of a cell");
    M.count(v > 0 ? "cells_nonempty" : "cells_empty");
  }
  M.count("cells_compared", tot);
  M.sig(ax, lo[ax] < 0, tot, clamp + cut);
}

#ifndef MODE_LIST
#define MODE_LIST X(bigvox) X(farvox) X(clip) X(split) X(moments) X(shift) X(ibox) X(vox) X(initpoly) X(initbasic) X(brep) X(faces) X(xform) X(orient) X(isgood) X(history) X(capacity) X(capvox) X(mem) X(print)
#endif
#define X(m) {#m, mode_##m},
static const Mode MODES[] = {MODE_LIST};
int main(int argc, char **argv) { return run_monitor(argc, argv, MODES, sizeof MODES / sizeof *MODES, init3); }
