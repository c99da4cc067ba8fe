// Monitors for the 2D library.
#include "poly2.h"
#include "status.h"

struct PBox2 {
  r2d_poly *p;
  PBox2() { p = (r2d_poly *)malloc(sizeof(r2d_poly)); memset((void *)p, 0x5a, sizeof *p); p->nverts = 0; }
  ~PBox2() { free(p); }
  PBox2(const PBox2 &) = delete;
};
struct Fr { std::vector<void *> v; ~Fr() { for (auto p : v) free(p); } };
static int budget2() { if (R2D_MAX_VERTS > 200 && M.rng.chance(0.02)) return R2D_MAX_VERTS - 2; return std::max(8, std::min(R2D_MAX_VERTS / 2, 120)); }
static bool make_poly2(Rng &r, const Shape &s, r2d_poly *P) {
  if (s.loops.size() == 1 && r.chance(0.3) && s.nv() <= R2D_MAX_VERTS) {
    std::vector<r2d_rvec2> v;
    for (auto &x : s.loops[0]) v.push_back(rv2(x));
    if (VOX_STATUS(r2d_init_poly(P, v.data(), (r2d_int)v.size())) != 1) return false;
    return true;
  }
  return build_poly2(r, s, P);
}
static Shape new_shape(Rng &r, int budget, Place2 &pl, bool extreme = true) {
  Shape s = gen_shape(r, budget, pl, extreme);
  M.say("%s%s nv=%d loops=%d scale=%.3g off=%.3g", s.name.c_str(), pl.snapped ? "(lattice)" : "", s.nv(), (int)s.loops.size(), pl.scale, pl.off);
  return s;
}
static void say_line(const Plane<2> &p) { M.say("line n=(%.17Lg,%.17Lg) d=%.17Lg", p.n[0], p.n[1], p.d); }
static void crossings2(const r2d_poly *P, const r2d_plane &pl, int &lo, int &hi) {
  int n = P->nverts;
  std::vector<int> sg(n);
  LD R = fabsl((LD)pl.d);
  for (int v = 0; v < n; ++v) for (int i = 0; i < 2; ++i) R = std::max(R, fabsl((LD)P->verts[v].pos.xy[i]));
  for (int v = 0; v < n; ++v) {
    LD s = pl.d, t = 16 * EPS2 * R;
    for (int i = 0; i < 2; ++i) s += (LD)pl.n.xy[i] * P->verts[v].pos.xy[i];
    sg[v] = s > t ? 1 : s < -t ? -1 : 0;
  }
  lo = hi = 0;
  bool pos = false, neg = false, zero = false;
  for (int v = 0; v < n; ++v) {
    if (sg[v] > 0) pos = true; else if (sg[v] < 0) neg = true; else zero = true;
    int w = P->verts[v].pnbrs[0];
    if (sg[v] * sg[w] < 0) { ++lo; ++hi; }
    else if (sg[v] == 0 || sg[w] == 0) ++hi;
  }
  if (!pos || !neg) lo = 0;
  if (!zero && (!pos || !neg)) hi = 0;
}
static void inside2(const r2d_poly *P, const Ext<2> &e, const std::vector<Plane<2>> &pls, const char *what) {
  LD R = e.Rmax + e.L, tol = 200 * EPS2 * R * (pls.size() + 2);
  for (int v = 0; v < P->nverts; ++v) {
    for (int i = 0; i < 2; ++i) {
      LD x = P->verts[v].pos.xy[i];
      if (!(x >= e.lo[i] - tol && x <= e.hi[i] + tol)) M.fail("vertex-outside", "%s: vertex %d coordinate %d = %.17Lg leaves the input's extent [%.17Lg,%.17Lg]", what, v, i, x, e.lo[i], e.hi[i]);
    }
    for (size_t k = 0; k < pls.size(); ++k) {
      LD s = pls[k].d;
      for (int i = 0; i < 2; ++i) s += pls[k].n[i] * P->verts[v].pos.xy[i];
      if (!(s >= -tol)) M.fail("vertex-clipped-side", "%s: vertex %d lies %.3Lg behind line %zu", what, v, s, k);
    }
  }
  M.count("vertices_checked", P->nverts);
}
static LD side_max(const Shape &s, const Plane<2> &q, LD sg) {
  LD m = -1e4000L;
  for (auto &l : s.loops) for (auto &v : l) m = std::max(m, sg * (q.d + q.n[0] * v[0] + q.n[1] * v[1]));
  return m;
}

// ------------------------------------------------------------------ clip
// every vertex of a clipped polygon is an old vertex or lies on the line and on an old edge
static void provenance2(const r2d_poly *A, const r2d_poly *B, const r2d_plane &q, int k) {
  LD R = fabsl((LD)q.d);
  for (int v = 0; v < A->nverts; ++v) for (int i = 0; i < 2; ++i) R = std::max(R, fabsl((LD)A->verts[v].pos.xy[i]));
  LD tol = 100 * EPS2 * R;
  std::vector<std::array<LD, 2>> old;
  for (int v = 0; v < A->nverts; ++v) old.push_back({A->verts[v].pos.x, A->verts[v].pos.y});
  auto sorted = old;
  std::sort(sorted.begin(), sorted.end());
  for (int v = 0; v < B->nverts; ++v) {
    std::array<LD, 2> x = {B->verts[v].pos.x, B->verts[v].pos.y};
    if (std::binary_search(sorted.begin(), sorted.end(), x)) { M.count("old_vertices"); continue; }
    LD s = q.d, best = INFINITY;
    for (int i = 0; i < 2; ++i) s += (LD)q.n.xy[i] * x[i];
    if (!(fabsl(s) <= tol)) M.fail("clip-vertex-origin", "after line %d vertex %d is neither an old vertex nor on the line (distance %.3Lg)", k, v, s);
    for (int a = 0; a < A->nverts; ++a) {
      int b = A->verts[a].pnbrs[0];
      LD l = 0, d = 0, e = 0;
      for (int i = 0; i < 2; ++i) { LD u = old[b][i] - old[a][i]; l += u * u; d += u * (x[i] - old[a][i]); }
      LD t = l > 0 ? std::min((LD)1, std::max((LD)0, d / l)) : 0;
      for (int i = 0; i < 2; ++i) e = std::max(e, fabsl(x[i] - old[a][i] - t * (old[b][i] - old[a][i])));
      best = std::min(best, e);
    }
    if (!(best <= tol)) M.fail("clip-vertex-origin", "after line %d new vertex %d is %.3Lg away from every old edge", k, v, best);
    M.count("new_vertices");
  }
}

static void mode_clip() {
  Rng &r = M.rng;
  Place2 pl;
  int k = r.range(0, 19), np = k == 0 ? 0 : k < 7 ? 1 : k < 11 ? 2 : k < 17 ? r.range(3, 7) : k < 19 ? r.range(8, 14) : r.range(20, 60);
  if (r.chance(0.012)) np = r.range(61, 700);   // a long list, most of whose lines miss
  Shape s = new_shape(r, budget2(), pl);
  Acc2 a = acc(s);
  PBox2 P, W, B4;
  if (!make_poly2(r, s, P.p)) M.skip("build");
  check_graph2(P.p, "input");
  int p = std::max(0, r.range(-2, 3));
  if (pl.scale > 1e15 || pl.scale < 1e-15) p = std::min(p, 2);
  std::vector<Plane<2>> pls;
  uint64_t mix = 0;
  for (int i = 0; i < np; ++i) {
    int cls;
    Plane<2> q;
    if (np > 8) {
      double t = r.uni(0, 6.3);
      LD n[2] = {-cos(t), -sin(t)}, pt[2];
      double dist = np > 60 && !r.chance(8.0 / np) && i != np - 1 ? r.uni(1, 3) : r.uni(0.15, 0.6);
      for (int j = 0; j < 2; ++j) pt[j] = (a.e.lo[j] + a.e.hi[j]) / 2 - n[j] * a.e.L * dist;
      q = line_thru(n, pt);
      cls = 0;
    } else q = gen_line(r, s, a.e, cls);
    if (i && r.chance(0.08)) { q = pls[r.range(0, i - 1)]; cls = 20; if (r.chance(0.5)) { q.n[0] = -q.n[0]; q.n[1] = -q.n[1]; q.d = -q.d; cls = 21; } }
    pls.push_back(q);
    mix = mix * 23 + cls + 1;
    if (i < 8) say_line(q);
  }
  std::vector<r2d_plane> rps;
  for (auto &q : pls) rps.push_back(rp2(q));
  *W.p = *P.p;
  bool mustfit = true, mustfail = false;
  int cutlines = 0;
  for (int i = 0; i < np && W.p->nverts > 0; ++i) {
    int lo, hi;
    crossings2(W.p, rps[i], lo, hi);
    if (W.p->nverts + hi > R2D_MAX_VERTS) mustfit = false;
    if (W.p->nverts + lo > R2D_MAX_VERTS) mustfail = true;
    if (lo) ++cutlines;
    memcpy((void *)B4.p, (void *)W.p, sizeof(r2d_poly));
    Sides2 sd = sides2(W.p, rps[i]);
    int st = VOX_STATUS(r2d_clip(W.p, &rps[i], 1));
    M.count("clip_calls");
    if (st != 1) { if (mustfit) M.fail("clip-status", "single-line clip reported failure although the result fits"); break; }
    if (sd.front()) {
      M.count(sd.zero ? "line_touches_from_inside" : "line_misses");
      if (!same_shape2(B4.p, W.p)) M.fail("clip-not-unchanged", "line %d has every vertex at signed distance >= 0 but the polygon changed (%d -> %d vertices)", i, B4.p->nverts, W.p->nverts);
    }
    if (sd.behind()) {
      M.count(sd.zero ? "line_touches_from_outside" : "line_removes");
      if (W.p->nverts) M.fail("clip-not-empty", "line %d has no vertex at positive signed distance but %d vertices remain", i, W.p->nverts);
    }
    provenance2(B4.p, W.p, rps[i], i);
    check_graph2(W.p, "after single line");
  }
  std::vector<r2d_plane> cp = rps;
  int st = 1;
  if (np > 1 && r.chance(0.3)) {
    int cut = r.range(1, np - 1);
    st = VOX_STATUS(r2d_clip(P.p, cp.data(), cut));
    if (st == 1) st = VOX_STATUS(r2d_clip(P.p, cp.data() + cut, np - cut));
  } else st = VOX_STATUS(r2d_clip(P.p, cp.empty() ? nullptr : cp.data(), np));
  M.count("clip_calls");
  M.count("planes_applied", np);
  for (int i = 0; i < np; ++i) if (memcmp(&cp[i], &rps[i], sizeof cp[i])) M.fail("planes-modified", "the line array was written to");
  if (st != 1) { if (mustfit) M.fail("clip-status", "clip reported failure although the result fits"); M.count("capacity_reported"); return; }
  if (mustfail) M.fail("clip-status", "clip reported success although the vertex buffer cannot hold the result");
  G2 g = check_graph2(P.p, "clip result");
  if (np) inside2(P.p, a.e, pls, "clip result");
  Body<2> b = shape_body(s);
  for (auto &q : pls) { b.clip(q); if (b.s.size() > 60000) M.skip("oracle-size"); }
  LD mar = 1000 * EPS2 * (a.e.Rmax + a.e.L);
  for (auto &q : pls) if (side_max(s, q, 1) < -mar && P.p->nverts != 0) M.fail("clip-not-empty", "every vertex is behind one of the lines but %d vertices remain", P.p->nverts);
  std::vector<LD> want = body_moments<2>(b, p);
  cmp_moments2("clip-moments", lib_moments2(P.p, p), want, p, a, np, "clipped moment");
  M.close("clip-geometry", poly_body2(P.p).volume(), want[0], tol2(a, exps<2>(0)[0], np), "geometric area");
  M.count(P.p->nverts == 0 ? "outcome_empty" : cutlines ? "outcome_cut" : "outcome_whole");
  if (g.loops > 1) M.count("outcome_multi_loop");
  M.sig(hashstr(s.name.c_str()), mix, P.p->nverts, g.loops);
}

// ------------------------------------------------------------------ split
static void mode_split() {
  Rng &r = M.rng;
  int np = r.chance(0.1) ? 0 : r.chance(0.5) ? 1 : r.range(2, 8);
  if (r.chance(0.006)) np = r.range(8, r.chance(0.2) ? 300 : 40);   // a long array
  if (np > 8) M.count("long_arrays");
  r2d_poly *in = (r2d_poly *)malloc(std::max(1, np) * sizeof(r2d_poly)), *po = (r2d_poly *)malloc(std::max(1, np) * sizeof(r2d_poly)), *ne = (r2d_poly *)malloc(std::max(1, np) * sizeof(r2d_poly));
  Fr fr{{in, po, ne}};
  std::vector<Shape> ss;
  std::vector<int> empty;
  Place2 pl;
  int from = np ? r.range(0, np - 1) : 0, cls = 0;
  bool have = false;
  Shape first;
  for (int k = 0; k < np; ++k) {
    Shape s;
    bool em = np > 1 && k != from && r.chance(0.15);
    if (em) s.name = "empty";
    else if (have && r.chance(0.5)) {
      s = first;
      Ext<2> e = shape_ext(s);
      double t = r.uni(0, 6.3), w = r.uni(0, 2) * (double)e.L;
      xf2(s, 1, 0, 0, 1, w * cos(t), w * sin(t));
      for (auto &l : s.loops) for (auto &v : l) for (int i = 0; i < 2; ++i) v[i] = (double)(r2d_real)v[i];
    } else s = new_shape(r, np > 8 ? std::min(24, budget2()) : budget2(), pl);
    memset((void *)&in[k], 0x33, sizeof in[k]);
    in[k].nverts = 0;
    if (!em) { if (!make_poly2(r, s, &in[k])) M.skip("build"); check_graph2(&in[k], "input"); if (!have) { first = s; have = true; } }
    ss.push_back(s);
    empty.push_back(em);
  }
  Plane<2> q;
  q.n[0] = 1; q.n[1] = 0; q.d = 0;
  if (np) q = gen_line(r, ss[from], shape_ext(ss[from]), cls);
  say_line(q);
  r2d_plane rq = rp2(q);
  memset((void *)po, r.chance(0.5) ? 0x77 : 0xff, std::max(1, np) * sizeof(r2d_poly));
  memset((void *)ne, r.chance(0.5) ? 0x11 : 0xff, std::max(1, np) * sizeof(r2d_poly));
  bool mustfit = true, mustfail = false;
  std::vector<Sides2> sds(np);
  std::vector<r2d_poly> keep(np);   // split may use its input as scratch
  for (int k = 0; k < np; ++k) if (!empty[k]) {
    sds[k] = sides2(&in[k], rq);
    memcpy((void *)&keep[k], (void *)&in[k], sizeof(r2d_poly));
    int lo, hi;
    crossings2(&in[k], rq, lo, hi);
    if (in[k].nverts + 2 * hi > R2D_MAX_VERTS) mustfit = false;
    if (in[k].nverts + 2 * lo > R2D_MAX_VERTS) mustfail = true;
  }
  int st = VOX_STATUS(r2d_split(in, np, rq, po, ne));
  M.count("split_calls");
  if (st != 1) { if (mustfit) M.fail("split-status", "split reported failure although every part fits"); M.count("capacity_reported"); return; }
  if (mustfail) M.fail("split-status", "split reported success although a part cannot fit");
  for (int k = 0; k < np; ++k) {
    M.count("polys_split");
    if (empty[k]) {
      if (po[k].nverts || ne[k].nverts) M.fail("split-empty", "element %d: empty input gave %d/%d vertices", k, po[k].nverts, ne[k].nverts);
      M.count("outcome_empty_input");
      continue;
    }
    Acc2 a = acc(ss[k]);
    char w[64];
    snprintf(w, sizeof w, "positive part of element %d", k);
    G2 g0 = check_graph2(&po[k], w);
    Plane<2> nq = q;
    nq.n[0] = -q.n[0]; nq.n[1] = -q.n[1]; nq.d = -q.d;
    LD mx = side_max(ss[k], q, 1), mn = -side_max(ss[k], q, -1), mar = 1000 * EPS2 * (a.e.Rmax + a.e.L + fabsl(q.d));
    if (mn < mar && mx > -mar) a.e.Rmax = std::max(a.e.Rmax, fabsl(q.d));
    inside2(&po[k], a.e, {q}, w);
    snprintf(w, sizeof w, "negative part of element %d", k);
    G2 g1 = check_graph2(&ne[k], w);
    inside2(&ne[k], a.e, {nq}, w);
    if (mn > mar && ne[k].nverts) M.fail("split-side-empty", "element %d is wholly on the positive side but its negative part has %d vertices", k, ne[k].nverts);
    if (mx < -mar && po[k].nverts) M.fail("split-side-empty", "element %d is wholly on the negative side but its positive part has %d vertices", k, po[k].nverts);
    if (sds[k].front()) {
      M.count(sds[k].zero ? "touching_positive" : "wholly_positive");
      if (ne[k].nverts) M.fail("split-side-empty", "element %d has every vertex at signed distance >= 0 but its negative part has %d vertices", k, ne[k].nverts);
      if (!same_shape2(&keep[k], &po[k])) M.fail("split-not-unchanged", "element %d has every vertex at signed distance >= 0 but was changed (%d -> %d vertices)", k, keep[k].nverts, po[k].nverts);
    }
    if (sds[k].behind() && !sds[k].zero) {
      M.count("wholly_negative");
      if (po[k].nverts) M.fail("split-side-empty", "element %d has every vertex at signed distance < 0 but its positive part has %d vertices", k, po[k].nverts);
      if (!same_shape2(&keep[k], &ne[k])) M.fail("split-not-unchanged", "element %d has every vertex at signed distance < 0 but was changed (%d -> %d vertices)", k, keep[k].nverts, ne[k].nverts);
    }
    int p = pl.scale > 1e15 || pl.scale < 1e-15 ? 0 : r.range(0, 2);
    Body<2> bp = shape_body(ss[k]), bn = bp;
    bp.clip(q, 1);
    bn.clip(q, -1);
    auto wp = body_moments<2>(bp, p), wn = body_moments<2>(bn, p);
    cmp_moments2("split-moments", lib_moments2(&po[k], p), wp, p, a, 1, "positive part moment");
    cmp_moments2("split-moments", lib_moments2(&ne[k], p), wn, p, a, 1, "negative part moment");
    M.close("split-geometry", poly_body2(&po[k]).volume(), wp[0], tol2(a, exps<2>(0)[0], 1), "positive geometric area");
    M.close("split-geometry", poly_body2(&ne[k]).volume(), wn[0], tol2(a, exps<2>(0)[0], 1), "negative geometric area");
    M.count(po[k].nverts && ne[k].nverts ? "outcome_divided" : po[k].nverts ? "outcome_all_positive" : "outcome_all_negative");
    M.sig(hashstr(ss[k].name.c_str()), cls, po[k].nverts * 1000 + ne[k].nverts, k * 100 + g0.loops * 10 + g1.loops);
  }
}

// ------------------------------------------------------------------ moments
static void mode_moments() {
  Rng &r = M.rng;
  Place2 pl;
  Shape s = new_shape(r, r.chance(0.1) ? R2D_MAX_VERTS : budget2(), pl);
  int p = r.chance(0.15) ? r.range(5, 12) : r.range(0, 4);
  if (pl.scale > 1e12 || pl.scale < 1e-12) p = std::min(p, 3);
  if (s.nv() <= 40 && pl.scale < 1e5 && pl.scale > 1e-5 && pl.off < 1e5 && r.chance(0.03)) p = r.range(13, 40);
  while (p > 3 && log10(10 * pl.scale * (pl.off + 2)) * (p + 3) > 280) --p;   // must be representable
  if (FLOAT2) p = std::min(p, 3);
  PBox2 P, S;
  Acc2 a = acc(s);
  Body<2> b = shape_body(s);
  int ncut = 0;
  bool empty = r.chance(0.02);
  if (!empty && !make_poly2(r, s, P.p)) M.skip("build");
  if (empty) { P.p->nverts = 0; b.s.clear(); }
  if (!empty && r.chance(0.4)) {
    int cls;
    Plane<2> q = gen_line(r, s, a.e, cls);
    r2d_plane rq = rp2(q);
    if (VOX_STATUS(r2d_clip(P.p, &rq, 1)) != 1) M.skip("capacity");
    b.clip(q);
    ncut = 1;
  }
  memcpy((void *)S.p, (void *)P.p, sizeof(r2d_poly));
  auto got = lib_moments2(P.p, p);
  M.count("reduce_calls");
  M.count("moments_computed", got.size());
  if (memcmp((void *)S.p, (void *)P.p, sizeof(r2d_poly))) M.fail("moments-input-modified", "integration changed the polygon");
  if (p > 12 && P.p->nverts) {   // at high orders the growth through re-centring about the vertex mean counts
    LD vc[2] = {0, 0};
    for (int v = 0; v < P.p->nverts; ++v) for (int i = 0; i < 2; ++i) vc[i] += (LD)P.p->verts[v].pos.xy[i] / P.p->nverts;
    for (int i = 0; i < 2; ++i) a.e.R[i] = std::max(a.e.R[i], fabsl(vc[i]) + std::max(a.e.hi[i] - vc[i], vc[i] - a.e.lo[i]));
    M.count("high_order_reductions");
  }
  cmp_moments2("moments", got, body_moments<2>(b, p), p, a, ncut, "moment");
  if (p > 0) {
    int pp = r.range(0, p - 1);
    auto g2 = lib_moments2(P.p, pp);
    const auto &ex = exps<2>(pp);
    for (size_t j = 0; j < g2.size(); ++j) M.close("moments-prefix", g2[j], got[j], tol2(a, ex[j], 1), "prefix moment", (int)j);
  }
  M.say("order=%d", p);
  M.sig(hashstr(s.name.c_str()), p, P.p->nverts, (int)log10(pl.scale) * 100 + (int)log10(pl.off + 1));
}
static void mode_shift() {
  Rng &r = M.rng;
  Place2 pl;
  bool large = r.chance(0.1);
  if (large) M.count("large_centers");
  Shape s = new_shape(r, large ? R2D_MAX_VERTS : std::min(60, budget2()), pl, false);
  PBox2 P, S;
  if (!make_poly2(r, s, P.p)) M.skip("build");
  Ext<2> e = shape_ext(s);
  memcpy((void *)S.p, (void *)P.p, sizeof(r2d_poly));
  r2d_rvec2 c = r2d_poly_center(P.p);
  if (memcmp((void *)S.p, (void *)P.p, sizeof(r2d_poly))) M.fail("center-input-modified", "computing the centre changed the polygon");
  for (int i = 0; i < 2; ++i) {
    LD m = 0;
    for (int v = 0; v < P.p->nverts; ++v) m += P.p->verts[v].pos.xy[i];
    M.close("center", c.xy[i], m / P.p->nverts, 50 * EPS2 * (e.Rmax + e.L) * P.p->nverts, "centre", i);
  }
  M.count("centers");
  {  // one vertex moves in place: the centre follows, and comes back with it
    int w = r.range(0, P.p->nverts - 1), ax = r.range(0, 1);
    r2d_real old = P.p->verts[w].pos.xy[ax];
    P.p->verts[w].pos.xy[ax] = (r2d_real)(old + e.L * r.uni(0.1, 0.9));
    r2d_rvec2 c2 = r2d_poly_center(P.p);
    LD mean = 0;
    for (int v = 0; v < P.p->nverts; ++v) mean += P.p->verts[v].pos.xy[ax];
    M.close("center-follows", c2.xy[ax], mean / P.p->nverts, 50 * EPS2 * (e.Rmax + 2 * e.L) * P.p->nverts, "centre after moving a vertex", ax);
    P.p->verts[w].pos.xy[ax] = old;
    r2d_rvec2 c3 = r2d_poly_center(P.p);
    for (int i = 0; i < 2; ++i)
      M.close("center-follows", c3.xy[i], c.xy[i], 100 * EPS2 * (e.Rmax + e.L) * P.p->nverts, "centre after moving it back", i);
  }
  int p = r.range(0, FLOAT2 || large ? 3 : 8);
  if (!FLOAT2 && s.nv() <= 40 && r.chance(0.03) && pl.scale < 1e5 && pl.scale > 1e-5 && pl.off < 1e5) p = r.range(9, 40);
  r2d_rvec2 v;
  Body<2> b = shape_body(s);
  LD mid[2] = {(e.lo[0] + e.hi[0]) / 2, (e.lo[1] + e.hi[1]) / 2};
  bool local = r.chance(0.6);
  int zm = r.chance(0.4) ? r.range(0, 3) : 3;
  for (int i = 0; i < 2; ++i) v.xy[i] = (zm >> i & 1) ? (r2d_real)(e.L * r.uni(-1, 1) * (r.chance(0.2) ? (FLOAT2 ? 10 : 100) : 2)) : 0;
  Ext<2> ee;
  for (auto &t : b.s) for (int k = 0; k < 3; ++k) {
    LD q[2];
    for (int i = 0; i < 2; ++i) { if (local) t.x[k][i] -= mid[i]; q[i] = fabsl(t.x[k][i]) + fabsl((LD)v.xy[i]); }
    ee.add(q);
  }
  Body<2> t = b;
  for (auto &q : t.s) for (int k = 0; k < 3; ++k) for (int i = 0; i < 2; ++i) q.x[k][i] += v.xy[i];
  // moments of this order must be representable
  { LD R = 0; for (int i = 0; i < 2; ++i) R = std::max(R, 2 * ee.R[i]); while (p > 3 && log10l(R + 1e-300L) * (p + 2) > 280) --p; }
  auto m0 = body_moments<2>(b, p), m1 = body_moments<2>(t, p);
  int n = (int)m0.size();
  r2d_real *buf = (r2d_real *)malloc(n * sizeof(r2d_real));
  for (int i = 0; i < n; ++i) buf[i] = (r2d_real)m0[i];
  r2d_shift_moments(buf, p, v);
  std::vector<LD> got(buf, buf + n);
  free(buf);
  LD av = b.absvolume();
  const auto &ex = exps<2>(p);
  for (int j = 0; j < n; ++j) {
    LD mono = av * 100 * EPS2 * (p + 1) * (p + 1);
    for (int i = 0; i < 2; ++i) for (int k = 0; k < ex[j][i]; ++k) mono *= 2 * ee.R[i];
    M.close("shift-moments", got[j], m1[j], mono + 1000 * (LD)std::numeric_limits<r2d_real>::min(), "shifted moment", j);
  }
  M.count("shifts");
  M.say("order=%d shift=(%g,%g) local=%d", p, (double)v.x, (double)v.y, local);
  M.sig(hashstr(s.name.c_str()), p, zm, local);
}

// ------------------------------------------------------------------ index boxes
static r2d_rvec2 spacing2(Rng &r, const Ext<2> &e, LD across) {
  r2d_rvec2 d;
  bool an = r.chance(0.5), p2 = r.chance(0.35);
  for (int i = 0; i < 2; ++i) {
    LD x = e.L / across * (an ? r.uni(0.6, 3) : 1.0);
    if (p2) x = ldexpl(1, (int)ceill(log2l(x)));
    d.xy[i] = (r2d_real)x;
  }
  return d;
}
static void check_ibox2(const Ext<2> &e, const r2d_dvec2 *ib, const r2d_rvec2 &d, const char *what) {
  for (int i = 0; i < 2; ++i) {
    LD lo = e.lo[i] / (LD)d.xy[i], hi = e.hi[i] / (LD)d.xy[i], sl = 4 * EPS2 * std::max((LD)1, std::max(fabsl(lo), fabsl(hi)));
    bool okl = (LD)(r2d_real)lo == lo ? ib[0].ij[i] == (r2d_int)floorl(lo) : (ib[0].ij[i] <= lo + sl && ib[0].ij[i] + 1 >= lo - sl);
    bool okh = (LD)(r2d_real)hi == hi ? ib[1].ij[i] == (r2d_int)ceill(hi) : (ib[1].ij[i] >= hi - sl && ib[1].ij[i] - 1 <= hi + sl);
    if (!okl) M.fail("ibox", "%s: lower index %d on axis %d, extent starts at cell %.17Lg", what, ib[0].ij[i], i, lo);
    if (!okh) M.fail("ibox", "%s: upper index %d on axis %d, extent ends at cell %.17Lg", what, ib[1].ij[i], i, hi);
    M.count("ibox_bounds_checked", 2);
  }
}
static void mode_ibox() {
  Rng &r = M.rng;
  Place2 pl;
  Shape s = new_shape(r, budget2(), pl);
  PBox2 P, S;
  if (!make_poly2(r, s, P.p)) M.skip("build");
  Acc2 a = acc(s);
  Ext<2> &e = a.e;
  if (e.L == 0) M.skip("point");
  r2d_rvec2 d = spacing2(r, e, r.chance(0.2) ? r.uni(0.05, 1) : r.uni(1, 40));
  LD lim = FLOAT2 ? 1e6L : 1e9L;
  for (int i = 0; i < 2; ++i) if (fabsl(e.lo[i] / d.xy[i]) > lim || fabsl(e.hi[i] / d.xy[i]) > lim) M.skip("index-range");
  r2d_dvec2 ib[2], ib0[2], cb[2], cbs[2];
  if (r.chance(0.02)) {
    P.p->nverts = 0;
    memset((void *)ib, 0x7f, sizeof ib);
    r2d_get_ibox(P.p, ib, d);
    for (int i = 0; i < 2; ++i) if (ib[0].ij[i] != 0 || ib[1].ij[i] != 0) M.fail("ibox-empty", "the index box of an empty polygon is not zero: axis %d [%d,%d)", i, ib[0].ij[i], ib[1].ij[i]);
    M.count("empty_boxes");
    for (int i = 0; i < 2; ++i) { cb[0].ij[i] = r.range(-3, 1); cb[1].ij[i] = cb[0].ij[i] + r.range(1, 4); }
    r2d_clamp_ibox(P.p, ib, cb, d);
    if (P.p->nverts != 0) M.fail("clamp-empty", "clamping an empty polygon left %d vertices", P.p->nverts);
    return;
  }
  memcpy((void *)S.p, (void *)P.p, sizeof(r2d_poly));
  memset((void *)ib, 0x7f, sizeof ib);
  r2d_get_ibox(P.p, ib, d);
  M.count("ibox_calls");
  if (memcmp((void *)S.p, (void *)P.p, sizeof(r2d_poly))) M.fail("ibox-input-modified", "computing the index box changed the polygon");
  check_ibox2(e, ib, d, "index box");
  memcpy((void *)ib0, (void *)ib, sizeof ib);
  int style = r.range(0, 5), pickax = r.range(0, 1);
  for (int i = 0; i < 2; ++i) {
    int lo = ib[0].ij[i], hi = ib[1].ij[i], w = std::max(1, hi - lo);
    switch (style) {
      case 0: cb[0].ij[i] = lo - r.range(0, 3); cb[1].ij[i] = hi + r.range(0, 3); break;
      case 1: case 2: cb[0].ij[i] = lo + r.range(-w / 2 - 1, w / 2); cb[1].ij[i] = std::max(cb[0].ij[i] + 1, hi - r.range(-w / 2 - 1, w / 2)); break;
      case 3: cb[0].ij[i] = lo + r.range(0, w - 1); cb[1].ij[i] = cb[0].ij[i] + 1; break;
      case 4: if (i == pickax) { if (r.chance(0.5)) { cb[0].ij[i] = hi + r.range(0, 2); cb[1].ij[i] = cb[0].ij[i] + 3; } else { cb[1].ij[i] = lo - r.range(0, 2); cb[0].ij[i] = cb[1].ij[i] - 3; } } else { cb[0].ij[i] = lo - 1; cb[1].ij[i] = hi + 1; } break;
      case 5: cb[0].ij[i] = lo - 1; cb[1].ij[i] = hi + 1; if (i == pickax) { if (r.chance(.5)) cb[0].ij[i] = lo + w / 2; else cb[1].ij[i] = std::max(lo + 1, hi - w / 2); } break;
    }
  }
  M.say("d=(%g,%g) clamp style %d", (double)d.x, (double)d.y, style);
  memcpy((void *)cbs, (void *)cb, sizeof cb);
  bool disjoint = false, in = true;
  for (int i = 0; i < 2; ++i) {
    if (ib0[1].ij[i] <= cb[0].ij[i] || ib0[0].ij[i] >= cb[1].ij[i]) disjoint = true;
    if (ib0[0].ij[i] < cb[0].ij[i] || ib0[1].ij[i] > cb[1].ij[i]) in = false;
  }
  int st = VOX_STATUS(r2d_clamp_ibox(P.p, ib, cb, d));
  M.count("clamp_calls");
  if (memcmp((void *)cb, (void *)cbs, sizeof cb)) M.fail("clamp-range-modified", "the clamp range was written to");
  if (st != 1) { if (S.p->nverts * 6 + 16 <= R2D_MAX_VERTS) M.fail("clamp-status", "clamping reported failure although it fits"); M.count("capacity_reported"); return; }
  if (disjoint) {
    M.count("outcome_disjoint");
    if (P.p->nverts) M.fail("clamp-disjoint", "disjoint ranges but %d vertices remain", P.p->nverts);
    for (int i = 0; i < 2; ++i) if (ib[0].ij[i] || ib[1].ij[i]) M.fail("clamp-disjoint", "disjoint ranges but the index box is not empty");
    M.sig(1, style);
    return;
  }
  for (int i = 0; i < 2; ++i) {
    int lo = std::max(ib0[0].ij[i], cb[0].ij[i]), hi = std::min(ib0[1].ij[i], cb[1].ij[i]);
    if (ib[0].ij[i] != lo || ib[1].ij[i] != hi) M.fail("clamp-box", "axis %d: clamped box [%d,%d) expected [%d,%d)", i, ib[0].ij[i], ib[1].ij[i], lo, hi);
  }
  Body<2> b = shape_body(s);
  std::vector<Plane<2>> pls;
  for (int i = 0; i < 2; ++i) for (int t = 0; t < 2; ++t) {
    if (!(t ? ib0[1].ij[i] > cb[1].ij[i] : ib0[0].ij[i] < cb[0].ij[i])) continue;
    Plane<2> q;
    q.n[0] = q.n[1] = 0;
    q.n[i] = t ? -1 : 1;
    q.d = (LD)(r2d_real)(cb[t].ij[i] * d.xy[i]) * (t ? 1 : -1);
    pls.push_back(q);
    b.clip(q);
  }
  if (in) { M.count("outcome_inside"); if (memcmp((void *)S.p, (void *)P.p, sizeof(r2d_poly))) M.fail("clamp-inside", "the polygon was changed although it lies inside the range"); }
  else M.count("outcome_clipped");
  check_graph2(P.p, "clamped");
  inside2(P.p, e, pls, "clamped");
  M.close("clamp-area", poly_body2(P.p).volume(), b.volume(), tol2(a, exps<2>(0)[0], (int)pls.size()), "clamped area");
  int p = r.range(0, 1);
  cmp_moments2("clamp-moments", lib_moments2(P.p, p), body_moments<2>(b, p), p, a, (int)pls.size(), "clamped moment");
  M.sig(hashstr(s.name.c_str()), style, pls.size(), P.p->nverts);
}

// ------------------------------------------------------------------ rasterization
static void mode_ras() {
  Rng &r = M.rng;
  Place2 pl;
  bool large = r.chance(0.25);
  Shape s = new_shape(r, large ? budget2() : std::min(40, budget2()), pl);
  PBox2 P, S;
  if (!make_poly2(r, s, P.p)) M.skip("build");
  Acc2 a = acc(s);
  Ext<2> &e = a.e;
  if (e.L == 0) M.skip("point");
  Body<2> body = shape_body(s);
  int p = large ? r.range(0, 1) : r.range(0, 3);
  if (!large && !FLOAT2 && pl.scale < 1e8 && pl.scale > 1e-8 && pl.off < 1e4 && r.chance(0.1)) { p = r.range(4, 9); M.count("high_order_grids"); }
  if (pl.scale > 1e15 || pl.scale < 1e-15) p = std::min(p, 1);
  r2d_rvec2 d = spacing2(r, e, large ? r.uni(8, 40) : r.uni(0.4, 9));
  if (r.chance(0.15)) { int k = r.range(0, 1); d.xy[k] = (r2d_real)(e.L / r.uni(20, 300)); d.xy[1 - k] = (r2d_real)(e.L * r.uni(0.6, 2)); }
  LD lim = FLOAT2 ? 1e4L : 1e8L;
  for (int i = 0; i < 2; ++i) if (fabsl(e.lo[i] / d.xy[i]) > lim || fabsl(e.hi[i] / d.xy[i]) > lim) M.skip("index-range");
  r2d_dvec2 ib[2], ibs[2];
  r2d_get_ibox(P.p, ib, d);
  int grow = 0, clamped = 0;
  if (r.chance(0.3)) for (int i = 0; i < 2; ++i) { int x = r.range(0, 3), y = r.range(0, 3); ib[0].ij[i] -= x; ib[1].ij[i] += y; grow += x + y; }
  if (!grow && r.chance(0.2)) {
    r2d_dvec2 cb[2];
    for (int i = 0; i < 2; ++i) { int w = ib[1].ij[i] - ib[0].ij[i]; cb[0].ij[i] = ib[0].ij[i] + r.range(0, w / 3); cb[1].ij[i] = std::max(cb[0].ij[i] + 1, ib[1].ij[i] - r.range(0, w / 3)); }
    for (int i = 0; i < 2; ++i) for (int t = 0; t < 2; ++t) {
      if (t ? ib[1].ij[i] <= cb[1].ij[i] : ib[0].ij[i] >= cb[0].ij[i]) continue;
      Plane<2> q; q.n[0] = q.n[1] = 0; q.n[i] = t ? -1 : 1;
      q.d = (LD)(r2d_real)(d.xy[i] * cb[t].ij[i]) * (t ? 1 : -1);
      body.clip(q);
    }
    if (VOX_STATUS(r2d_clamp_ibox(P.p, ib, cb, d)) != 1) M.skip("capacity");
    clamped = 1;
  }
  int n[2];
  long nc = 1;
  for (int i = 0; i < 2; ++i) { n[i] = std::max(0, ib[1].ij[i] - ib[0].ij[i]); nc *= n[i]; }
  if (nc == 0 || nc > 20000) M.skip("grid-size");
  int nm = R2D_NUM_MOMENTS(p);
  long tot = nc * nm;
  r2d_real *grid = (r2d_real *)malloc(tot * sizeof(r2d_real));
  Fr fr{{grid}};
  std::vector<r2d_real> pre(tot, 0);
  bool pf = r.chance(0.5);
  const auto &ex = exps<2>(p);
  if (pf) for (long i = 0; i < tot; ++i) { LD mono = (LD)d.x * d.y; for (int k = 0; k < 2; ++k) for (int q = 0; q < ex[i % nm][k]; ++q) mono *= e.R[k]; pre[i] = (r2d_real)(mono * r.uni(-2, 2)); }
  memcpy(grid, pre.data(), tot * sizeof(r2d_real));
  if (r.chance(0.04)) {
    // nothing to deposit: an empty polygon, or an empty range
    r2d_dvec2 tb[2] = {ib[0], ib[1]};
    PBox2 T;
    memcpy((void *)T.p, (void *)P.p, sizeof(r2d_poly));
    int what = r.range(0, 2);
    if (what == 0) T.p->nverts = 0;
    else if (what == 1) { int k = r.range(0, 1); tb[1].ij[k] = tb[0].ij[k]; }
    else {
      r2d_dvec2 cb[2] = {ib[0], ib[1]};
      int k = r.range(0, 1), w = ib[1].ij[k] - ib[0].ij[k];
      cb[0].ij[k] += w; cb[1].ij[k] += w;
      r2d_clamp_ibox(T.p, tb, cb, d);
    }
    int ts = VOX_STATUS(r2d_rasterize(T.p, tb, grid, d, p));
    M.count("trivial_calls");
    if (ts != 1) M.fail("ras-trivial-status", "rasterizing %s did not report success", what == 0 ? "an empty polygon" : "onto an empty range");
    if (memcmp(grid, pre.data(), tot * sizeof(r2d_real))) M.fail("ras-trivial-grid", "rasterizing %s changed the grid", what == 0 ? "an empty polygon" : "onto an empty range");
  }
  memcpy((void *)S.p, (void *)P.p, sizeof(r2d_poly));
  memcpy((void *)ibs, (void *)ib, sizeof ib);
  M.say("grid %dx%d at (%d,%d) d=(%.17g,%.17g) order=%d prefilled=%d grow=%d clamped=%d", n[0], n[1], ib[0].i, ib[0].j, (double)d.x, (double)d.y, p, pf, grow, clamped);
  int st = VOX_STATUS(r2d_rasterize(P.p, ib, grid, d, p));
  M.count("rasterize_calls");
  M.count("cells_written", nc);
  if (memcmp((void *)S.p, (void *)P.p, sizeof(r2d_poly))) M.fail("ras-input-modified", "rasterization changed the polygon");
  if (memcmp((void *)ibs, (void *)ib, sizeof ib)) M.fail("ras-ibox-modified", "rasterization changed the index box");
  if (st != 1) { if (S.p->nverts * 6 + 16 <= R2D_MAX_VERTS) M.fail("ras-status", "rasterization reported failure although it fits"); M.count("capacity_reported"); return; }
  int ncut = (int)ceil(log2((double)nc)) + 2;
  std::vector<LD> want = body_moments<2>(body, p), sum(nm, 0), ap(nm, 0);
  for (long c = 0; c < nc; ++c) for (int j = 0; j < nm; ++j) { sum[j] += (LD)grid[c * nm + j] - (LD)pre[c * nm + j]; ap[j] += fabsl((LD)pre[c * nm + j]); }
  // every cell is integrated on its own: rounding adds up over the cells the outline or interior reaches
  auto celltol = [&](int j, LD many) { return tol2(a, ex[j], ncut) * (1 + many * 0.02L); };
  for (int j = 0; j < nm; ++j) M.close("ras-conservation", sum[j], want[j], celltol(j, (LD)nc) + 4 * EPS2 * ap[j], "sum over cells", j);
  long cmp = 0;
  auto cell = [&](int x, int y, const Body<2> &b) {
    auto w = b.s.empty() ? std::vector<LD>(nm, 0) : body_moments<2>(b, p);
    long o = ((long)x * n[1] + y) * nm;
    for (int j = 0; j < nm; ++j) M.close("ras-cell", (LD)grid[o + j] - (LD)pre[o + j], w[j], celltol(j, 0) + 4 * EPS2 * fabsl((LD)pre[o + j]), "cell moment", j);
    ++cmp;
    if (!b.s.empty()) M.count("cells_nonempty");
  };
  auto cut = [&](Body<2> &b, int ax, int idx) {
    for (int t = 0; t < 2; ++t) {
      if (t ? idx == n[ax] - 1 : idx == 0) continue;
      Plane<2> q; q.n[0] = q.n[1] = 0; q.n[ax] = t ? -1 : 1;
      q.d = (LD)(r2d_real)(d.xy[ax] * (ib[0].ij[ax] + idx + t)) * (t ? 1 : -1);
      b.clip(q);
    }
  };
  if (nc * (long)body.s.size() < 20000) {
    for (int x = 0; x < n[0]; ++x) { Body<2> bx = body; cut(bx, 0, x); for (int y = 0; y < n[1]; ++y) { Body<2> by = bx; cut(by, 1, y); cell(x, y, by); } }
  } else for (int t = 0; t < 30; ++t) {
    int x = t == 0 ? 0 : t == 1 ? n[0] - 1 : r.range(0, n[0] - 1), y = t == 0 ? 0 : t == 1 ? n[1] - 1 : r.range(0, n[1] - 1);
    Body<2> b = body;
    cut(b, 0, x);
    cut(b, 1, y);
    cell(x, y, b);
  }
  M.count("cells_compared", cmp);
  for (long c = 0; c < nc; ++c) {
    int idx[2] = {(int)(c / n[1]), (int)(c % n[1])};
    bool out = false;
    for (int i = 0; i < 2; ++i) {
      LD lo = (LD)d.xy[i] * (ib[0].ij[i] + idx[i]), hi = lo + d.xy[i], t = 64 * EPS2 * (e.Rmax + e.L + fabsl(lo) + fabsl(hi));
      if (lo > e.hi[i] + t || hi < e.lo[i] - t) out = true;
    }
    if (!out) continue;
    M.count("cells_untouchable");
    for (int j = 0; j < nm; ++j) if (grid[c * nm + j] != pre[c * nm + j]) M.fail("ras-outside", "cell (%d,%d) is out of reach of the polygon but changed", idx[0], idx[1]);
  }
  M.sig(hashstr(s.name.c_str()), n[0] * 1000 + n[1], p, pf * 4 + clamped * 2 + (grow > 0));
}

// grids of more than 2^31 moments: the range is huge, the shape small
static void mode_bigras() {
  Rng &r = M.rng;
  Place2 pl;
  Shape s = new_shape(r, std::min(30, budget2()), pl);
  PBox2 P;
  if (!make_poly2(r, s, P.p)) M.skip("build");
  Acc2 a = acc(s);
  Ext<2> &e = a.e;
  if (e.L == 0 || pl.scale > 1e8 || pl.scale < 1e-8) M.skip("point");
  Body<2> body = shape_body(s);
  r2d_rvec2 d = spacing2(r, e, r.uni(0.4, 8));
  for (int i = 0; i < 2; ++i) if (fabsl(e.lo[i] / d.xy[i]) > 1e5L || fabsl(e.hi[i] / d.xy[i]) > 1e5L) M.skip("index-range");
  const auto &ex = exps<2>(6);
  r2d_dvec2 ib[2], bb[2];
  r2d_get_ibox(P.p, ib, d);
  long nc = 1, n[2], o[2];
  for (int i = 0; i < 2; ++i) nc *= ib[1].ij[i] - ib[0].ij[i];
  if (nc <= 0 || nc > 400) M.skip("grid-size");
  bool cells = r.chance(0.4);   // more than 2^31 cells, not only moments
  if (cells) M.count("huge_cell_ranges");
  int p = cells ? r.range(0, 1) : r.range(1, 6), nm = R2D_NUM_MOMENTS(p);
  LD target = cells ? r.uni(2.2e9, 5e9) : (r.chance(0.8) ? r.uni(2.2e9, 3e9) : r.uni(2e8, 2e9)) / nm;
  for (int t = 0;; ++t) {   // any shape of range, with the tight one somewhere inside
    LD w[2], ws = 0, tot = 1;
    for (int i = 0; i < 2; ++i) { w[i] = r.uni(0.2, 1); ws += w[i]; }
    bool ok = true;
    for (int i = 0; i < 2; ++i) {
      long k = ib[1].ij[i] - ib[0].ij[i];
      n[i] = std::max(k, (long)powl(target, w[i] / ws));
      if (i == 2 - 1) n[i] = (long)(target / tot) + 1;
      tot *= n[i];
      if (n[i] < k || n[i] > 200000000) ok = false;
      LD f = r.chance(0.6) ? 1 - pow(10, r.uni(-6, -1)) : r.uni(0, 1);
      o[i] = (long)(f * (n[i] - k));
    }
    if (ok) break;
    if (t > 50) M.skip("range");
  }
  size_t tot = nm;
  for (int i = 0; i < 2; ++i) { bb[0].ij[i] = (int)(ib[0].ij[i] - o[i]); bb[1].ij[i] = (int)(bb[0].ij[i] + n[i]); tot *= n[i]; }
  HugeGrid G(tot * sizeof(r2d_real));
  if (!G.p) M.skip("address-space");
  r2d_real *grid = (r2d_real *)G.p;
  std::vector<r2d_real> small(nc * nm, 0);
  M.say("range %ldx%ld, shape at (%ld,%ld), order %d", n[0], n[1], o[0], o[1], p);
  int st = VOX_STATUS(r2d_rasterize(P.p, ib, small.data(), d, p));
  if (st != 1) M.skip("capacity");
  st = VOX_STATUS(r2d_rasterize(P.p, bb, grid, d, p));
  if (st != 1) M.fail("big-status", "refused on the large range, accepted on the small one");
  std::vector<LD> sum(nm, 0);
  std::vector<size_t> at(nc);
  int ncut = 40;
  for (long c = 0; c < nc; ++c) {
    long rem = c, x[2];
    for (int i = 2 - 1; i >= 0; --i) { long k = ib[1].ij[i] - ib[0].ij[i]; x[i] = rem % k; rem /= k; }
    size_t g = 0;
    for (int i = 0; i < 2; ++i) g = g * n[i] + (o[i] + x[i]);
    at[c] = g * nm;
    for (int j = 0; j < nm; ++j) {
      M.close("big-cell", grid[g * nm + j], small[c * nm + j], tol2(a, ex[j], ncut) * (1 + 0.02L * nc), "cell moment on the large range", j);
      sum[j] += grid[g * nm + j];
    }
  }
  std::vector<LD> want = body_moments<2>(body, p);
  for (int j = 0; j < nm; ++j) M.close("big-sum", sum[j], want[j], 4 * tol2(a, ex[j], ncut) * (1 + 0.02L * nc), "sum over the cells", j);
  M.count("cells_compared", nc);
  M.count("big_grids");
  G.touched([&](size_t off, size_t len) {
    M.count("big_pages_inspected");
    for (size_t i = off / sizeof(r2d_real); i < (off + len) / sizeof(r2d_real); ++i) {
      if (grid[i] == 0) continue;
      size_t cell = i / nm * nm;
      if (std::binary_search(at.begin(), at.end(), cell)) continue;
      // a boundary met up to rounding may leave a trace in the next cell
      size_t rem = cell / nm;
      bool near = true;
      for (int k = 1; k >= 0; --k) { long x = (long)(rem % n[k]), w = ib[1].ij[k] - ib[0].ij[k]; rem /= n[k]; if (x < o[k] - 1 || x > o[k] + w) near = false; }
      int j = (int)(i % nm);
      if (!near || !(fabsl((LD)grid[i]) <= tol2(a, ex[j], ncut) * (1 + 0.02L * nc))) M.fail("big-outside", "moment %zu of a cell out of reach was changed", i);
    }
  });
  M.sig(p, (uint64_t)log2((double)n[0]), (uint64_t)log2((double)n[1]), nc);
}

// ------------------------------------------------------------------ construction
static void mode_init() {
  Rng &r = M.rng;
  PBox2 P;
  memset((void *)P.p, r.range(0, 255), sizeof *P.p);
  Shape s;
  Place2 pl;
  if (r.chance(0.35)) {
    double sc = pow(10, r.uni(-G2_SCALE, G2_SCALE)), off = r.chance(0.4) ? pow(10, r.uni(0, G2_OFF / 2)) : 0;
    r2d_rvec2 b[2], b0[2];
    for (int k = 0; k < 2; ++k) { b[0].xy[k] = (r2d_real)(sc * (off * (k - 0.5) + r.uni(-1, 0))); b[1].xy[k] = (r2d_real)(sc * (off * (k - 0.5) + r.uni(0, 1))); }
    if (r.chance(0.2)) { int k = r.range(1, 3); for (int i = 0; i < 2; ++i) if (k >> i & 1) std::swap(b[0].xy[i], b[1].xy[i]); M.count("boxes_reversed"); }
    memcpy((void *)b0, (void *)b, sizeof b);
    r2d_init_box(P.p, b);
    if (memcmp((void *)b0, (void *)b, sizeof b)) M.fail("init-input-modified", "bounds changed");
    if (P.p->nverts != 4) M.fail("init-count", "box with %d vertices", P.p->nverts);
    s.name = "box";
    s.loops.push_back({mk2(b[0].x, b[0].y), mk2(b[1].x, b[0].y), mk2(b[1].x, b[1].y), mk2(b[0].x, b[1].y)});
    M.say("box");
    M.count("boxes");
  } else {
    do s = gen_shape(r, r.chance(0.1) ? R2D_MAX_VERTS : budget2(), pl); while (s.loops.size() != 1);
    int n = s.nv();
    r2d_rvec2 *v = (r2d_rvec2 *)malloc(n * sizeof(r2d_rvec2)), *v0 = (r2d_rvec2 *)malloc(n * sizeof(r2d_rvec2));
    Fr fr{{v, v0}};
    for (int i = 0; i < n; ++i) v0[i] = v[i] = rv2(s.loops[0][i]);
    if (VOX_STATUS(r2d_init_poly(P.p, v, n)) != 1) M.fail("init-status", "%d vertices were refused (capacity %d)", n, R2D_MAX_VERTS);
    if (memcmp((void *)v0, (void *)v, n * sizeof *v)) M.fail("init-input-modified", "vertices changed");
    if (P.p->nverts != n) M.fail("init-count", "%d vertices became %d", n, P.p->nverts);
    M.say("%s nv=%d", s.name.c_str(), n);
    M.count("polygons");
  }
  G2 g = check_graph2(P.p, "constructed");
  if (g.loops != 1) M.fail("init-loops", "one outline became %d loops", g.loops);
  // the outline is the given one, in the given cyclic order
  int n = P.p->nverts;
  auto &l = s.loops[0];
  bool found = false;
  for (int v = 0; v < n && !found; ++v) {
    int c = v;
    bool ok = true;
    for (int i = 0; i < n && ok; ++i) { ok = P.p->verts[c].pos.x == (r2d_real)l[i][0] && P.p->verts[c].pos.y == (r2d_real)l[i][1]; c = P.p->verts[c].pnbrs[0]; }
    found = ok;
  }
  if (!found) M.fail("init-outline", "walking the polygon does not give the outline back");
  if (r2d_is_good(P.p) != 1) M.fail("init-not-good", "the validity checker rejects the polygon");
  Acc2 a = acc(s);
  int p = pl.scale > 1e12 || pl.scale < 1e-12 ? 1 : r.range(0, 3);
  cmp_moments2("init-moments", lib_moments2(P.p, p), body_moments<2>(shape_body(s), p), p, a, 0, "moment");
  M.sig(hashstr(s.name.c_str()), n, p);
}

// ------------------------------------------------------------------ edge lines
static void mode_faces() {
  Rng &r = M.rng;
  double sc = pow(10, r.uni(-G2_SCALE, G2_SCALE)), off = r.chance(0.4) ? pow(10, r.uni(0, G2_OFF / 2)) : 0;
  if (r.chance(0.4)) {
    r2d_rvec2 b[2], bb[2];
    for (int k = 0; k < 2; ++k) { double o = off * (k - 0.5); b[0].xy[k] = (r2d_real)(sc * (o + r.uni(-1, -0.01))); b[1].xy[k] = (r2d_real)(sc * (o + r.uni(0.01, 1))); }
    r2d_plane *f = (r2d_plane *)malloc(4 * sizeof(r2d_plane));
    Fr fr{{f}};
    memset((void *)f, 0x55, 4 * sizeof *f);
    r2d_box_faces_from_verts(f, b);
    M.count("box_face_sets");
    int mask = 0;
    for (int k = 0; k < 4; ++k) {
      int ax = fabs((double)f[k].n.x) > 0.5 ? 0 : 1;
      M.close("face-unit", hypotl(f[k].n.x, f[k].n.y), 1, 20 * EPS2, "normal length", k);
      if (fabs((double)f[k].n.xy[1 - ax]) > 0) M.fail("face-plane", "box side %d is not axis aligned", k);
      bool up = f[k].n.xy[ax] > 0;
      LD w = -f[k].d / f[k].n.xy[ax];
      M.close("face-plane", w, up ? b[0].xy[ax] : b[1].xy[ax], 4 * EPS2 * fabsl(w), "box side position", k);
      mask |= 1 << (2 * ax + up);
    }
    if (mask != 15) M.fail("face-set", "the four lines are not the four sides");
    PBox2 P;
    Shape s;
    for (int i = 0; i < 2; ++i) { bb[0].xy[i] = 2 * b[0].xy[i] - b[1].xy[i]; bb[1].xy[i] = 2 * b[1].xy[i] - b[0].xy[i]; }
    s.loops.push_back({mk2(bb[0].x, bb[0].y), mk2(bb[1].x, bb[0].y), mk2(bb[1].x, bb[1].y), mk2(bb[0].x, bb[1].y)});
    r2d_init_box(P.p, bb);
    r2d_clip(P.p, f, 4);
    M.close("face-intersection", lib_moments2(P.p, 0)[0], ((LD)b[1].x - b[0].x) * ((LD)b[1].y - b[0].y), tol2(acc(s), exps<2>(0)[0], 4), "box clipped to the box");
    M.sig(1, (int)log10(sc));
    return;
  }
  Place2 pl;
  Shape s;
  do s = gen_shape(r, R2D_MAX_VERTS, pl); while (s.loops.size() != 1);
  int n = s.nv();
  M.say("%s nv=%d scale=%g off=%g", s.name.c_str(), n, pl.scale, pl.off);
  r2d_rvec2 *v = (r2d_rvec2 *)malloc(n * sizeof(r2d_rvec2));
  r2d_plane *f = (r2d_plane *)malloc(n * sizeof(r2d_plane));
  Fr fr{{v, f}};
  for (int i = 0; i < n; ++i) v[i] = rv2(s.loops[0][i]);
  memset((void *)f, 0x55, n * sizeof *f);
  r2d_poly_faces_from_verts(f, v, n);
  M.count("poly_face_sets");
  Ext<2> e = shape_ext(s);
  for (int k = 0; k < n; ++k) {
    V2 a = s.loops[0][k], b = s.loops[0][(k + 1) % n];
    LD dx = (LD)b[0] - a[0], dy = (LD)b[1] - a[1], h = hypotl(dx, dy);
    if (h <= 1e-9L * e.L) { M.count("edges_too_short"); continue; }
    if (FLOAT2 && h < 1e-3L * e.L) continue;
    LD t = 50 * EPS2 * (e.Rmax / h + 1);
    if (t > 1e-3L) { M.count("edges_too_short"); continue; }
    M.close("face-unit", hypotl(f[k].n.x, f[k].n.y), 1, 20 * EPS2, "normal length", k);
    M.close("face-normal", f[k].n.x, -dy / h, t, "inward normal x", k);
    M.close("face-normal", f[k].n.y, dx / h, t, "inward normal y", k);
    for (int w = 0; w < 2; ++w) { V2 q = w ? b : a; M.close("face-plane", f[k].d + (LD)f[k].n.x * q[0] + (LD)f[k].n.y * q[1], 0, 50 * EPS2 * (e.Rmax + e.L), "end point on its line", k); }
    M.count("edge_lines_checked");
  }
  M.sig(hashstr(s.name.c_str()), n, (int)log10(pl.scale));
}

// ------------------------------------------------------------------ transforms
static void mode_xform() {
  Rng &r = M.rng;
  Place2 pl;
  Shape s = new_shape(r, r.chance(0.1) ? R2D_MAX_VERTS : std::min(60, budget2()), pl, false);
  PBox2 P, S;
  if (r.chance(0.03)) P.p->nverts = 0;
  else if (!make_poly2(r, s, P.p)) M.skip("build");
  for (int step = 0, ns = r.range(1, 3); step < ns; ++step) {
    memcpy((void *)S.p, (void *)P.p, sizeof(r2d_poly));
    Ext<2> e0 = poly_ext2(S.p);
    if (!e0.any || e0.L == 0) { LD z[2] = {1, 1}, y[2] = {0, 0}; e0.add(z); e0.add(y); }
    LD A[2][3] = {{1, 0, 0}, {0, 1, 0}}, w3[3] = {0, 0, 1};
    int op = r.range(0, 4);
    if (op == 0) {
      r2d_real t = (r2d_real)xf_angle(r);
      LD c = cosl(t), q = sinl(t);
      A[0][0] = c; A[0][1] = -q; A[1][0] = q; A[1][1] = c;
      if (r.chance(0.5)) {   // a nearly equal rotation of something else just before
        static r2d_poly q;
        r2d_rvec2 bb[2] = {{{0, 0}}, {{1, 1}}};
        r2d_init_box(&q, bb);
        r2d_rotate(&q, (r2d_real)(t * (1 + pow(10, r.uni(-12, -2)))));
      }
      r2d_rotate(P.p, t);
      M.say("rotate %.17g", (double)t);
    } else if (op == 1) {
      r2d_rvec2 t;
      for (int i = 0; i < 2; ++i) { t.xy[i] = (r2d_real)(r.chance(0.2) ? 0 : e0.L * r.uni(-3, 3)); A[i][2] = t.xy[i]; }
      r2d_translate(P.p, t);
      M.say("translate");
    } else if (op == 2) {
      r2d_real t = (r2d_real)xf_factor(r);
      A[0][0] = A[1][1] = t;
      r2d_scale(P.p, t);
      M.say("scale %g", (double)t);
    } else if (op == 3) {
      r2d_real t = (r2d_real)(r.chance(0.3) ? xf_factor(r) : r.uni(-2, 2));
      int b = r.range(0, 1), q = r.chance(0.15) ? b : 1 - b;
      if (q == b) t = std::fabs(t);   // along its own axis: a stretch
      A[b][q] += t;
      r2d_shear(P.p, t, b, q);
      M.say("shear %g axes %d %d", (double)t, b, q);
    } else {
      r2d_real m[3][3], keep[3][3];
      std::vector<std::vector<LD>> pts;
      for (int v = 0; v < S.p->nverts; ++v) pts.push_back({S.p->verts[v].pos.x, S.p->verts[v].pos.y});
      bool ok = false;
      for (int a = 0; a < 20 && !ok; ++a) ok = xf_matrix(r, 2, &m[0][0], (double)e0.L, (double)e0.Rmax, pts);
      if (!ok) M.skip("matrix");
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) A[i][j] = m[i][j];
      bool persp = m[2][0] != 0 || m[2][1] != 0;
      M.count(persp ? "projective_maps" : "affine_maps");
      for (int j = 0; j < 3; ++j) w3[j] = m[2][j];
      memcpy(keep, m, sizeof m);
      r2d_affine(P.p, m);
      if (memcmp(keep, m, sizeof m)) M.fail("xform-matrix-modified", "the matrix was written to");
      M.say("affine persp=%d", persp);
    }
    M.count("transforms");
    if (P.p->nverts != S.p->nverts) M.fail("xform-count", "vertex count changed");
    for (int v = 0; v < P.p->nverts; ++v) {
      for (int k = 0; k < 2; ++k) if (P.p->verts[v].pnbrs[k] != S.p->verts[v].pnbrs[k]) M.fail("xform-graph", "connectivity changed");
      LD w = w3[2], wm = fabsl(w3[2]);
      for (int j = 0; j < 2; ++j) { w += w3[j] * S.p->verts[v].pos.xy[j]; wm += fabsl(w3[j] * S.p->verts[v].pos.xy[j]); }
      for (int i = 0; i < 2; ++i) {
        LD x = A[i][2], mag = fabsl(A[i][2]);
        for (int j = 0; j < 2; ++j) { x += A[i][j] * S.p->verts[v].pos.xy[j]; mag += fabsl(A[i][j] * S.p->verts[v].pos.xy[j]); }
        M.close("xform-position", P.p->verts[v].pos.xy[i], x / w, 30 * EPS2 * mag / fabsl(w) * (wm / fabsl(w)) + 10 * (LD)std::numeric_limits<r2d_real>::min(), "transformed coordinate", i);
      }
      M.count("vertices_checked");
    }
    for (int v = P.p->nverts; v < R2D_MAX_VERTS; ++v) if (memcmp((void *)&P.p->verts[v], (void *)&S.p->verts[v], sizeof(r2d_vertex))) M.fail("xform-slack", "an unused vertex slot was written");
    M.sig(hashstr(s.name.c_str()), op, step, P.p->nverts);
  }
}

// ------------------------------------------------------------------ orientation
static void mode_orient() {
  Rng &r = M.rng;
  double sc = pow(10, r.uni(-G2_SCALE, G2_SCALE)), off = r.chance(0.5) ? pow(10, r.uni(0, G2_OFF)) : 0;
  r2d_rvec2 v[3];
  int flat = r.range(0, 4);
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) v[i].xy[k] = (r2d_real)(sc * ((flat == 1 ? r.range(-3, 3) : r.uni(-1, 1)) + off * (k - 0.5)));
  if (flat == 2) v[r.range(0, 2)] = v[r.range(0, 2)];
  if (flat == 3) { double t = r.uni(-1, 2); for (int k = 0; k < 2; ++k) v[2].xy[k] = (r2d_real)(v[0].xy[k] + t * (v[1].xy[k] - v[0].xy[k])); }
  Simp<2> s;
  Ext<2> e;
  for (int i = 0; i < 3; ++i) { LD q[2]; for (int k = 0; k < 2; ++k) q[k] = s.x[i][k] = v[i].xy[k]; e.add(q); }
  LD want = simp_det<2>(s) / 2, tol = 20 * EPS2 * e.L * e.L + 1000 * (LD)std::numeric_limits<r2d_real>::min();
  M.close("orient", r2d_orient(v[0], v[1], v[2]), want, tol, "signed area");
  M.close("orient", r2d_orient(v[1], v[2], v[0]), want, tol, "signed area, rotated");
  M.close("orient", r2d_orient(v[1], v[0], v[2]), -want, tol, "signed area, swapped");
  PBox2 P;
  r2d_init_poly(P.p, v, 3);
  Shape sh;
  sh.loops.push_back({mk2(v[0].x, v[0].y), mk2(v[1].x, v[1].y), mk2(v[2].x, v[2].y)});
  M.close("orient-triangle", lib_moments2(P.p, 0)[0], want, tol2(acc(sh), exps<2>(0)[0], 0), "area of the triangle");
  M.count("orient_calls", 3);
  M.say("scale=%g off=%g flat=%d", sc, off, flat);
  M.sig(flat, want > 0 ? 1 : want < 0 ? 2 : 3, (int)log10(sc));
}

// ------------------------------------------------------------------ validity checker
static void mode_isgood() {
  Rng &r = M.rng;
  Place2 pl;
  PBox2 P, S;
  Shape s = new_shape(r, r.chance(0.1) ? R2D_MAX_VERTS : 30, pl);
  if (!build_poly2(r, s, P.p)) M.skip("build");
  if (r.chance(0.15)) {  // every vertex slot in use
    int c = R2D_MAX_VERTS;
    P.p->nverts = c;
    for (int i = 0; i < c; ++i) {
      P.p->verts[i].pnbrs[0] = (i + 1) % c; P.p->verts[i].pnbrs[1] = (i + c - 1) % c;
      P.p->verts[i].pos.x = (r2d_real)cosl(2 * M_PIl * i / c); P.p->verts[i].pos.y = (r2d_real)sinl(2 * M_PIl * i / c);
    }
    M.count("full_buffer_graphs");
  }
  int n = P.p->nverts, v = r.range(0, n - 1), j = r.range(0, 1), kind = r.range(0, 7);
  if (r.chance(0.1)) v = n - 1;
  bool want = true;
  switch (kind) {
    case 0: case 1: {
      if (r.chance(0.5)) { int cls; Plane<2> q = gen_line(r, s, shape_ext(s), cls); r2d_plane rq = rp2(q); if (VOX_STATUS(r2d_clip(P.p, &rq, 1)) != 1) M.skip("capacity"); }
      if (P.p->nverts == 0) M.skip("empty");
      break;
    }
    case 2: P.p->verts[v].pnbrs[j] = P.p->verts[v].pnbrs[1 - j]; want = false; break;
    case 3: { int c = r.range(0, 5); P.p->verts[v].pnbrs[j] = c == 0 ? n : c == 1 ? -1 : c == 2 ? R2D_MAX_VERTS : c == 3 ? INT32_MAX : c == 4 ? INT32_MIN : n + r.range(1, 999); want = false; break; }
    case 4: P.p->verts[v].pnbrs[j] = v; want = false; break;
    case 5: {  // a vertex that points to itself while every vertex is still pointed to twice
      P.p->nverts = n = r.range(3, std::min(12, (int)R2D_MAX_VERTS));
      for (int i = 0; i < n; ++i) { P.p->verts[i].pnbrs[j] = i; P.p->verts[i].pnbrs[1 - j] = (i + 1) % n; P.p->verts[i].pos.x = P.p->verts[i].pos.y = (r2d_real)i; }
      want = false;
      break;
    }
    case 7: {  // two vertices joined by both their links, every vertex pointed to exactly twice
      if (n + 2 > R2D_MAX_VERTS) { n -= 2; if (n < 3) M.skip("size"); for (int i = 0; i < n; ++i) { P.p->verts[i].pnbrs[0] = (i + 1) % n; P.p->verts[i].pnbrs[1] = (i + n - 1) % n; } }
      int a = r.chance(0.5) ? n : r.range(0, n - 1);   // slot of the pair's first vertex
      for (int k = 0; k < 2; ++k) { P.p->verts[n + k] = P.p->verts[0]; P.p->verts[n + k].pnbrs[0] = P.p->verts[n + k].pnbrs[1] = n + 1 - k; }
      P.p->nverts = n + 2;
      if (a < n) {  // swap slots a and n
        r2d_vertex t = P.p->verts[a]; P.p->verts[a] = P.p->verts[n]; P.p->verts[n] = t;
        for (int i = 0; i < n + 2; ++i) for (int k = 0; k < 2; ++k) { r2d_int &x = P.p->verts[i].pnbrs[k]; if (x == a) x = n; else if (x == n) x = a; }
      }
      n += 2;
      want = false;
      break;
    }
    case 6: {  // somebody else's neighbour: in-degrees 1 and 3
      int w = r.range(0, n - 1);
      if (w == v || w == P.p->verts[v].pnbrs[0] || w == P.p->verts[v].pnbrs[1]) M.skip("same");
      P.p->verts[v].pnbrs[j] = w;
      want = false;
      break;
    }
  }
  memcpy((void *)S.p, (void *)P.p, sizeof(r2d_poly));
  int got = r2d_is_good(P.p);
  M.count("is_good_calls");
  if (memcmp((void *)S.p, (void *)P.p, sizeof(r2d_poly))) M.fail("isgood-input-modified", "the validity check changed the polygon");
  if (got != (int)want) M.fail("isgood", "kind %d, %d vertices: answered %d, expected %d", kind, n, got, want);
  M.count(want ? "accepted" : "rejected");
  M.say("kind %d", kind);
  M.sig(kind, n, want);
}

// ------------------------------------------------------------------ histories
static void mode_history() {
  Rng &r = M.rng;
  Place2 pl;
  Shape s = new_shape(r, r.chance(0.1) ? R2D_MAX_VERTS / 2 : std::min(60, budget2()), pl, false);
  std::vector<r2d_poly> pool;
  pool.reserve(8);
  pool.resize(1);
  if (!make_poly2(r, s, &pool[0])) M.skip("build");
  Ext<2> e0 = shape_ext(s);
  static r2d_poly po, ne;
  for (int st = 0, steps = r.range(2, 14); st < steps; ++st) {
    r2d_poly &Q = pool[r.range(0, (int)pool.size() - 1)];
    Ext<2> e = Q.nverts ? poly_ext2(&Q) : e0;
    Plane<2> q;
    int cls;
    if (Q.nverts && r.chance(0.4)) {
      int a = r.range(0, Q.nverts - 1), b = r.chance(0.5) ? Q.verts[a].pnbrs[0] : r.range(0, Q.nverts - 1);
      LD n[2] = {-((LD)Q.verts[b].pos.y - Q.verts[a].pos.y), (LD)Q.verts[b].pos.x - Q.verts[a].pos.x}, pt[2] = {Q.verts[a].pos.x, Q.verts[a].pos.y};
      if (hypotl(n[0], n[1]) <= 1e-12L * e.L) { n[0] = 1; n[1] = 0; }
      q = line_thru(n, pt);
    } else q = gen_line(r, s, e, cls);
    r2d_plane rq = rp2(q);
    bool was_empty = Q.nverts == 0;
    LD before = poly_body2(&Q).volume();
    Acc2 a;
    a.e = e; a.n = Q.nverts + 4;
    for (int v = 0; v < Q.nverts; ++v) { int w = Q.verts[v].pnbrs[0]; a.per += hypotl((LD)Q.verts[v].pos.x - Q.verts[w].pos.x, (LD)Q.verts[v].pos.y - Q.verts[w].pos.y); }
    switch (r.range(0, 4)) {
      case 0: case 1: {
        r2d_poly t = Q;
        r2d_plane two[2] = {rq, rq};
        int np = r.chance(0.25) ? 2 : 1;
        Plane<2> q2 = q;
        if (np == 2) { q2 = gen_line(r, s, e, cls); two[1] = rp2(q2); }
        if (VOX_STATUS(r2d_clip(&t, two, np)) != 1) { M.count("capacity_reported"); break; }
        Body<2> b = poly_body2(&Q);
        b.clip(q);
        if (np == 2) b.clip(q2);
        Q = t;
        check_graph2(&Q, "clip in history");
        M.close("history-area", poly_body2(&Q).volume(), b.volume(), tol2(a, exps<2>(0)[0], 1), "area after clip");
        M.count("history_clips");
        break;
      }
      case 2: case 3: {
        r2d_poly t = Q;
        if (VOX_STATUS(r2d_split(&t, 1, rq, &po, &ne)) != 1) { M.count("capacity_reported"); break; }
        check_graph2(&po, "split+ in history");
        check_graph2(&ne, "split- in history");
        M.close("history-area", poly_body2(&po).volume() + poly_body2(&ne).volume(), before, tol2(a, exps<2>(0)[0], 1), "area of both parts");
        if (was_empty && (po.nverts || ne.nverts)) M.fail("history-empty", "splitting an empty polygon gave %d/%d vertices", po.nverts, ne.nverts);
        Q = po;
        if (pool.size() < 5) pool.push_back(ne);
        M.count("history_splits");
        break;
      }
      case 4: {
        r2d_rvec2 t;
        t.x = (r2d_real)(e.L * r.uni(-1, 1)); t.y = (r2d_real)(e.L * r.uni(-1, 1));
        switch (r.range(0, 3)) {
          case 0: r2d_rotate(&Q, (r2d_real)r.uni(-4, 4)); break;
          case 1: r2d_translate(&Q, t); break;
          case 2: r2d_scale(&Q, (r2d_real)r.uni(0.3, 2)); break;
          case 3: r2d_shear(&Q, (r2d_real)r.uni(-1, 1), 0, 1); break;
        }
        check_graph2(&Q, "transform in history");
        M.count("history_transforms");
        break;
      }
    }
    if (was_empty && Q.nverts) M.fail("history-empty", "step %d: an empty polygon became non-empty", st);
    if (Q.nverts > 0) { M.count("is_good_calls"); if (r2d_is_good(&Q) != 1) M.fail("history-not-good", "step %d: the validity checker rejects a polygon with %d vertices", st, Q.nverts); }
  }
  for (auto &Q : pool) if (Q.nverts) { G2 g = check_graph2(&Q, "final"); M.sig(hashstr(s.name.c_str()), Q.nverts, g.loops); }
}

// ------------------------------------------------------------------ capacity
static void mode_capacity() {
  Rng &r = M.rng;
  int cap = R2D_MAX_VERTS, op = r.range(0, 4);
  PBox2 P, S;
  Shape s;
  if (op == 0) {
    int n = std::max(3, cap + r.range(-3, 4));
    s = s_convex(r, n);
    for (auto &v : s.loops[0]) for (int i = 0; i < 2; ++i) v[i] = (double)(r2d_real)v[i];
    std::vector<r2d_rvec2> v;
    for (auto &x : s.loops[0]) v.push_back(rv2(x));
    M.say("construct n=%d cap=%d", n, cap);
    int st = VOX_STATUS(r2d_init_poly(P.p, v.data(), n));
    if (n > cap) { if (st == 1) M.fail("capacity-init", "%d vertices accepted, capacity %d", n, cap); M.count("refused"); M.sig(0, n - cap); return; }
    if (st != 1) M.fail("capacity-init", "%d vertices refused, capacity %d", n, cap);
    check_graph2(P.p, "constructed at capacity");
    M.close("capacity-init-area", lib_moments2(P.p, 0)[0], shape_body(s).volume(), tol2(acc(s), exps<2>(0)[0], 0), "area");
    M.count("fits");
    if (n == cap) M.count("exact_fits");
    M.sig(0, n - cap);
    return;
  }
  // a comb cut across its teeth: 2*(teeth+1) crossings
  bool two = op == 2, onecut = op > 3 && r.chance(0.5);
  int fac = two || onecut ? 2 : 1, teeth = std::max(1, (cap - 4) / (4 + 2 * fac) + r.range(-2, 2));
  s = r.chance(0.3) ? s_convex(r, std::max(3, cap + r.range(-5, 0))) : s_comb(r, teeth);
  if (s.nv() > cap) M.skip("size");
  // a single cut along a grid line: the shape straddles y = 0 and lies within one column of cells
  if (onecut) for (auto &v : s.loops[0]) { v[0] += 1.5; v[1] -= 0.2; }
  for (auto &v : s.loops[0]) for (int i = 0; i < 2; ++i) v[i] = (double)(r2d_real)v[i];
  if (!build_poly2(r, s, P.p)) M.skip("build");
  Acc2 a = acc(s);
  LD nn[2] = {0, r.chance(0.5) ? 1.0L : -1.0L}, pt[2] = {0, onecut ? 0 : 0.2L};
  Plane<2> q = line_thru(nn, pt);
  r2d_plane rq = rp2(q);
  int lo, hi, n0 = P.p->nverts;
  crossings2(P.p, rq, lo, hi);
  Body<2> b = shape_body(s);
  b.clip(q);
  M.say("op %d %s n=%d crossings=%d cap=%d", op, s.name.c_str(), n0, hi, cap);
  if (op == 1 || op == 3) {
    std::vector<r2d_plane> pls;
    if (op == 3) for (int i = r.range(1, 3); i > 0; --i) { r2d_plane f; f.n.x = i % 2; f.n.y = 1 - i % 2; f.d = 100; pls.push_back(f); }
    pls.push_back(rq);
    int st = VOX_STATUS(r2d_clip(P.p, pls.data(), (r2d_int)pls.size()));
    if (st == 1) {
      if (n0 + lo > cap) M.fail("capacity-clip", "success reported but %d vertices are needed", n0 + lo);
      check_graph2(P.p, "clip at capacity");
      M.close("capacity-clip-area", lib_moments2(P.p, 0)[0], b.volume(), tol2(a, exps<2>(0)[0], 1), "area");
      M.count("fits");
      if (n0 + hi == cap) M.count("exact_fits");
    } else { if (n0 + hi <= cap) M.fail("capacity-clip", "refused although %d <= %d", n0 + hi, cap); M.count("refused"); }
    M.sig(1, n0 + hi - cap, st);
  } else if (op == 2) {
    int pos = r.range(0, 1);
    r2d_poly *in = (r2d_poly *)malloc(2 * sizeof(r2d_poly)), *po = (r2d_poly *)malloc(2 * sizeof(r2d_poly)), *ne = (r2d_poly *)malloc(2 * sizeof(r2d_poly));
    Fr fr{{in, po, ne}};
    memset((void *)po, 0x5f, 2 * sizeof *po);
    memset((void *)ne, 0x5f, 2 * sizeof *po);
    in[pos] = *P.p;
    r2d_rvec2 bx[2];
    bx[0].x = bx[0].y = -1; bx[1].x = bx[1].y = 1;
    r2d_init_box(&in[1 - pos], bx);
    int st = VOX_STATUS(r2d_split(in, 2, rq, po, ne));
    if (st == 1) {
      if (n0 + 2 * lo > cap) M.fail("capacity-split", "success reported but %d vertices are needed", n0 + 2 * lo);
      check_graph2(&po[pos], "split at capacity +");
      check_graph2(&ne[pos], "split at capacity -");
      M.close("capacity-split-area", lib_moments2(&po[pos], 0)[0], b.volume(), tol2(a, exps<2>(0)[0], 1), "area");
      M.count("fits");
      if (n0 + 2 * hi == cap) M.count("exact_fits");
    } else { if (n0 + 2 * hi <= cap) M.fail("capacity-split", "refused although %d <= %d", n0 + 2 * hi, cap); M.count("refused"); }
    M.sig(2, n0 + 2 * hi - cap, st);
  } else {
    r2d_rvec2 d;
    for (int i = 0; i < 2; ++i) d.xy[i] = (r2d_real)(onecut ? r.uni(3, 6) : a.e.L / r.uni(0.7, 6));
    r2d_dvec2 ib[2];
    r2d_get_ibox(P.p, ib, d);
    long nc = (long)(ib[1].i - ib[0].i) * (ib[1].j - ib[0].j);
    r2d_real *g = (r2d_real *)calloc(nc, sizeof(r2d_real));
    Fr fr{{g}};
    memcpy((void *)S.p, (void *)P.p, sizeof(r2d_poly));
    int st = VOX_STATUS(r2d_rasterize(P.p, ib, g, d, 0));
    if (memcmp((void *)S.p, (void *)P.p, sizeof(r2d_poly))) M.fail("ras-input-modified", "rasterization changed the polygon");
    LD sum = 0;
    for (long c = 0; c < nc; ++c) sum += g[c];
    if (st == 1) { M.close("capacity-ras", sum, shape_body(s).volume(), tol2(a, exps<2>(0)[0], 12), "sum over cells"); M.count("fits"); }
    else { if (3 * n0 <= cap || (onecut && nc <= 2 && n0 + 2 * hi <= cap)) M.fail("capacity-ras", "refused although it fits"); M.count("refused"); }
    if (onecut && st == 1 && n0 + 2 * lo > cap) M.fail("capacity-ras", "success reported but %d vertices are needed", n0 + 2 * lo);
    if (onecut && n0 + 2 * hi == cap) M.count("exact_fits");
    M.sig(3, n0, nc, st);
  }
}

// ------------------------------------------------------------------ hostile but legal use
static void mode_mem() {
  Rng &r = M.rng;
  Place2 pl;
  PBox2 P, O;
  Shape s = gen_shape(r, budget2(), pl);
  int kind = r.range(0, 7);
  if (kind == 0) P.p->nverts = 0;
  else if (kind == 1) { for (auto &l : s.loops) for (auto &v : l) if (r.chance(0.5)) v = l[0]; if (!build_poly2(r, s, P.p)) M.skip("build"); }
  else if (kind == 2) { s = s_convex(r, R2D_MAX_VERTS); if (!build_poly2(r, s, P.p)) M.skip("build"); }
  else if (!make_poly2(r, s, P.p)) M.skip("build");
  M.say("kind %d %s nv=%d", kind, s.name.c_str(), s.nv());
  Ext<2> e = shape_ext(s);
  for (int st = 0, ops = r.range(1, 6); st < ops; ++st) {
    int op = r.range(0, 8);
    M.count("hostile_calls");
    switch (op) {
      case 0: {
        int n = r.range(0, 5), cls;
        r2d_plane *pls = (r2d_plane *)malloc(std::max(1, n) * sizeof(r2d_plane));
        for (int i = 0; i < n; ++i) pls[i] = rp2(gen_line(r, s, e, cls));
        int ok = VOX_STATUS(r2d_clip(P.p, pls, n));
        free(pls);
        if (ok != 1) return;
        break;
      }
      case 1: {
        int cls;
        r2d_plane q = rp2(gen_line(r, s, e, cls));
        *O.p = *P.p;
        PBox2 A, B;
        if (VOX_STATUS(r2d_split(O.p, 1, q, A.p, B.p)) == 1) *P.p = r.chance(0.5) ? *A.p : *B.p;
        break;
      }
      case 2: lib_moments2(P.p, r.chance(0.1) ? r.range(8, 20) : r.range(0, 5)); break;
      case 3: r2d_is_good(P.p); break;
      case 4: {
        if (P.p->nverts == 0) { r2d_dvec2 ib[2]; r2d_rvec2 d; d.x = d.y = 1; r2d_get_ibox(P.p, ib, d); break; }
        Ext<2> pe = poly_ext2(P.p);
        r2d_rvec2 d;
        for (int i = 0; i < 2; ++i) d.xy[i] = (r2d_real)(std::max(pe.L, e.L * 1e-3L) / r.uni(0.5, 5));
        bool ok = true;
        for (int i = 0; i < 2; ++i) if (!(fabsl(pe.Rmax / d.xy[i]) < 1e8L)) ok = false;
        if (!ok) break;
        r2d_dvec2 ib[2], cb[2];
        r2d_get_ibox(P.p, ib, d);
        if (r.chance(0.5)) {
          for (int i = 0; i < 2; ++i) { cb[0].ij[i] = ib[0].ij[i] + r.range(-1, 1); cb[1].ij[i] = ib[1].ij[i] + r.range(-1, 1); }
          if (VOX_STATUS(r2d_clamp_ibox(P.p, ib, cb, d)) != 1) return;
        }
        long nc = 1;
        for (int i = 0; i < 2; ++i) nc *= std::max(0, ib[1].ij[i] - ib[0].ij[i]);
        int p = r.range(0, 3);
        r2d_real *g = (r2d_real *)calloc(std::max(1L, nc * R2D_NUM_MOMENTS(p)), sizeof(r2d_real));
        r2d_rasterize(P.p, ib, g, d, p);
        if (nc > 0) { r2d_rasterize(nullptr, ib, g, d, p); r2d_rasterize(P.p, ib, nullptr, d, p); }
        free(g);
        break;
      }
      case 5: r2d_rotate(P.p, (r2d_real)r.uni(-9, 9)); { r2d_rvec2 t; t.x = t.y = (r2d_real)e.L; r2d_translate(P.p, t); } break;
      case 6: r2d_scale(P.p, (r2d_real)r.uni(0.5, 2)); r2d_shear(P.p, (r2d_real)r.uni(-1, 1), r.range(0, 1), r.range(0, 1)); break;
      case 7: r2d_print(P.p); if (P.p->nverts) r2d_poly_center(P.p); break;
      case 8: {
        int n = r.range(1, 40);
        r2d_rvec2 *v = (r2d_rvec2 *)malloc(n * sizeof(r2d_rvec2));
        r2d_plane *f = (r2d_plane *)malloc(n * sizeof(r2d_plane));
        for (int i = 0; i < n; ++i) { v[i].x = (r2d_real)r.uni(-1, 1); v[i].y = (r2d_real)r.uni(-1, 1); }
        r2d_poly_faces_from_verts(f, v, n);
        r2d_init_poly(O.p, v, n);
        free(v);
        free(f);
        break;
      }
    }
    M.sig(kind, op, P.p->nverts);
  }
}

static void init2() { if (FLOAT2) { G2_SCALE = 2; G2_XSCALE = 3; G2_OFF = 1.5; } }
// ------------------------------------------------------------------ printing
static void mode_print() {
  Rng &r = M.rng;
  Place2 pl;
  Shape s = new_shape(r, budget2(), pl);
  PBox2 P, S;
  if (!make_poly2(r, s, P.p)) M.skip("build");
  if (r.chance(0.03)) P.p->nverts = 0;
  memcpy((void *)S.p, (void *)P.p, sizeof(r2d_poly));
  std::string out = capture_stdout([&] { r2d_print(P.p); });
  M.count("prints");
  M.count("bytes_printed", (long)out.size());
  if (memcmp((void *)S.p, (void *)P.p, sizeof(r2d_poly))) M.fail("print-modified", "printing changed the shape");
  std::vector<PrintedLine> L = printed_lines(out);
  if ((int)L.size() != P.p->nverts) M.fail("print-lines", "%d vertices, %zu lines printed", P.p->nverts, L.size());
  for (int v = 0; v < P.p->nverts; ++v) {
    const auto &n = L[v].num;
    if ((int)n.size() != 1 + 2 * 2) M.fail("print-line", "vertex %d: %zu numbers printed instead of index, %d coordinates, %d neighbours", v, n.size(), 2, 2);
    if (atol(n[0].c_str()) != v) M.fail("print-index", "line %d is labelled %s", v, n[0].c_str());
    for (int i = 0; i < 2; ++i) {
      if (!printed_close(n[1 + i], P.p->verts[v].pos.xy[i], 11)) M.fail("print-coordinate", "vertex %d axis %d: %s printed for %.17g", v, i, n[1 + i].c_str(), (double)P.p->verts[v].pos.xy[i]);
      if (atol(n[1 + 2 + i].c_str()) != P.p->verts[v].pnbrs[i]) M.fail("print-neighbour", "vertex %d neighbour %d: %s printed for %d", v, i, n[1 + 2 + i].c_str(), (int)P.p->verts[v].pnbrs[i]);
    }
    M.count("vertices_printed");
  }
  M.sig(0, P.p->nverts, out.size());
}

// boxes on a quarter-cell lattice at cell indices near the ends of the integer range (one axis; the others near the origin):
// index box, clamping and every cell are known exactly
static void mode_farras() {
  Rng &r = M.rng;
  PBox2 P;
  int ax = r.range(0, 2 - 1), ord = r.range(0, 1);
  r2d_rvec2 d, b[2];
  long lo[2], hi[2];   // in quarter cells
  for (int i = 0; i < 2; ++i) {
    d.xy[i] = (r2d_real)ldexp(1, r.range(-12, 12));
    long base = i != ax ? r.range(-8, 8) : (r.chance(0.5) ? 1 : -1) * (r.chance(0.7) ? (1L << 30) + r.range(0, 1 << 29) + r.range(0, (1 << 29) - 100) : (1L << r.range(24, 30)) - r.range(0, 12));
    int w = i == ax ? r.range(1, 24) : r.range(1, 20);
    lo[i] = 4 * base + r.range(0, 3);
    hi[i] = lo[i] + w;
    if (false) { lo[i] |= 1; hi[i] |= 1; if (hi[i] <= lo[i]) hi[i] += 2; }
    b[0].xy[i] = (r2d_real)(d.xy[i] * (lo[i] / (LD)4));
    b[1].xy[i] = (r2d_real)(d.xy[i] * (hi[i] / (LD)4));
  }
  r2d_init_box(P.p, b);
  r2d_dvec2 ib[2], cb[2], ibs[2];
  auto fl = [](long q) { return q >= 0 ? q / 4 : -((-q + 3) / 4); };
  auto ce = [](long q) { return q >= 0 ? (q + 3) / 4 : -((-q) / 4); };
  r2d_get_ibox(P.p, ib, d);
  M.say("axis %d index %ld..%ld d=%g", ax, fl(lo[ax]), ce(hi[ax]), (double)d.xy[ax]);
  for (int i = 0; i < 2; ++i) if (ib[0].ij[i] != fl(lo[i]) || ib[1].ij[i] != ce(hi[i])) M.fail("far-ibox", "axis %d: %d..%d, expected %ld..%ld", i, ib[0].ij[i], ib[1].ij[i], fl(lo[i]), ce(hi[i]));
  M.count("far_boxes");
  bool clamp = r.chance(0.4), cut = false;
  if (clamp) {
    for (int i = 0; i < 2; ++i) {
      int n = ib[1].ij[i] - ib[0].ij[i], x = r.chance(0.5) ? r.range(0, n - 1) : -r.range(0, 3), y = r.range(std::max(x, 0) + 1, n + 2);
      cb[0].ij[i] = ib[0].ij[i] + x;
      cb[1].ij[i] = ib[0].ij[i] + y;
      if (x > 0 || y < n) cut = true;
      lo[i] = std::max(lo[i], 4L * cb[0].ij[i]);
      hi[i] = std::min(hi[i], 4L * cb[1].ij[i]);
    }
    r2d_dvec2 want[2];
    for (int i = 0; i < 2; ++i) { want[0].ij[i] = std::max(ib[0].ij[i], cb[0].ij[i]); want[1].ij[i] = std::min(ib[1].ij[i], cb[1].ij[i]); }
    if (VOX_STATUS(r2d_clamp_ibox(P.p, ib, cb, d)) != 1) M.fail("far-clamp-status", "clamping a box reported failure");
    for (int i = 0; i < 2; ++i) if (ib[0].ij[i] != want[0].ij[i] || ib[1].ij[i] != want[1].ij[i]) M.fail("far-clamp", "axis %d: %d..%d, expected %d..%d", i, ib[0].ij[i], ib[1].ij[i], want[0].ij[i], want[1].ij[i]);
    M.count("far_clamps");
    for (int i = 0; i < 2; ++i) if (hi[i] <= lo[i]) { if (P.p->nverts) M.fail("far-clamp", "nothing of the box is inside, but %d vertices remain", P.p->nverts); return; }
  } else if (r.chance(0.3)) for (int i = 0; i < 2; ++i) { ib[0].ij[i] -= r.range(0, 2); ib[1].ij[i] += r.range(0, 2); }
  long n[2], tot = 1;
  for (int i = 0; i < 2; ++i) { n[i] = ib[1].ij[i] - ib[0].ij[i]; tot *= n[i]; }
  int nm = ord ? 3 : 1;
  std::vector<r2d_real> g(tot * nm), pre(tot * nm);
  LD cv = 1;
  for (int i = 0; i < 2; ++i) cv *= d.xy[i];
  bool pf = r.chance(0.5);
  for (long k = 0; k < tot * nm; ++k) g[k] = pre[k] = (r2d_real)(pf && k % nm == 0 ? cv * r.uni(-2, 2) : 0);
  memcpy((void *)ibs, (void *)ib, sizeof ib);
  int st = VOX_STATUS(r2d_rasterize(P.p, ib, g.data(), d, ord));
  M.count("far_grids");
  if (st != 1) M.fail("far-status", "reported failure although it fits");
  if (memcmp((void *)ibs, (void *)ib, sizeof ib)) M.fail("far-ibox-modified", "the index box was changed");
  for (long k = 0; k < tot; ++k) {
    LD v = cv, c[2];
    long q = k;
    for (int i = 2 - 1; i >= 0; --i) {
      long cell = ib[0].ij[i] + q % n[i];
      q /= n[i];
      long x = std::max(lo[i], 4 * cell), y = std::min(hi[i], 4 * cell + 4);
      v *= std::max(0L, y - x) / (LD)4;
      c[i] = (x + y) / (LD)8 * d.xy[i];
    }
    M.close("far-cell", (LD)g[k * nm] - pre[k * nm], v, 2e-4L * cv, "content of a cell");
    for (int j = 1; j < nm; ++j) M.close("far-moment", (LD)g[k * nm + j] - pre[k * nm + j], v * c[j - 1], 2e-4L * cv * (fabsl(c[j - 1]) + 4 * d.xy[j - 1]), "first moment of a cell");
    M.count(v > 0 ? "cells_nonempty" : "cells_empty");
  }
  M.count("cells_compared", tot);
  M.sig(ax, lo[ax] < 0, tot, clamp + cut);
}

#ifndef MODE_LIST
#define MODE_LIST X(bigras) X(farras) X(clip) X(split) X(moments) X(shift) X(ibox) X(ras) X(init) X(faces) X(xform) X(orient) X(isgood) X(history) X(capacity) X(mem) X(print)
#endif
#define X(m) {#m, mode_##m},
static const Mode MODES[] = {MODE_LIST};
int main(int argc, char **argv) { return run_monitor(argc, argv, MODES, sizeof MODES / sizeof *MODES, init2); }
