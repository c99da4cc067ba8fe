// Paired-execution and concurrency monitors over the whole public interface.
//
// A script is a list of calls (2D, 3D, N-dimensional) whose inputs are generated once
// and then only read.  Executing it appends every observable output to a log.
//   det      the same script is executed under different prior contents of output
//            storage, unused vertex slots, stack and heap, with other scripts in
//            between: the logs must be identical and the inputs unchanged.
//   threads  many threads execute scripts at the same time, sharing the inputs: no race
//            (ThreadSanitizer) and every log identical to that of the sequential run.
#include "common.h"
#include "oracle.h"
#include "mesh3.h"
extern "C" {
#include "r3d.h"
#include "v3d.h"
#include "r2d.h"
#include "v2d.h"
#include "rNd.h"
#include "vNd.h"
}
#include "poly3.h"
#include "poly2.h"
#include "status.h"
#include <alloca.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif

static const int D = RND_DIM;
typedef std::vector<unsigned char> Bytes;

struct Op { int kind; uint64_t seed; int sub = 0; };
struct Script {
  Mesh mesh;
  Ext<3> e3;
  r3d_poly *p3 = nullptr;
  std::vector<r3d_plane> pl3;
  std::vector<r3d_rvec3> v3;
  std::vector<r3d_int *> fi;
  std::vector<r3d_int> npf;
  r2d_poly *p2 = nullptr;
  Ext<2> e2;
  std::vector<r2d_plane> pl2;
  std::vector<r2d_rvec2> v2;
  rNd_poly *pn = nullptr;
  std::vector<rNd_plane> pln;
  std::vector<rNd_rvec> vn;
  r3d_rvec3 d3; r2d_rvec2 d2; rNd_rvec dn;
  r3d_dvec3 cb3[2]; r2d_dvec2 cb2[2]; rNd_dvec cbn[2];
  std::vector<Op> ops;
  void clear() {
    free(p3); free(p2); free(pn);
    for (auto *f : fi) free(f);
    fi.clear();
    p3 = nullptr; p2 = nullptr; pn = nullptr;
  }
  ~Script() { clear(); }
  Script() {}
  Script(const Script &) = delete;
  // the same script on data scaled by 1+e: nearly the same arguments for every call
  void near(const Script &o, double e) {
    clear();
    double f = 1 + e;
    mesh = o.mesh; e3 = o.e3; e2 = o.e2; ops = o.ops;
    p3 = (r3d_poly *)malloc(sizeof *p3); memcpy((void *)p3, (void *)o.p3, sizeof *p3);
    p2 = (r2d_poly *)malloc(sizeof *p2); memcpy((void *)p2, (void *)o.p2, sizeof *p2);
    pn = (rNd_poly *)malloc(sizeof *pn); memcpy((void *)pn, (void *)o.pn, sizeof *pn);
    for (int v = 0; v < p3->nverts; ++v) for (int i = 0; i < 3; ++i) p3->verts[v].pos.xyz[i] *= f;
    for (int v = 0; v < p2->nverts; ++v) for (int i = 0; i < 2; ++i) p2->verts[v].pos.xy[i] *= f;
    for (int v = 0; v < pn->nverts; ++v) for (int i = 0; i < RND_DIM; ++i) pn->verts[v].pos.xyz[i] *= f;
    pl3 = o.pl3; pl2 = o.pl2; pln = o.pln; v3 = o.v3; v2 = o.v2; vn = o.vn; npf = o.npf;
    for (auto &q : pl3) q.d *= f;
    for (auto &q : pl2) q.d *= f;
    for (auto &q : pln) q.d *= f;
    for (auto &q : v3) for (int i = 0; i < 3; ++i) q.xyz[i] *= f;
    for (auto &q : v2) for (int i = 0; i < 2; ++i) q.xy[i] *= f;
    for (auto &q : vn) for (int i = 0; i < RND_DIM; ++i) q.xyz[i] *= f;
    for (size_t k = 0; k < o.fi.size(); ++k) { fi.push_back((r3d_int *)malloc(npf[k] * sizeof(r3d_int))); memcpy(fi[k], o.fi[k], npf[k] * sizeof(r3d_int)); }
    d3 = o.d3; d2 = o.d2; dn = o.dn;
    for (int i = 0; i < 3; ++i) d3.xyz[i] *= f;
    for (int i = 0; i < 2; ++i) d2.xy[i] *= f;
    for (int i = 0; i < RND_DIM; ++i) dn.xyz[i] *= f;
    memcpy(cb3, o.cb3, sizeof cb3); memcpy(cb2, o.cb2, sizeof cb2); memcpy(cbn, o.cbn, sizeof cbn);
  }
  Bytes image() const {
    Bytes b;
    auto put = [&](const void *p, size_t n) { const unsigned char *q = (const unsigned char *)p; b.insert(b.end(), q, q + n); };
    put(p3, sizeof *p3); put(p2, sizeof *p2); put(pn, sizeof *pn);
    put(pl3.data(), pl3.size() * sizeof pl3[0]); put(pl2.data(), pl2.size() * sizeof pl2[0]); put(pln.data(), pln.size() * sizeof pln[0]);
    put(v3.data(), v3.size() * sizeof v3[0]); put(v2.data(), v2.size() * sizeof v2[0]); put(vn.data(), vn.size() * sizeof vn[0]);
    for (size_t i = 0; i < fi.size(); ++i) put(fi[i], npf[i] * sizeof(r3d_int));
    put(npf.data(), npf.size() * sizeof(r3d_int));
    put(&d3, sizeof d3); put(&d2, sizeof d2); put(&dn, sizeof dn);
    put(cb3, sizeof cb3); put(cb2, sizeof cb2); put(cbn, sizeof cbn);
    return b;
  }
};

// prior contents of memory the library is about to overwrite or must not look at
struct Env {
  unsigned char fill = 0;
  bool rnd = false;
  uint64_t s = 1;
  bool msan = false;
  bool move = false;   // working shapes change their address before every call
  void dirty(void *p, size_t n) {
#ifdef MSAN
    if (msan) { __msan_poison(p, n); return; }
#endif
    unsigned char *q = (unsigned char *)p;
    if (!rnd) { memset(q, fill, n); return; }
    for (size_t i = 0; i < n; i += 8) { s = hash64(s); memcpy(q + i, &s, std::min<size_t>(8, n - i)); }
  }
};

static volatile unsigned char sink;
__attribute__((noinline)) static void dirty_stack(Env &env, size_t n) {
  unsigned char *q = (unsigned char *)alloca(n);
  memset(q, env.rnd ? (int)(env.s & 0xff) : env.fill, n);
  sink = q[n / 2];
}

struct Log {
  Bytes b;
  std::vector<size_t> at;   // start of each operation's part
  const char *uninit = nullptr;
  void put(const void *p, size_t n, const char *what) {
#ifdef MSAN
    if (n && __msan_test_shadow(p, n) >= 0 && !uninit) uninit = what;
    __msan_unpoison((void *)p, n);
#endif
    const unsigned char *q = (const unsigned char *)p;
    b.insert(b.end(), q, q + n);
  }
  template <class T> void val(const T &t, const char *what) { put(&t, sizeof t, what); }
  void poly(const r3d_poly *p, const char *w) {
    val(p->nverts, w);
    for (int v = 0; v < p->nverts && v < R3D_MAX_VERTS; ++v) { put(p->verts[v].pnbrs, sizeof p->verts[v].pnbrs, w); put(&p->verts[v].pos, sizeof p->verts[v].pos, w); }
  }
  void poly(const r2d_poly *p, const char *w) {
    val(p->nverts, w);
    for (int v = 0; v < p->nverts && v < R2D_MAX_VERTS; ++v) { put(p->verts[v].pnbrs, sizeof p->verts[v].pnbrs, w); put(&p->verts[v].pos, sizeof p->verts[v].pos, w); }
  }
  void poly(const rNd_poly *p, const char *w) {
    val(p->nverts, w);
    for (int v = 0; v < p->nverts && v < RND_MAX_VERTS; ++v) {
      put(p->verts[v].pnbrs, sizeof p->verts[v].pnbrs, w);
      for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) if (i != j) val(p->verts[v].finds[i][j], w);
      put(&p->verts[v].pos, sizeof p->verts[v].pos, w);
    }
  }
};

// working copy: the used part is copied, everything else is arbitrary
static void load(Env &env, r3d_poly *dst, const r3d_poly *src) {
  env.dirty(dst, sizeof *dst);
  memcpy((void *)dst->verts, (void *)src->verts, src->nverts * sizeof src->verts[0]);
  dst->nverts = src->nverts;
}
static void load(Env &env, r2d_poly *dst, const r2d_poly *src) {
  env.dirty(dst, sizeof *dst);
  memcpy((void *)dst->verts, (void *)src->verts, src->nverts * sizeof src->verts[0]);
  dst->nverts = src->nverts;
}
static void load(Env &env, rNd_poly *dst, const rNd_poly *src) {
  env.dirty(dst, sizeof *dst);
  memcpy((void *)dst->verts, (void *)src->verts, src->nverts * sizeof src->verts[0]);
  dst->nverts = src->nverts;
  dst->nfaces = src->nfaces;
}

enum { NKINDS = 43 };
static const char *KN[NKINDS] = {
  "reset3", "clip3", "split3", "reduce3", "good3", "centre3", "shift3", "xform3", "brep3", "vox3", "clamp3", "ibox3", "inittet3", "initbox3", "initpoly3", "facest3", "facesb3", "facesp3", "orient3", "affine3",
  "reset2", "clip2", "split2", "reduce2", "good2", "centre2", "xform2", "ras2", "clamp2", "init2", "faces2", "orient2",
  "resetN", "clipN", "reduceN", "goodN", "xformN", "voxN", "clampN", "initN",
  "poke3", "poke2", "pokeN"};
// which working shape a call is about
static int dim_of(int k) { return k < 20 || k == 40 ? 3 : k < 32 || k == 41 ? 2 : 4; }

struct Exec {
  const Script &S;
  Env env;
  Log &L;
  r3d_poly *w3, *a3, *b3, *c3;
  r2d_poly *w2, *a2, *b2, *c2;
  rNd_poly *wn;
  bool yieldy = false;
  std::vector<void *> grave;
  template <class T> void relocate(T *&p) { T *q = get<T>(); load(env, q, p); grave.push_back((void *)p); p = q; }
  uint64_t ys = 0;
  Exec *other = nullptr;   // makes an unrelated (echo: a nearly equal) call of the same kind before each call
  bool echo = false;
  // argument arrays live at one address, or (move) at a new address for every call
  void *abuf[4] = {0, 0, 0, 0};
  size_t acap[4] = {0, 0, 0, 0};
  template <class T> T *arg(const T *p, size_t n, int slot = 0) {
    size_t nb = n * sizeof(T);
    void *q;
    if (env.move) { q = malloc(nb + 8); grave.push_back(q); }
    else {
      if (acap[slot] < nb || !abuf[slot]) { if (abuf[slot]) grave.push_back(abuf[slot]); acap[slot] = nb + 65536; abuf[slot] = malloc(acap[slot]); }
      q = abuf[slot];
    }
    memcpy(q, (const void *)p, nb);
    return (T *)q;
  }
  template <class T> T *get(int n = 1) { T *p = (T *)malloc(n * sizeof(T)); env.dirty(p, n * sizeof(T)); return p; }
  Exec(const Script &s, Env e, Log &l) : S(s), env(e), L(l) {
    w3 = get<r3d_poly>(); a3 = get<r3d_poly>(3); b3 = get<r3d_poly>(3); c3 = get<r3d_poly>(3);
    w2 = get<r2d_poly>(); a2 = get<r2d_poly>(3); b2 = get<r2d_poly>(3); c2 = get<r2d_poly>(3);
    wn = get<rNd_poly>();
    load(env, w3, S.p3); load(env, w2, S.p2); load(env, wn, S.pn);
  }
  ~Exec() { for (void *g : grave) free(g); for (void *g : abuf) free(g); free(w3); free(a3); free(b3); free(c3); free(w2); free(a2); free(b2); free(c2); free(wn); }

  void run() { for (auto &o : S.ops) { L.at.push_back(L.b.size()); if (yieldy && (hash64(ys += 77) & 3) == 0) sched_yield(); if (!yieldy) dirty_stack(env, 1500000); if (env.move) { int dm = dim_of(o.kind); if (dm == 3) relocate(w3); else if (dm == 2) relocate(w2); else relocate(wn); } if (other && (echo || o.kind < 40)) { Op q = o; q.seed = echo ? o.seed : hash64(o.seed); other->op(q); } op(o); } L.at.push_back(L.b.size()); }

  int saved = -1;
  double saved_pos[8];
  template <int N, class V, class F> void poke(V *v, int n, Rng &r, int sub, double scale, F pos) {
    if (n <= 0) return;
    if (sub == 2) { if (saved >= 0) for (int i = 0; i < N; ++i) pos(v[saved])[i] = saved_pos[i]; saved = -1; return; }
    int k = r.range(0, n - 1), a = r.range(0, N - 1);
    if (sub == 1) {
      saved = k;
      for (int i = 0; i < N; ++i) saved_pos[i] = pos(v[k])[i];
      pos(v[k])[a] += scale * r.uni(-0.1, 0.1);
      return;
    }
    double f = r.chance(0.5) ? r.uni(0.9, 1.1) : r.uni(0.999, 1.001), c = pos(v[k])[a];
    for (int i = 0; i < n; ++i) if (i != k) pos(v[i])[a] = c + (pos(v[i])[a] - c) * f;
  }
  template <class T> struct Arr { T *p; ~Arr() { free(p); } };
  double jit = 0;   // relative change of every scalar argument
  double U(Rng &r, double a, double b) { return r.uni(a, b) * (1 + jit); }
  void op(const Op &o) {
    Rng r;
    r.seed(o.seed, 5, 9);
    switch (o.kind) {
      case 0: load(env, w3, S.p3); break;
      case 1: {
        int n = r.range(0, (int)S.pl3.size()), f = r.range(0, (int)S.pl3.size() - n);
        if (w3->nverts <= 0) load(env, w3, S.p3);
        int st = r3d_clip(w3, arg(S.pl3.data() + f, n), n);
        L.val(st, "clip status");
        if (st != 1) load(env, w3, S.p3);
        L.poly(w3, "clipped polyhedron");
        break;
      }
      case 2: {
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
          load(env, c3 + i, r.chance(0.6) ? w3 : S.p3);
          if (r.chance(0.1)) c3[i].nverts = 0;
        }
        env.dirty(a3, 3 * sizeof *a3); env.dirty(b3, 3 * sizeof *b3);
        int st = r3d_split(c3, n, S.pl3[r.range(0, (int)S.pl3.size() - 1)], a3, b3);
        L.val(st, "split status");
        if (st == 1) {
          for (int i = 0; i < n; ++i) { L.poly(a3 + i, "positive part"); L.poly(b3 + i, "negative part"); }
          load(env, w3, r.chance(0.5) ? a3 : b3);
          if (w3->nverts <= 0) load(env, w3, S.p3);
        }
        break;
      }
      case 3: {
        int p = r.range(0, 6), n = R3D_NUM_MOMENTS(p);
        Arr<r3d_real> m{get<r3d_real>(n)};
        r3d_reduce(r.chance(0.5) ? w3 : S.p3, m.p, p);
        L.put(m.p, n * sizeof(r3d_real), "moments");
        break;
      }
      case 4: if (w3->nverts <= 48) { int g = r3d_is_good(w3); L.val(g, "validity"); } else if (S.p3->nverts <= 48) { int g = r3d_is_good(S.p3); L.val(g, "validity"); } break;
      case 5: { r3d_poly *q = r.chance(0.5) ? w3 : S.p3; if (q->nverts > 0) { r3d_rvec3 c = r3d_poly_center(q); L.put(c.xyz, sizeof c.xyz, "centre"); } break; }
      case 6: {
        int p = r.range(0, 6), n = R3D_NUM_MOMENTS(p);
        Arr<r3d_real> m{get<r3d_real>(n)};
        for (int i = 0; i < n; ++i) m.p[i] = (r3d_real)U(r, -1, 1);
        r3d_rvec3 v;
        v.x = (r3d_real)U(r, -1, 1); v.y = (r3d_real)U(r, -1, 1); v.z = (r3d_real)U(r, -1, 1);
        r3d_shift_moments(m.p, p, v);
        L.put(m.p, n * sizeof(r3d_real), "shifted moments");
        break;
      }
      case 7: {
        int k = r.range(0, 3);
        if (k == 0) r3d_rotate(w3, (r3d_real)U(r, -0.2, 0.2), r.range(0, 2));
        else if (k == 1) { r3d_rvec3 t; for (int i = 0; i < 3; ++i) t.xyz[i] = (r3d_real)(0.1 * S.e3.L * U(r, -1, 1)); r3d_translate(w3, t); }
        else if (k == 2) r3d_scale(w3, (r3d_real)U(r, 0.8, 1.2));
        else { int a = r.range(0, 2); r3d_shear(w3, (r3d_real)U(r, -0.2, 0.2), a, (a + r.range(1, 2)) % 3); }
        L.poly(w3, "transformed polyhedron");
        break;
      }
      case 8: {
        r3d_brep *B = nullptr;
        r3d_int nc = -1;
        r3d_poly *q = r.chance(0.5) ? w3 : S.p3;
        r3d_init_brep(q, &B, &nc);
        L.val(nc, "component count");
        for (int c = 0; c < nc; ++c) {
          L.val(B[c].numvertices, "brep"); L.val(B[c].numfaces, "brep");
          L.put(B[c].vertices, B[c].numvertices * sizeof(r3d_rvec3), "brep vertices");
          L.put(B[c].numvertsperface, B[c].numfaces * sizeof(r3d_int), "brep face sizes");
          for (int f = 0; f < B[c].numfaces; ++f) L.put(B[c].faceinds[f], B[c].numvertsperface[f] * sizeof(r3d_int), "brep faces");
        }
        r3d_free_brep(&B, nc);
        break;
      }
      case 9: {
        r3d_poly *q = r.chance(0.5) ? w3 : S.p3;
        r3d_dvec3 ib[2];
        env.dirty(ib, sizeof ib);
        r3d_get_ibox(q, ib, S.d3);
        L.put(ib, sizeof ib, "index box");
        int p = r.range(0, 2), nm = R3D_NUM_MOMENTS(p);
        double nc = 1;
        for (int i = 0; i < 3; ++i) nc *= (double)ib[1].ijk[i] - ib[0].ijk[i];
        if (!(nc > 0 && nc < 400)) break;
        size_t n = (size_t)nc * nm;
        Arr<r3d_real> g{get<r3d_real>(n)};
        for (size_t i = 0; i < n; ++i) g.p[i] = 0;
        int st = VOX_STATUS(r3d_voxelize(q, ib, g.p, S.d3, p));
        L.val(st, "voxelize status");
        if (st == 1) L.put(g.p, n * sizeof(r3d_real), "voxel moments");
        break;
      }
      case 10: {
        load(env, a3, w3);
        r3d_dvec3 ib[2];
        env.dirty(ib, sizeof ib);
        r3d_get_ibox(a3, ib, S.d3);
        int st = VOX_STATUS(r3d_clamp_ibox(a3, ib, (r3d_dvec3 *)S.cb3, S.d3));
        L.val(st, "clamp status");
        L.put(ib, sizeof ib, "clamped box");
        if (st == 1) L.poly(a3, "clamped polyhedron");
        break;
      }
      case 11: { r3d_dvec3 ib[2]; env.dirty(ib, sizeof ib); r3d_get_ibox(r.chance(0.5) ? w3 : S.p3, ib, S.d3); L.put(ib, sizeof ib, "index box"); break; }
      case 12: { env.dirty(a3, sizeof *a3); r3d_init_tet(a3, arg(S.v3.data() + r.range(0, (int)S.v3.size() - 4), 4)); L.poly(a3, "tetrahedron"); break; }
      case 13: { env.dirty(a3, sizeof *a3); r3d_init_box(a3, arg(S.v3.data() + r.range(0, (int)S.v3.size() - 2), 2)); L.poly(a3, "box"); break; }
      case 14: {
        env.dirty(a3, sizeof *a3);
        int st = r3d_init_poly(a3, (r3d_rvec3 *)S.v3.data(), (r3d_int)S.mesh.v.size(), (r3d_int **)S.fi.data(), (r3d_int *)S.npf.data(), (r3d_int)S.fi.size());
        L.val(st, "init_poly status");
        L.poly(a3, "initialised polyhedron");
        break;
      }
      case 15: { r3d_plane f[4]; env.dirty(f, sizeof f); r3d_tet_faces_from_verts(f, arg(S.v3.data() + r.range(0, (int)S.v3.size() - 4), 4)); L.put(f, sizeof f, "tetrahedron planes"); break; }
      case 16: { r3d_plane f[6]; env.dirty(f, sizeof f); r3d_box_faces_from_verts(f, arg(S.v3.data() + r.range(0, (int)S.v3.size() - 2), 2)); L.put(f, sizeof f, "box planes"); break; }
      case 17: {
        Arr<r3d_plane> f{get<r3d_plane>((int)S.fi.size())};
        r3d_poly_faces_from_verts(f.p, (r3d_rvec3 *)S.v3.data(), (r3d_int)S.mesh.v.size(), (r3d_int **)S.fi.data(), (r3d_int *)S.npf.data(), (r3d_int)S.fi.size());
        L.put(f.p, S.fi.size() * sizeof(r3d_plane), "face planes");
        break;
      }
      case 18: { r3d_real v = r3d_orient(arg(S.v3.data() + r.range(0, (int)S.v3.size() - 4), 4)); L.val(v, "orientation"); break; }
      case 19: {
        r3d_real m[4][4];
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m[i][j] = (r3d_real)((i == j) + (i < 3 ? 0.1 * U(r, -1, 1) : 0));
        load(env, a3, w3);
        r3d_affine(a3, m);
        L.poly(a3, "affine image");
        break;
      }
      case 20: load(env, w2, S.p2); break;
      case 21: {
        int n = r.range(0, (int)S.pl2.size()), f = r.range(0, (int)S.pl2.size() - n);
        if (w2->nverts <= 0) load(env, w2, S.p2);
        int st = VOX_STATUS(r2d_clip(w2, arg(S.pl2.data() + f, n), n));
        L.val(st, "clip status");
        if (st != 1) load(env, w2, S.p2);
        L.poly(w2, "clipped polygon");
        break;
      }
      case 22: {
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) { load(env, c2 + i, r.chance(0.6) ? w2 : S.p2); if (r.chance(0.1)) c2[i].nverts = 0; }
        env.dirty(a2, 3 * sizeof *a2); env.dirty(b2, 3 * sizeof *b2);
        int st = VOX_STATUS(r2d_split(c2, n, S.pl2[r.range(0, (int)S.pl2.size() - 1)], a2, b2));
        L.val(st, "split status");
        if (st == 1) {
          for (int i = 0; i < n; ++i) { L.poly(a2 + i, "positive part"); L.poly(b2 + i, "negative part"); }
          load(env, w2, r.chance(0.5) ? a2 : b2);
          if (w2->nverts <= 0) load(env, w2, S.p2);
        }
        break;
      }
      case 23: {
        int p = r.range(0, 6), n = R2D_NUM_MOMENTS(p);
        Arr<r2d_real> m{get<r2d_real>(n)};
        r2d_reduce(r.chance(0.5) ? w2 : S.p2, m.p, p);
        L.put(m.p, n * sizeof(r2d_real), "moments");
        if (r.chance(0.5)) { r2d_rvec2 v; v.x = (r2d_real)U(r, -1, 1); v.y = (r2d_real)U(r, -1, 1); r2d_shift_moments(m.p, p, v); L.put(m.p, n * sizeof(r2d_real), "shifted moments"); }
        break;
      }
      case 24: { int g = r2d_is_good(r.chance(0.5) ? w2 : S.p2); L.val(g, "validity"); break; }
      case 25: { r2d_poly *q = r.chance(0.5) ? w2 : S.p2; if (q->nverts > 0) { r2d_rvec2 c = r2d_poly_center(q); L.val(c, "centre"); } break; }
      case 26: {
        int k = r.range(0, 4);
        if (k == 0) r2d_rotate(w2, (r2d_real)U(r, -0.2, 0.2));
        else if (k == 1) { r2d_rvec2 t; t.x = (r2d_real)(0.1 * S.e2.L * U(r, -1, 1)); t.y = (r2d_real)(0.1 * S.e2.L * U(r, -1, 1)); r2d_translate(w2, t); }
        else if (k == 2) r2d_scale(w2, (r2d_real)U(r, 0.8, 1.2));
        else if (k == 3) { int a = r.range(0, 1); r2d_shear(w2, (r2d_real)U(r, -0.2, 0.2), a, 1 - a); }
        else { r2d_real m[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = (r2d_real)((i == j) + (i < 2 ? 0.1 * U(r, -1, 1) : 0)); r2d_affine(w2, m); }
        L.poly(w2, "transformed polygon");
        break;
      }
      case 27: {
        r2d_poly *q = r.chance(0.5) ? w2 : S.p2;
        r2d_dvec2 ib[2];
        env.dirty(ib, sizeof ib);
        r2d_get_ibox(q, ib, S.d2);
        L.put(ib, sizeof ib, "index box");
        int p = r.range(0, 2), nm = R2D_NUM_MOMENTS(p);
        double nc = 1;
        for (int i = 0; i < 2; ++i) nc *= (double)ib[1].ij[i] - ib[0].ij[i];
        if (!(nc > 0 && nc < 400)) break;
        size_t n = (size_t)nc * nm;
        Arr<r2d_real> g{get<r2d_real>(n)};
        for (size_t i = 0; i < n; ++i) g.p[i] = 0;
        int st = VOX_STATUS(r2d_rasterize(q, ib, g.p, S.d2, p));
        L.val(st, "rasterize status");
        if (st == 1) L.put(g.p, n * sizeof(r2d_real), "raster moments");
        break;
      }
      case 28: {
        load(env, a2, w2);
        r2d_dvec2 ib[2];
        env.dirty(ib, sizeof ib);
        r2d_get_ibox(a2, ib, S.d2);
        int st = VOX_STATUS(r2d_clamp_ibox(a2, ib, (r2d_dvec2 *)S.cb2, S.d2));
        L.val(st, "clamp status");
        L.put(ib, sizeof ib, "clamped box");
        if (st == 1) L.poly(a2, "clamped polygon");
        break;
      }
      case 29: {
        env.dirty(a2, sizeof *a2);
        if (r.chance(0.4)) r2d_init_box(a2, arg(S.v2.data() + r.range(0, (int)S.v2.size() - 2), 2));
        else { int n = r.range(3, (int)S.v2.size()); int st = VOX_STATUS(r2d_init_poly(a2, arg(S.v2.data(), n), n)); L.val(st, "init status"); if (st != 1) break; }
        L.poly(a2, "new polygon");
        break;
      }
      case 30: {
        int n = r.range(3, (int)S.v2.size());
        Arr<r2d_plane> f{get<r2d_plane>(n + 4)};
        r2d_poly_faces_from_verts(f.p, arg(S.v2.data(), n), n);
        r2d_box_faces_from_verts(f.p + n, (r2d_rvec2 *)S.v2.data());
        L.put(f.p, (n + 4) * sizeof(r2d_plane), "face lines");
        break;
      }
      case 31: { int k = r.range(0, (int)S.v2.size() - 3); r2d_real v = r2d_orient(S.v2[k], S.v2[k + 1], S.v2[k + 2]); L.val(v, "orientation"); break; }
      case 32: load(env, wn, S.pn); break;
      case 33: {
        int n = r.range(0, std::min(3, (int)S.pln.size())), f = r.range(0, (int)S.pln.size() - n);
        if (wn->nverts <= 0) load(env, wn, S.pn);
        int st = VOX_STATUS(rNd_clip(wn, arg(S.pln.data() + f, n), n));
        L.val(st, "clip status");
        if (st != 1) load(env, wn, S.pn);
        L.poly(wn, "clipped polytope");
        break;
      }
      case 34: { rNd_real *m = get<rNd_real>(1); Arr<rNd_real> q{m}; rNd_reduce(r.chance(0.5) ? wn : S.pn, m, 0); L.put(m, sizeof *m, "volume"); break; }
      case 35: if (wn->nverts && wn->nverts <= 16) { int g = rNd_is_good(wn); L.val(g, "validity"); } { rNd_real v = rNd_orient((rNd_rvec *)S.vn.data()); L.val(v, "orientation"); } break;
      case 36: {
        int k = r.range(0, 4), a = r.range(0, D - 1), b = (a + r.range(1, D - 1)) % D;
        rNd_rvec t;
        if (k == 0) rNd_rotate(wn, (rNd_real)U(r, -0.2, 0.2), a, b);
        else if (k == 1) { for (int i = 0; i < D; ++i) t.xyz[i] = (rNd_real)U(r, -0.1, 0.1); rNd_translate(wn, t); }
        else if (k == 2) { for (int i = 0; i < D; ++i) t.xyz[i] = (rNd_real)U(r, 0.8, 1.2); rNd_scale(wn, t); }
        else if (k == 3) rNd_shear(wn, (rNd_real)U(r, -0.2, 0.2), a, b);
        else { rNd_real m[RND_DIM + 1][RND_DIM + 1]; for (int i = 0; i <= D; ++i) for (int j = 0; j <= D; ++j) m[i][j] = (rNd_real)((i == j) + (i < D ? 0.1 * U(r, -1, 1) : 0)); rNd_affine(wn, m); }
        L.poly(wn, "transformed polytope");
        break;
      }
      case 37: {
        rNd_poly *q = r.chance(0.5) ? wn : S.pn;
        rNd_dvec ib[2];
        env.dirty(ib, sizeof ib);
        rNd_get_ibox(q, ib, S.dn);
        L.put(ib, sizeof ib, "index box");
        double nc = 1;
        for (int i = 0; i < D; ++i) nc *= (double)ib[1].ijk[i] - ib[0].ijk[i];
        if (!(nc > 0 && nc < 100)) break;
        size_t n = (size_t)nc;
        Arr<rNd_real> g{get<rNd_real>(n)};
        for (size_t i = 0; i < n; ++i) g.p[i] = 0;
        int st = VOX_STATUS(rNd_voxelize(q, ib, g.p, S.dn, 0));
        L.val(st, "voxelize status");
        if (st == 1) L.put(g.p, n * sizeof(rNd_real), "voxel volumes");
        break;
      }
      case 38: {
        rNd_poly *q = get<rNd_poly>();
        Arr<rNd_poly> fr{q};
        load(env, q, wn);
        rNd_dvec ib[2];
        env.dirty(ib, sizeof ib);
        rNd_get_ibox(q, ib, S.dn);
        int st = VOX_STATUS(rNd_clamp_ibox(q, ib, (rNd_dvec *)S.cbn, S.dn));
        L.val(st, "clamp status");
        L.put(ib, sizeof ib, "clamped box");
        if (st == 1) L.poly(q, "clamped polytope");
        break;
      }
      case 39: {
        rNd_poly *q = get<rNd_poly>();
        Arr<rNd_poly> fr{q};
        if (r.chance(0.5)) rNd_init_simplex(q, (rNd_rvec *)S.vn.data());
        else rNd_init_box(q, (rNd_rvec *)S.vn.data());
        L.poly(q, "new polytope");
        break;
      }
      // the caller changes its shape in place: stretches it about one vertex, or moves one
      // vertex for the duration of a query
      case 40: poke<3>(w3->verts, w3->nverts, r, o.sub, S.e3.L, [](r3d_vertex &v) { return v.pos.xyz; }); break;
      case 41: poke<2>(w2->verts, w2->nverts, r, o.sub, S.e2.L, [](r2d_vertex &v) { return v.pos.xy; }); break;
      case 42: poke<RND_DIM>(wn->verts, wn->nverts, r, o.sub, 1, [](rNd_vertex &v) { return v.pos.xyz; }); break;
    }
  }
};

static void gen_script(Rng &r, Script &S, int nops, int cap3 = 60, int cap2 = 40) {
  Placement pl;
  for (int t = 0;; ++t) {
    S.mesh = gen_mesh(r, cap3, pl, false);
    mesh_round(S.mesh);
    S.p3 = (r3d_poly *)calloc(1, sizeof(r3d_poly));
    if (build_poly(r, S.mesh, S.p3)) break;
    free(S.p3); S.p3 = nullptr;
    if (t > 20) M.skip("build");
  }
  S.e3 = mesh_ext(S.mesh);
  int cls;
  for (int i = 0; i < 6; ++i) S.pl3.push_back(rp(gen_plane(r, S.mesh, S.e3, cls)));
  for (auto &v : S.mesh.v) S.v3.push_back(rv(v));
  for (int i = 0; i < 4; ++i) S.v3.push_back(rv(mk(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1))));
  for (auto &f : S.mesh.f) {
    r3d_int *q = (r3d_int *)malloc(f.size() * sizeof(r3d_int));
    for (size_t k = 0; k < f.size(); ++k) q[k] = f[k];
    S.fi.push_back(q);
    S.npf.push_back((r3d_int)f.size());
  }
  Place2 p2;
  Shape sh;
  for (int t = 0;; ++t) {
    sh = gen_shape(r, cap2, p2, false);
    S.p2 = (r2d_poly *)calloc(1, sizeof(r2d_poly));
    if (build_poly2(r, sh, S.p2)) break;
    free(S.p2); S.p2 = nullptr;
    if (t > 20) M.skip("build");
  }
  S.e2 = shape_ext(sh);
  for (int i = 0; i < 6; ++i) S.pl2.push_back(rp2(gen_line(r, sh, S.e2, cls)));
  for (auto &v : sh.loops[0]) S.v2.push_back(rv2(v));
  while (S.v2.size() < 4) S.v2.push_back(rv2(mk2(r.uni(-1, 1), r.uni(-1, 1))));
  S.pn = (rNd_poly *)calloc(1, sizeof(rNd_poly));
  for (int i = 0; i <= D; ++i) { rNd_rvec v; for (int k = 0; k < D; ++k) v.xyz[k] = (rNd_real)((i == k + 1 ? 1 : 0) + 0.1 * r.uni(0, 1)); S.vn.push_back(v); }
  if (r.chance(0.5)) rNd_init_simplex(S.pn, S.vn.data());
  else { rNd_rvec b[2]; for (int k = 0; k < D; ++k) { b[0].xyz[k] = (rNd_real)r.uni(-0.2, 0.2); b[1].xyz[k] = (rNd_real)r.uni(0.7, 1.2); } rNd_init_box(S.pn, b); }
  for (int i = 0; i < 5; ++i) {
    rNd_plane q;
    LD n[RND_DIM], l = 0, s = 0;
    for (int k = 0; k < D; ++k) { n[k] = r.gauss(); l += n[k] * n[k]; }
    l = sqrtl(l);
    for (int k = 0; k < D; ++k) { q.n.xyz[k] = (rNd_real)(n[k] / l); s += n[k] / l * r.uni(0.1, 0.6); }
    q.d = (rNd_real)-s;
    S.pln.push_back(q);
  }
  for (int i = 0; i < 3; ++i) S.d3.xyz[i] = (r3d_real)(S.e3.L * r.uni(0.2, 1.5));
  S.d2.x = (r2d_real)(S.e2.L * r.uni(0.1, 1.5)); S.d2.y = (r2d_real)(S.e2.L * r.uni(0.1, 1.5));
  for (int i = 0; i < D; ++i) S.dn.xyz[i] = (rNd_real)r.uni(0.4, 1.5);
  r3d_get_ibox(S.p3, S.cb3, S.d3);
  r2d_get_ibox(S.p2, S.cb2, S.d2);
  rNd_get_ibox(S.pn, S.cbn, S.dn);
  for (int i = 0; i < 3; ++i) { S.cb3[0].ijk[i] += r.range(0, 1); S.cb3[1].ijk[i] -= r.range(-1, 1); if (S.cb3[1].ijk[i] <= S.cb3[0].ijk[i]) S.cb3[1].ijk[i] = S.cb3[0].ijk[i] + 1; }
  for (int i = 0; i < 2; ++i) { S.cb2[0].ij[i] += r.range(0, 1); S.cb2[1].ij[i] -= r.range(-1, 1); if (S.cb2[1].ij[i] <= S.cb2[0].ij[i]) S.cb2[1].ij[i] = S.cb2[0].ij[i] + 1; }
  for (int i = 0; i < D; ++i) { S.cbn[0].ijk[i] += r.range(0, 1); S.cbn[1].ijk[i] -= r.range(-1, 1); if (S.cbn[1].ijk[i] <= S.cbn[0].ijk[i]) S.cbn[1].ijk[i] = S.cbn[0].ijk[i] + 1; }
  for (int i = 0; i < nops; ++i) {
    Op o;
    o.kind = r.range(0, NKINDS - 1);
    o.seed = r.next();
    S.ops.push_back(o);
    if (o.kind < 40 && r.chance(0.3)) {   // the same call again after the caller changed one vertex
      Op k;
      int dm = dim_of(o.kind);
      k.kind = dm == 3 ? 40 : dm == 2 ? 41 : 42;
      k.seed = r.next();
      bool query = o.kind == 3 || o.kind == 4 || o.kind == 5 || o.kind == 8 || o.kind == 11 || (o.kind >= 23 && o.kind <= 25) || o.kind == 34;
      k.sub = query && r.chance(0.6);
      S.ops.push_back(k);
      S.ops.push_back(o);
      if (k.sub) { k.sub = 2; S.ops.push_back(k); }
    }
  }
}

static std::string script_names(const Script &S) { std::string s; for (auto &o : S.ops) { s += KN[o.kind]; s += ' '; } return s; }

static void compare(const Script &S, const Log &a, const Log &b, const char *key, const char *how) {
  M.count("outputs_compared", S.ops.size());
  M.count("bytes_compared", a.b.size());
  if (a.b == b.b) return;
  for (size_t i = 0; i < S.ops.size(); ++i) {
    size_t la = a.at[i + 1] - a.at[i], lb = b.at[i + 1] - b.at[i];
    if (la != lb || memcmp(a.b.data() + a.at[i], b.b.data() + b.at[i], la))
      M.fail(key, "call %d (%s) gave a different result %s", (int)i, KN[S.ops[i].kind], how);
  }
  M.fail(key, "a different result %s", how);
}

// ------------------------------------------------------------------ determinism
static void mode_det() {
  Rng &r = M.rng;
  Script A, B;
  gen_script(r, A, r.range(8, 40));
  gen_script(r, B, r.range(4, 20));
  M.say("%s: %s", A.mesh.name.c_str(), script_names(A).c_str());
  for (auto &o : A.ops) M.count((std::string("call_") + KN[o.kind]).c_str());
  Bytes before = A.image();
  Log l0, l1, l2, lb;
  Env e0, e1, e2;
  e0.fill = 0;
  e1.fill = 0x7f;
  e2.rnd = true;
  e2.move = true;
  e2.s = r.next();
#ifdef MSAN
  e0.msan = e1.msan = e2.msan = true;
#endif
  mallopt(M_PERTURB, 0);
  { Exec x(A, e0, l0); x.run(); }
  if (l0.uninit) M.fail("uninitialised", "%s contains uninitialised values", l0.uninit);
  if (A.image() != before) M.fail("input-modified", "an input of the calls was modified");
#ifdef MSAN
  M.count("scripts");
  M.count("initialised_outputs", A.ops.size());
  return;
#endif
  mallopt(M_PERTURB, 0xa5);
  { Exec x(A, e1, l1); x.run(); }
  compare(A, l0, l1, "stale-contents", "when output storage and the stack held something else before");
  { Exec x(B, e2, lb); x.run(); }
  mallopt(M_PERTURB, 0x11);
  { Log lo; Env eo = e2; Exec y(B, eo, lo), x(A, e2, l2); x.other = &y; x.run(); }
  compare(A, l0, l2, "history-dependent", "after other calls had been made in between");
  {
    double e = r.chance(0.1) ? 0 : pow(10, r.uni(-13, -2)) * (r.chance(0.5) ? 1 : -1);
    Script C;
    C.near(A, e);
    Log lo, l3;
    Exec y(C, e0, lo), x(A, e1, l3);
    y.jit = e;
    x.other = &y;
    x.echo = true;
    x.run();
    compare(A, l0, l3, "history-dependent", "after nearly the same calls had been made before");
    M.count("echo_scripts");
  }
  if (A.image() != before) M.fail("input-modified", "an input of the calls was modified");
  M.count("scripts");
  uint64_t h = 0;
  for (auto &o : A.ops) h = hash64(h + o.kind);
  M.sig(h);
}

// ------------------------------------------------------------------ periods
// One call, then a number of small calls of the same kind, then the call again: whatever the
// number (around powers of two in particular), the result is the same.
static void mode_wrap() {
  Rng &r = M.rng;
  Script A, T;
  bool large = r.chance(0.5);
  gen_script(r, A, 0, large ? std::min(300, (int)R3D_MAX_VERTS / 2) : 60, large ? std::min(160, (int)R2D_MAX_VERTS / 2) : 40);
  gen_script(r, T, 0, 4, 4);
  Op o;
  do o.kind = r.range(1, 39); while (o.kind == 20 || o.kind == 32);
  o.seed = r.next();
  A.ops.push_back(o);
  T.ops.push_back(o);
  static const int P8[] = {2, 4, 8, 16, 32, 64, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 4096}, P16[] = {32767, 32768, 65535, 65536};
  bool slow = o.kind == 9 || o.kind == 10 || o.kind == 27 || o.kind == 37 || o.kind == 38 || o.kind == 33 || o.kind == 35 || o.kind == 39;
  std::vector<int> gaps;
  if (r.chance(slow ? 0.03 : 0.2)) {   // one call before, at and after the 15- and 16-bit wrap-around (generation counters may skip 0)
    int p = P16[r.range(0, 3)];
    gaps.push_back(p - 1);
    if (!slow) gaps.push_back(65534);
    if (!slow && p != 65535) gaps.push_back(p - 2);
  } else for (int k = 0; k < 3; ++k) gaps.push_back((r.chance(0.3) ? r.range(1, 600) : P8[r.range(0, 15)]) - 1);
  Env e;
  Log ref;
  { Exec x(A, e, ref); x.yieldy = true; x.run(); }
  if (ref.b.empty()) M.skip("no output");
  Op reset;
  int dm = dim_of(o.kind);
  reset.kind = dm == 3 ? 0 : dm == 2 ? 20 : 32;
  reset.seed = 0;
  Log junk;
  // calls that leave their shape alone need no new one each time
  static const int Q[] = {3, 4, 5, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 25, 29, 30, 31, 34, 35, 39};
  bool query = std::find(Q, Q + sizeof Q / sizeof *Q, o.kind) != Q + sizeof Q / sizeof *Q;
  Exec y(T, e, junk);
  M.say("%s on %s, gap %d", KN[o.kind], A.mesh.name.c_str(), gaps[0]);
  for (int g : gaps) {
    Op t = o;
    for (int k = 0; k < g; ++k) {
      if (r.chance(0.05)) t.seed = r.next();
      if (!k || !query) y.op(reset);
      y.op(t);
      junk.b.clear();
      if (y.grave.size() > 64) { for (void *q : y.grave) free(q); y.grave.clear(); }
    }
    M.count("calls_between", g);
    Log again;
    { Exec x(A, e, again); x.yieldy = true; x.run(); }
    char how[80];
    snprintf(how, sizeof how, "after %d smaller calls of the same kind", g);
    compare(A, ref, again, "period-dependent", how);
    M.count(g > 30000 ? "long_gaps" : "short_gaps");
  }
  M.sig(o.kind, gaps[0], large);
}

// ------------------------------------------------------------------ threads
struct TArg { std::vector<Script> *S; std::vector<Log> *out; std::vector<int> order; pthread_barrier_t *bar; uint64_t ys; };
static void *tmain(void *a) {
  TArg *t = (TArg *)a;
  pthread_barrier_wait(t->bar);
  Env e;
  e.rnd = false;
  e.fill = (unsigned char)t->ys;
  for (int i : t->order) {
    Exec x((*t->S)[i], e, (*t->out)[i]);
    x.yieldy = true;
    x.ys = t->ys + i;
    x.run();
  }
  return nullptr;
}
// refs_first: what the calls give alone is recorded before the threads start; otherwise afterwards, so that nothing the
// library sets up on first use is ready when they do
static void threads(bool refs_first) {
  Rng &r = M.rng;
  int ns = r.range(2, 4), nt = r.range(2, 8);
  std::vector<Script> S(ns);
  std::vector<Log> ref(ns);
  std::vector<Bytes> im;
  for (int i = 0; i < ns; ++i) {
    gen_script(r, S[i], r.range(8, 25));
    im.push_back(S[i].image());
    M.say("%s", script_names(S[i]).c_str());
  }
  auto alone = [&]() { for (int i = 0; i < ns; ++i) { Env e; Exec x(S[i], e, ref[i]); x.yieldy = true; x.run(); } };
  if (refs_first) alone();
  std::vector<std::vector<Log>> out(nt, std::vector<Log>(ns));
  std::vector<TArg> ta(nt);
  std::vector<pthread_t> th(nt);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, nt);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 64 << 20);
  bool same = r.chance(0.5);
  for (int t = 0; t < nt; ++t) {
    ta[t].S = &S; ta[t].out = &out[t]; ta[t].bar = &bar; ta[t].ys = r.next();
    for (int i = 0; i < ns; ++i) ta[t].order.push_back(same ? i : (i + t) % ns);
    if (pthread_create(&th[t], &at, tmain, &ta[t])) { fprintf(stderr, "no threads\n"); _exit(3); }
  }
  for (int t = 0; t < nt; ++t) pthread_join(th[t], nullptr);
  pthread_attr_destroy(&at);
  pthread_barrier_destroy(&bar);
  if (!refs_first) { alone(); M.count("threads_before_reference"); }
  for (int t = 0; t < nt; ++t) for (int i = 0; i < ns; ++i) compare(S[i], ref[i], out[t][i], "thread-interference", "when other threads were calling the library");
  for (int i = 0; i < ns; ++i) if (S[i].image() != im[i]) M.fail("input-modified", "a shared input was modified");
  M.count("thread_runs", nt);
  M.count("concurrent_scripts", nt * ns);
  M.sig(nt, ns, same, r.next());
}

static void mode_threads() { bool first = M.rng.chance(0.5); threads(first); }
static void mode_first() { threads(false); }   // run with one case per process

#ifndef MODE_LIST
#define MODE_LIST X(det) X(threads) X(first) X(wrap)
#endif
#define X(n) {#n, mode_##n},
static const Mode MODES[] = {MODE_LIST};
int main(int argc, char **argv) { return run_monitor(argc, argv, MODES, sizeof MODES / sizeof *MODES); }
