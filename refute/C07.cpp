#include <array>
#include <cassert>
#include "core/maps/transferable_belief_model.h"
#include "common.h"
typedef std::array<double, 4> M;
static M mass(Rng &r) {
  M m; double t = 0;
  do { t = 0; for (auto &x : m) { x = r.chance(0.3) ? 0 : r.u(); t += x; } } while (t == 0);
  for (auto &x : m) x /= t;
  NOTE("(" << m[0] << "," << m[1] << "," << m[2] << "," << m[3] << ")");
  return m;
}
static TBM tbm(const M &m) { return TBM(m[0], m[1], m[2], m[3]); }
static M get(const TBM &t) { return M{{t.unknown(), t.empty(), t.occupied(), t.conflict()}}; }
static void same(const M &a, const M &b, const char *w) {
  for (int k = 0; k < 4; ++k) CHECK(close(a[k], b[k], 1e-9), w << ": mass " << k << " is " << a[k] << " expected " << b[k]);
}
static M comb(const M &a, const M &b, bool conj) {
  M r{{0, 0, 0, 0}};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[conj ? (i | j) : (i & j)] += a[i] * b[j];
  return r;
}
CASE(algebra, 2) {
  M a = mass(r), b = mass(r), c = mass(r);
  same(get(tbm(a)), a, "constructor");
  for (bool cj : {true, false}) {
    auto op = [cj](const TBM &x, const TBM &y) { return cj ? conjunctive(x, y) : disjunctive(x, y); };
    M ab = get(op(tbm(a), tbm(b)));
    same(ab, comb(a, b, cj), cj ? "conjunctive" : "disjunctive");
    same(get(op(tbm(b), tbm(a))), ab, "commutative");
    same(get(op(op(tbm(a), tbm(b)), tbm(c))), get(op(tbm(a), op(tbm(b), tbm(c)))), "associative");
    M e = cj ? M{{1, 0, 0, 0}} : M{{0, 0, 0, 1}};
    same(get(op(tbm(a), tbm(e))), a, "neutral");
  }
  same(get(TBM()), M{{1, 0, 0, 0}}, "default");
}
CASE(normalisation, 1) {
  M a = mass(r); double s = r.d(0.01, 20); if (s <= 0) s = 1;
  bool zero = r.chance(0.1), onlyc = r.chance(0.1);
  M m = a; for (auto &x : m) x *= zero ? 0 : s;
  if (onlyc) m[0] = m[1] = m[2] = 0;
  TBM t = tbm(m); t.normalize();
  double tot = m[0] + m[1] + m[2] + m[3];
  M e = m; for (auto &x : e) x /= tot;
  if (tot == 0) e = M{{1, 0, 0, 0}};
  same(get(t), e, "normalize");
  TBM u = tbm(m); u.normalize_conflict();
  double w = m[0] + m[1] + m[2];
  e = M{{m[0] / w, m[1] / w, m[2] / w, 0}};
  if (w == 0) e = M{{1, 0, 0, 0}};
  same(get(u), e, "normalize_conflict");
}
