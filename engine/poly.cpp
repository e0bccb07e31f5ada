// Emptiness test for the polyhedral part of the abstract domain: is the set
// { x in Q^n | A x + b >= 0 } (optionally restricted to Z^n) empty?
// Exact rational arithmetic; on overflow the answer is "not known to be empty".
#include <cstdint>
#include <cstdlib>
#include <algorithm>
#include <vector>
typedef __int128 I;
struct Ovf {};
static I gcd_(I a, I b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) { I t = a % b; a = b; b = t; }
  return a;
}
static const I LIM = ((I)1) << 60;
struct Q {
  I n, d;
  Q(I a = 0, I b = 1) : n(a), d(b) {}
  void norm() {
    if (d < 0) { n = -n; d = -d; }
    if (d != 1) { I g = gcd_(n, d); if (g > 1) { n /= g; d /= g; } }
    if (n > LIM || n < -LIM || d > LIM) throw Ovf();
  }
};
static Q operator+(const Q& a, const Q& b) {
  Q r; if (a.d == b.d) { r.n = a.n + b.n; r.d = a.d; } else { r.n = a.n * b.d + b.n * a.d; r.d = a.d * b.d; }
  r.norm(); return r; }
static Q operator-(const Q& a, const Q& b) { Q c(-b.n, b.d); return a + c; }
static Q operator*(const Q& a, const Q& b) { Q r(a.n * b.n, a.d * b.d); r.norm(); return r; }
static Q operator/(const Q& a, const Q& b) { Q r(a.n * b.d, a.d * b.n); r.norm(); return r; }
static bool lt(const Q& a, const Q& b) { return a.n * b.d < b.n * a.d; }

// 64-bit rationals with overflow detection (fast path)
struct Q64 {
  int64_t n, d;
  Q64() : n(0), d(1) {}
  Q64(int a) : n(a), d(1) {}
  Q64(int64_t a) : n(a), d(1) {}
  Q64(int64_t a, int64_t b) : n(a), d(b) {}
  Q64(I a) : n((int64_t)a), d(1) { if (a > LIM || a < -LIM) throw Ovf(); }
};
static inline int64_t mul_(int64_t a, int64_t b) { int64_t r; if (__builtin_mul_overflow(a, b, &r)) throw Ovf(); return r; }
static inline int64_t add_(int64_t a, int64_t b) { int64_t r; if (__builtin_add_overflow(a, b, &r)) throw Ovf(); return r; }
static inline Q64 mk(int64_t n, int64_t d) {
  if (d < 0) { n = -n; d = -d; }
  if (d != 1) {
    int64_t a = n < 0 ? -n : n, b = d;
    while (b) { int64_t t = a % b; a = b; b = t; }
    if (a > 1) { n /= a; d /= a; }
  }
  return Q64(n, d);
}
static inline Q64 operator+(const Q64& a, const Q64& b) {
  if (a.d == b.d) return a.d == 1 ? Q64(add_(a.n, b.n)) : mk(add_(a.n, b.n), a.d);
  return mk(add_(mul_(a.n, b.d), mul_(b.n, a.d)), mul_(a.d, b.d));
}
static inline Q64 operator-(const Q64& a, const Q64& b) { return a + Q64(-b.n, b.d); }
static inline Q64 operator*(const Q64& a, const Q64& b) {
  if (a.d == 1 && b.d == 1) return Q64(mul_(a.n, b.n));
  return mk(mul_(a.n, b.n), mul_(a.d, b.d));
}
static inline Q64 operator/(const Q64& a, const Q64& b) { return mk(mul_(a.n, b.d), mul_(a.d, b.n)); }
static inline bool lt(const Q64& a, const Q64& b) {
  if (a.d == b.d) return a.n < b.n;
  return (I)a.n * b.d < (I)b.n * a.d;
}

template <class Q>
struct SimplexT {
  int n, m;  // n structural (free), m rows; rows: s_i = sum a_ij x_j, s_i >= lo_i
  std::vector<std::vector<Q>> T;  // basic rows over nonbasic columns
  std::vector<int> basic, nonb;   // variable ids: 0..n-1 struct, n..n+m-1 slack
  std::vector<Q> val, lo;
  std::vector<char> haslo;
  int conf = -1;
  int init(int nv, int nc, const int64_t* A) {
    n = nv; m = nc;
    T.assign(m, std::vector<Q>(n));
    basic.resize(m); nonb.resize(n);
    val.assign(n + m, Q(0)); lo.assign(n + m, Q(0)); haslo.assign(n + m, 0);
    for (int i = 0; i < m; i++) {
      const int64_t* r = A + (size_t)i * (n + 1);
      for (int j = 0; j < n; j++) T[i][j] = Q((I)r[j]);
      lo[n + i] = Q((I)-(I)r[n]); haslo[n + i] = 1; basic[i] = n + i;
    }
    for (int j = 0; j < n; j++) nonb[j] = j;
    return 0;
  }
  void pivot(int r, int c) {
    Q p = T[r][c];
    std::vector<Q>& R = T[r];
    Q inv = Q(1) / p;
    for (int j = 0; j < n; j++) if (j != c && R[j].n != 0) R[j] = (Q(0) - R[j]) * inv;
    R[c] = inv;
    for (int i = 0; i < m; i++) if (i != r) {
      Q f = T[i][c];
      if (f.n == 0) continue;
      for (int j = 0; j < n; j++) if (j != c && R[j].n != 0) T[i][j] = T[i][j] + f * R[j];
      T[i][c] = f * inv;
    }
    int t = basic[r]; basic[r] = nonb[c]; nonb[c] = t;
  }
  bool check() {
    for (long it = 0; it < 20000; it++) {
      int r = -1;
      for (int i = 0; i < m; i++) { int b = basic[i]; if (haslo[b] && lt(val[b], lo[b])) if (r < 0 || b < basic[r]) r = i; }
      if (r < 0) return true;
      int b = basic[r], c = -1;
      for (int j = 0; j < n; j++) {
        const Q& a = T[r][j];
        if (a.n == 0) continue;
        int v = nonb[j];
        bool ok = a.n > 0 || !haslo[v] || lt(lo[v], val[v]);
        if (ok && (c < 0 || v < nonb[c])) c = j;
      }
      if (c < 0) { conf = r; return false; }
      int v = nonb[c];
      Q theta = (lo[b] - val[b]) / T[r][c];
      bool clipped = false;
      if (theta.n < 0 && haslo[v] && lt(val[v] + theta, lo[v])) { theta = lo[v] - val[v]; clipped = true; }
      for (int i = 0; i < m; i++) if (T[i][c].n != 0) val[basic[i]] = val[basic[i]] + T[i][c] * theta;
      val[v] = val[v] + theta;
      if (!clipped) pivot(r, c);
    }
    throw Ovf();
  }
};
using Simplex = SimplexT<Q>;
static int solve(int n, int m, const int64_t* A, int64_t* sol, int integer, int depth) {
  Simplex s;
  s.init(n, m, A);
  if (!s.check()) return 0;
  if (!integer) { if (sol) for (int i = 0; i < n; i++) sol[i] = (int64_t)(s.val[i].n / s.val[i].d); return 1; }
  int f = -1;
  for (int i = 0; i < n; i++) if (s.val[i].d != 1) { f = i; break; }
  if (f < 0) { if (sol) for (int i = 0; i < n; i++) sol[i] = (int64_t)s.val[i].n; return 1; }
  if (depth <= 0) return 2;
  I fl = s.val[f].n / s.val[f].d;
  if (s.val[f].n < 0) fl--;
  int res = 0;
  for (int side = 0; side < 2; side++) {
    std::vector<int64_t> B(A, A + (size_t)m * (n + 1));
    std::vector<int64_t> row(n + 1, 0);
    if (side == 0) { row[f] = -1; row[n] = (int64_t)fl; } else { row[f] = 1; row[n] = (int64_t)(-fl - 1); }
    B.insert(B.end(), row.begin(), row.end());
    int r = solve(n, m + 1, B.data(), sol, 1, depth - 1);
    if (r == 1) return 1;
    if (r == 2) res = 2;
  }
  return res;
}
extern "C" int vp_feasible(int n, int m, const int64_t* A, int64_t* sol, int integer) {
  try { return solve(n, m, A, sol, integer, 24); } catch (Ovf&) { return 2; }
}
template <class Q>
static int query(int n, int m, const int64_t* A, int64_t* sol, int* integral, int* core, int* ncore) {
  SimplexT<Q> s;
  s.init(n, m, A);
  for (int j = 0; j < n; j++) s.val[j] = Q((I)sol[j]);
  for (int i = 0; i < m; i++) {
    I v = 0;
    const int64_t* r = A + (size_t)i * (n + 1);
    for (int j = 0; j < n; j++) v += (I)r[j] * sol[j];
    s.val[n + i] = Q((I)v);
  }
  *ncore = -1;
  *integral = 0;
  if (s.check()) {
    *integral = 1;
    for (int i = 0; i < n; i++) { if (s.val[i].d != 1) *integral = 0; sol[i] = (int64_t)s.val[i].n; }
    return 1;
  }
  int r = s.conf, k = 0;
  core[k++] = s.basic[r] - n;
  for (int j = 0; j < n; j++) if (s.T[r][j].n != 0) {
    if (s.nonb[j] < n) return 0;
    core[k++] = s.nonb[j] - n;
  }
  *ncore = k;
  return 0;
}
// feasibility with a model (when integral) or an infeasible core; sol holds the starting point
extern "C" int vp_query(int n, int m, const int64_t* A, int64_t* sol, int* integral, int* core, int* ncore) {
  std::vector<int64_t> s0(sol, sol + n);
  try { return query<Q64>(n, m, A, sol, integral, core, ncore); } catch (Ovf&) {}
  std::copy(s0.begin(), s0.end(), sol);
  try { return query<Q>(n, m, A, sol, integral, core, ncore); } catch (Ovf&) { *ncore = -1; *integral = 0; return 2; }
}
