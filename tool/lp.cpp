// Exact entailment kernel for the linear-inequality domain.
// constraints: sum_j A[i][j] x_j + b[i] >= 0 (x free, rational)
// query:       sum_j e[j] x_j + k >= 0
// Decided through the Farkas dual  min { lambda.b : lambda.A = e, lambda >= 0 }
// with an integer-preserving (Bareiss) simplex, Bland's rule, __int128 arithmetic.
// returns 1 entailed, 0 not entailed, -1 gave up (overflow / iteration limit)
#include <cstdint>
#include <vector>
typedef __int128 I;
static const I LIM = ((I)1) << 100;
struct Ovf {};
static inline I ck(I x) { if (x > LIM || x < -LIM) throw Ovf(); return x; }
static inline I mul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Ovf(); return r; }
static inline I sub(I a, I b) { I r; if (__builtin_sub_overflow(a, b, &r)) throw Ovf(); return r; }

extern "C" int lp_entails(int n, int m, const int64_t *A, const int64_t *bhi, const uint64_t *blo,
                          const int64_t *e, int64_t khi, uint64_t klo, int *bounded) {
  try {
    int cols = m + n; // lambda, artificials ; rhs at cols
    std::vector<std::vector<I>> T(n + 1, std::vector<I>(cols + 1, 0));
    std::vector<I> cost(cols + 1, 0);
    std::vector<int> basis(n);
    for (int j = 0; j < n; j++) {
      int s = e[j] < 0 ? -1 : 1;
      for (int i = 0; i < m; i++) T[j][i] = s * (I)A[(size_t)i * n + j];
      T[j][m + j] = 1;
      T[j][cols] = s * (I)e[j];
      basis[j] = m + j;
    }
    I k = (((I)khi) << 64) | (I)(unsigned __int128)klo;
    std::vector<I> b(m);
    for (int i = 0; i < m; i++) b[i] = (((I)bhi[i]) << 64) | (I)(unsigned __int128)blo[i];
    I D = 1;
    // objective row (reduced costs scaled by D) kept in T[n]
    auto setObj = [&](bool phase1) {
      std::vector<I> c(cols + 1, 0);
      if (phase1) for (int j = 0; j < n; j++) c[m + j] = 1;
      else for (int i = 0; i < m; i++) c[i] = b[i];
      // reduced: D*c - sum_{basic} c_B * row   (rows are scaled by D)
      for (int q = 0; q <= cols; q++) T[n][q] = ck(mul(D, c[q]));
      for (int r = 0; r < n; r++) {
        I cb = c[basis[r]];
        if (cb == 0) continue;
        for (int q = 0; q <= cols; q++) T[n][q] = ck(sub(T[n][q], mul(cb, T[r][q])));
      }
    };
    auto pivot = [&](int r, int c) {
      I p = T[r][c];
      for (int i = 0; i <= n; i++) {
        if (i == r) continue;
        I f = T[i][c];
        for (int q = 0; q <= cols; q++) {
          I v = sub(mul(T[i][q], p), mul(f, T[r][q]));
          T[i][q] = ck(v / D);
        }
      }
      D = p;
      if (D < 0) { for (auto &row : T) for (auto &v : row) v = -v; D = -D; }
      basis[r] = c;
    };
    auto simplex = [&](int lim) -> int { // 0 optimal, 1 unbounded, 2 limit
      for (int it = 0; it < 400; it++) {
        int c = -1;
        for (int q = 0; q < lim; q++) if (T[n][q] < 0) { c = q; break; }
        if (c < 0) return 0;
        int r = -1;
        for (int i = 0; i < n; i++) if (T[i][c] > 0) {
          if (r < 0) { r = i; continue; }
          I x = sub(mul(T[i][cols], T[r][c]), mul(T[r][cols], T[i][c]));
          if (x < 0 || (x == 0 && basis[i] < basis[r])) r = i;
        }
        if (r < 0) return 1;
        pivot(r, c);
      }
      return 2;
    };
    setObj(true);
    int st = simplex(cols);
    if (st == 2) return -1;
    if (T[n][cols] != 0) { // artificials positive: e not in the cone; entailed only if the system is infeasible
      *bounded = 0;
      return 0;
    }
    // drive artificials out of the basis where possible
    for (int r = 0; r < n; r++) if (basis[r] >= m) {
      int c = -1;
      for (int q = 0; q < m; q++) if (T[r][q] != 0) { c = q; break; }
      if (c >= 0) pivot(r, c);
    }
    setObj(false);
    st = simplex(m);
    if (st == 2) return -1;
    *bounded = 1;
    if (st == 1) return 1; // dual unbounded: primal infeasible
    // objective value = -T[n][cols]/D ; entailed iff value <= k
    I val = -T[n][cols];
    return val <= mul(k, D) ? 1 : 0;
  } catch (Ovf &) { return -1; }
}

// infeasibility of the constraint system: is 0*x - 1 >= 0 entailed
