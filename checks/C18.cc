// C18: singular value decompositions reconstruct their matrix.
#include "linalg_common.h"
#include <tensor/linalg.h>
using namespace tensor;
using namespace linalg;
// singular values by one-sided Jacobi rotations in extended precision
static std::vector<LD> singular(Mat a) {
  if (a.r < a.c) a = adj(a);
  for (int sweep = 0; sweep < 60; sweep++) {
    LD off = 0;
    for (int p = 0; p < a.c; p++) for (int q = p + 1; q < a.c; q++) {
      LD x = 0, y = 0; lc z = 0; for (int i = 0; i < a.r; i++) { x += std::norm(a(i, p)); y += std::norm(a(i, q)); z += std::conj(a(i, p)) * a(i, q); }
      LD m = std::abs(z); if (m <= 1e-19L * std::sqrt(x * y) || m == 0) continue;
      off = std::max(off, m); lc ph = z / m; LD t = (y - x) / (2 * m); t = (t >= 0 ? 1 : -1) / (std::abs(t) + std::sqrt(1 + t * t)); LD c = 1 / std::sqrt(1 + t * t), s = c * t;
      for (int i = 0; i < a.r; i++) { lc u = a(i, p), v = std::conj(ph) * a(i, q); a(i, p) = c * u - s * v; a(i, q) = s * u + c * v; }
    }
    if (off == 0) break;
  }
  std::vector<LD> r; for (int j = 0; j < a.c; j++) r.push_back(norm2(col(a, j))); std::sort(r.begin(), r.end(), std::greater<LD>()); return r;
}
static Mat head(const Mat &a, int rows, int cols) { Mat m(rows, cols); for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) m(i, j) = a(i, j); return m; }
template <class T> static void decompose(const Mat &m, bool few) {
  const int M = m.r, N = m.c, K = std::min(M, N); Ref<T> A = to_ref<T>(m); LD na = norm2(m); LD tol = 60 * std::max(M, N) * EPS;
  std::vector<LD> want = singular(m); mc::state(hash(A));
  for (int block = 0; block < 3; block++) for (int eco = 0; eco < 2; eco++) for (int req = 0; req < 4; req++) {
    if (block == 2 && (few || sizeof(T) == sizeof(double))) continue;   // the flag accurate_svd concerns complex matrices
    if (few && req && req < 3 && (M + N + eco) % 2 != req - 1) continue;
    Operand<T> a(A), oldu(Ref<T>(Dims{2, 1}, T(5))), oldv(Ref<T>(Dims{M, M}, T(7))); RTensor s; mc::transition();
    Tensor<T> U(oldu.t), V(oldv.t), *pu = req & 1 ? &U : 0, *pv = req & 2 ? &V : 0;
    S how = mc::Str() << (block == 1 ? "block_svd" : block ? "accurate svd" : "svd") << (eco ? " economic" : "") << (pu ? " U" : "") << (pv ? " V" : "") << " of " << show(m);
    accurate_svd = block == 2;
    bool rej = mc::rejects([&] { s = block == 1 ? block_svd(a.t, pu, pv, eco) : svd(a.t, pu, pv, eco); });
    bool flag = accurate_svd; accurate_svd = false;
    if (rej) { mc::fail(how + ": rejected: " + mc::ending_message); return; }
    if (flag != (block == 2)) { mc::fail(how + ": changed accurate_svd"); return; }
    a.untouched("svd"); oldu.untouched("another tensor"); oldv.untouched("another tensor");
    if (!pu && !bits_same(from_tensor(U), oldu.r)) { mc::fail(how + ": U was not asked for"); return; }
    if (!pv && !bits_same(from_tensor(V), oldv.r)) { mc::fail(how + ": V was not asked for"); return; }
    if (from_indices(s.dimensions()) != Dims{K}) { mc::fail(how + ": wrong number of singular values " + show(s)); return; }
    for (int i = 0; i < K; i++) {
      if (!(s[i] >= 0) || (i && !(s[i] <= s[i - 1]))) { mc::fail(how + ": singular values negative or not ordered " + show(s)); return; }
      if (!(std::abs(s[i] - want[i]) <= tol * na)) { mc::fail(how + ": singular values " + show(s) + mc::Str().operator<<(" expected ").operator<<((double)want[i]).operator std::string()); return; }
    }
    Mat u, v;
    if (pu) {
      if (from_indices(U.dimensions()) != Dims{M, eco ? K : M}) { mc::fail(how + ": dimensions of U " + show(U)); return; }
      u = to_mat(U); if (!small(adj(u) * u - one(u.c), tol)) { mc::fail(how + ": U is not orthonormal: " + show(u)); return; }
    }
    if (pv) {
      if (from_indices(V.dimensions()) != Dims{eco ? K : N, N}) { mc::fail(how + ": dimensions of V " + show(V)); return; }
      v = to_mat(V); if (!small(v * adj(v) - one(v.r), tol)) { mc::fail(how + ": V is not orthonormal: " + show(v)); return; }
    }
    Mat d(K, K); for (int i = 0; i < K; i++) d(i, i) = s[i];
    if (pu && pv) { if (!small(head(u, M, K) * d * head(v, K, N) - m, tol * na)) { mc::fail(how + ": U S V is not the matrix"); return; } }
    else if (pu) { Mat w = adj(u) * m; Mat e(u.c, u.c); for (int i = 0; i < K; i++) e(i, i) = (LD)s[i] * s[i]; if (!small(w * adj(w) - e, tol * na * na)) { mc::fail(how + ": U does not belong to the singular values"); return; } }
    else if (pv) { Mat w = m * adj(v); Mat e(v.r, v.r); for (int i = 0; i < K; i++) e(i, i) = (LD)s[i] * s[i]; if (!small(adj(w) * w - e, tol * na * na)) { mc::fail(how + ": V does not belong to the singular values"); return; } }
  }
  // the argument as its own output
  if (!few) for (int block = 0; block < 2; block++) { Tensor<T> x = to_tensor(A), y(x), v; RTensor s = block ? block_svd(x, &x, &v, true) : svd(x, &x, &v, true); Mat d(K, K); for (int i = 0; i < K; i++) d(i, i) = s[i]; mc::transition(); if (!small(to_mat(x) * d * to_mat(v) - m, tol * na)) { mc::fail("the argument as its own output: " + show(m)); return; } if (!bits_same(from_tensor(y), A)) { mc::fail("the argument as its own output changed a copy"); return; } }
}
void explore() {
  const bool Th = mc::thorough;
  const Alphabet pm = {0, 1, -1}, five = {0, 1, -1, 2, 0.5}, cx = {0, 1, lc(0, 1), lc(1, -1)}, ci = {0, 1, lc(0, 1)};
  auto real = [&](int r, int c, const Alphabet &a, bool few) { all_matrices(r, c, a, "real", [&, few](const Mat &m) { mc::group("small matrices"); mc::nontrivial(); decompose<double>(m, few); }); };
  auto cplx = [&](int r, int c, const Alphabet &a, bool few) { all_matrices(r, c, a, "complex", [&, few](const Mat &m) { mc::group("small matrices"); mc::nontrivial(); decompose<cd>(m, few); }); };
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) { int n = r * c; real(r, c, n <= 4 ? five : pm, n > 6); cplx(r, c, n <= 4 ? cx : n <= 6 ? ci : Alphabet{0, lc(0, 1)}, n > 6); }
  real(1, 1, {0, 1, -1, 1e-300, -1e-300, 1e300, 1e-160, 3, -0.1}, false); cplx(1, 1, {0, 1, -1, lc(0, 1), lc(0, -1), lc(3, 4), lc(-1e150, 1e150), lc(1e-150, -1e-150)}, false);
  // every pattern of zeros: all block structures up to 4x4, also rectangular
  real(4, 4, {0, 1}, true); real(2, 4, pm, true); real(4, 2, pm, true); real(4, 3, {0, 1}, true); real(3, 4, {0, 1}, true); real(2, 5, {0, 1}, false); real(5, 2, {0, 1}, false); real(1, 6, pm, false); real(6, 1, pm, false); cplx(3, 4, {0, lc(1, 1)}, true); cplx(4, 3, {0, lc(1, 1)}, true);
  if (Th) { cplx(4, 4, {0, lc(1, 1)}, true); cplx(3, 3, ci, true); real(3, 3, {0, 1, -1, 2}, true); real(4, 5, {0, 1}, true); real(5, 4, {0, 1}, true); real(3, 4, pm, true); real(4, 3, pm, true); }
  // numbers in the blocks that differ: distinct elements in every pattern of zeros
  for (int r = 1; r <= 4; r++) for (int c = 1; c <= 4; c++) { if (r * c > 12 && !Th) { if (r * c > 16) continue; } for (int part = 0; part < 16; part++) mc::run_case(DESC { return mc::Str() << "patterns " << r << "x" << c << " part " << part; }, [&] {
    mc::group("patterns"); mc::nontrivial();
    for (long p = part; p < (1L << (r * c)) && !mc::failed(); p += 16) { Mat m(r, c), z(r, c); for (int k = 0; k < r * c; k++) if (p >> k & 1) { m.v[k] = (k % 2 ? -1 : 1) * (LD)(1 + k); z.v[k] = lc((k % 3) - 1, (k % 2) + 1); } decompose<double>(m, r * c > 9); if (r * c <= 9 || Th) decompose<cd>(z, r * c > 9); }
  }); }
  // block matrices up to permutations of rows and columns, larger ones
  for (auto sz : std::vector<std::vector<int> >{{1, 1, 2, 2}, {2, 2, 1, 1}, {2, 3, 3, 2}, {1, 3, 3, 1}, {3, 3, 3, 3}, {1, 1, 1, 1, 1, 1}, {2, 2, 2, 2, 1, 1}, {4, 4, 5, 5, 6, 6}, {10, 10, 7, 7}, {3, 5, 4, 4}, {5, 3, 4, 4}, {2, 1, 1, 2, 3, 3}, {1, 0, 3, 3}, {0, 1, 3, 3}, {1, 0, 0, 1, 2, 2, 3, 3}})
    for (int perm = 0; perm < (Th ? 60 : 20); perm++) for (int z = 0; z < 2; z++) mc::run_case(DESC { return mc::Str() << "blocks " << mc::seq(sz) << " permutation " << perm << (z ? " complex" : " real"); }, [&] {
      mc::group("blocks"); mc::nontrivial(); int R = 0, C = 0; for (size_t b = 0; b < sz.size(); b += 2) { R += sz[b]; C += sz[b + 1]; }
      std::vector<int> pr(R), pc(C); for (int i = 0; i < R; i++) pr[i] = i; for (int i = 0; i < C; i++) pc[i] = i;
      unsigned long x = perm * 2654435761UL + 12345; auto shuffle = [&](std::vector<int> &v) { if (perm) for (size_t i = v.size(); i > 1; i--) { x = x * 6364136223846793005UL + 1442695040888963407UL; std::swap(v[i - 1], v[(x >> 33) % i]); } }; shuffle(pr); shuffle(pc);
      Mat m(R, C); int ro = 0, co = 0; for (size_t b = 0; b < sz.size(); b += 2) { for (int i = 0; i < sz[b]; i++) for (int j = 0; j < sz[b + 1]; j++) m(pr[ro + i], pc[co + j]) = lc((i * 3 + j * 5 + b) % 7 + 1 - 4 * ((i + j) % 2), z ? (i + 2 * j) % 3 - 1 : 0); ro += sz[b]; co += sz[b + 1]; }
      if (z) decompose<cd>(m, false); else decompose<double>(m, false);
    });
  for (int k = 0; k < NSTRUCT; k++) for (int n = 1; n <= 131; n = n < 10 ? n + 1 : n < 36 ? n + 13 : n < 40 ? n + 5 : n == 131 ? 999 : n < 66 ? 66 : 131) for (int cut = -2; cut <= 2; cut++) for (int z = 0; z < 2; z++) mc::run_case(DESC { return mc::Str() << "structured " << k << " size " << n << " cut " << cut << (z ? " complex" : " real"); }, [&] {
    mc::group("structured"); Mat m = structured(k, n); if ((!z && is_complex(m)) || n - std::abs(cut) < 1 || (cut && n > 24)) return; mc::nontrivial();
    m = head(m, n - std::max(cut, 0), n - std::max(-cut, 0)); if (z) decompose<cd>(m, n > 12); else decompose<double>(m, n > 12);
  });
  // scales
  for (LD s : {1e-200L, 1e-30L, 1e30L, 1e150L}) for (int r = 1; r <= 2; r++) for (int c = 1; c <= 3; c++) all_matrices(r, c, pm, "scaled", [&, s](const Mat &m) { mc::group("scaled"); mc::nontrivial(); for (int b = 0; b < 2; b++) for (int e = 0; e < 2; e++) { RTensor a = to_tensor(to_ref<double>(lc(s) * m)), U, V; RTensor x = b ? block_svd(a, &U, &V, e) : svd(a, &U, &V, e); std::vector<LD> w = singular(m); for (int i = 0; i < (int)w.size(); i++) if (!(std::abs(x[i] / s - w[i]) <= 1e-13)) { mc::fail("scaled singular values of " + show(m)); return; } mc::transition(); } });
  // numbers of every order of magnitude: what is small next to the rest counts as much as it should
  for (int k = -280; k <= 280; k += std::abs(k) < 30 ? 1 : 5) for (int z = 0; z < 2; z++) mc::run_case(DESC { return mc::Str() << "order of magnitude " << k << (z ? " complex" : " real"); }, [&] {
    mc::group("magnitudes"); mc::nontrivial(); const LD s = powl(10, k);
    for (auto d : std::vector<std::pair<int, int> >{{2, 2}, {3, 2}, {2, 3}, {4, 3}, {3, 4}, {4, 4}}) for (int w = 0; w < 4; w++) {
      Mat m(d.first, d.second);   // two blocks, linked by numbers which are a part of the others
      for (int i = 0; i < d.first; i++) for (int j = 0; j < d.second; j++) {
        bool block = (2 * i < d.first) == (2 * j < d.second), link = !block && w && (i + j) % 2; if (!block && !link) continue;
        LD x = ((i * 3 + j * 5) % 7 + 1) * (block ? 1 : w == 1 ? 0.3L : w == 2 ? 0.05L : 1e-3L) * s;
        m(i, j) = z ? lc((double)x, (i + j) % 3 ? 0 : (double)(-x / 2)) : lc((double)x);
      }
      if (z) decompose<cd>(m, true); else decompose<double>(m, true);
    }
  });
  mc::run_case(DESC { return S("shapes"); }, [&] {
    mc::group("shapes"); mc::nontrivial();
    for (auto d : std::vector<Dims>{{2, 2, 1}, {2, 2, 2}, {1, 1, 1}, {3}, {1, 3, 2}}) for (int b = 0; b < 2; b++) for (int e = 0; e < 2; e++) {
      Operand<double> a(Ref<double>(d, 1)); Operand<cd> z(Ref<cd>(d, 1)); RTensor U, V; CTensor P, Q; mc::transition(2);
      if (!mc::rejects([&] { b ? block_svd(a.t, &U, &V, e) : svd(a.t, &U, &V, e); })) { mc::fail("accepts a tensor of dimensions " + mc::seq(d) + (b ? " (block)" : "")); return; }
      if (!mc::rejects([&] { b ? block_svd(z.t, &P, &Q, e) : svd(z.t, &P, &Q, e); })) { mc::fail("accepts a complex tensor of dimensions " + mc::seq(d) + (b ? " (block)" : "")); return; }
      a.untouched("rejected call"); z.untouched("rejected call");
    }
  });
}
