// Tensors with billions of elements over memory that is reserved but not used:
// only the pages that are touched exist.
#ifndef VERIF_HUGE_H
#define VERIF_HUGE_H
#include <sys/mman.h>
#include "ref.h"
template <class T> struct Huge {
  size_t n; T *p;
  explicit Huge(size_t n_) : n(n_), p((T *)mmap(0, n_ * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) { if (p == MAP_FAILED) p = 0; }
  ~Huge() { if (p) munmap(p, n * sizeof(T)); }
  // a tensor that is the only user of this memory, so that it may be written in place
  tensor::Tensor<T> tensor(const Dims &d) { return tensor::Tensor<T>(to_indices(d), tensor::Tensor<T>(tensor::Vector<T>((tensor::index)n, p))); }
private:
  Huge(const Huge &); Huge &operator=(const Huge &);
};
// shapes of 2^31 to 2^33 elements whose positions and strides need more than 31 or 32 bits
inline std::vector<Dims> huge_shapes(int rank) {
  const long G = 1L << 32;
  switch (rank) {
    case 1: return {{G + 5}, {(1L << 31) + 3}};
    case 2: return {{3, (1L << 31) + 1}, {(1L << 31) + 1, 3}, {65537, 65539}, {1, G + 7}, {G + 7, 1}, {46341, 46341}};
    case 3: return {{2, 3, 1L << 30}, {1L << 30, 3, 2}, {3, 1L << 30, 2}, {1627, 1629, 1625}, {1, 1L << 31, 2}, {G + 1, 1, 1}};
    case 4: return {{2, 3, 2, 1L << 29}, {1L << 29, 2, 2, 3}, {257, 259, 251, 263}, {2, 1L << 30, 1, 3}, {1, 2, (1L << 31) + 9, 1}};
    case 5: return {{2, 2, 3, 2, 1L << 28}, {1L << 28, 2, 3, 2, 2}, {85, 86, 87, 83, 89}, {2, 1, 1L << 30, 2, 2}};
    default: return {{2, 2, 3, 2, 2, 1L << 27}, {1L << 27, 2, 2, 3, 2, 2}, {41, 42, 43, 37, 39, 40}, {2, 1, 2, 1L << 28, 2, 2}};
  }
}
// first, last and inner positions of a dimension
inline Dims huge_picks(long d) { Dims p; for (long x : {0L, 1L, d / 2, d - 2, d - 1}) if (x >= 0 && x < d && std::find(p.begin(), p.end(), x) == p.end()) p.push_back(x); return p; }
#endif
