// Abstract views of library objects (representation used by engine/models.py)
#ifndef VFSTD_H_
#define VFSTD_H_
#include <vector>
#include "vf.h"
// v has the n elements stored from p on
template <class T> void vf_set_vector(std::vector<T> &v, T *p, long n) {
  T **f = (T **)&v;
  f[0] = p; f[1] = p + n; f[2] = p + n;
}
#endif
