#ifndef SIM_ELEM_H
#define SIM_ELEM_H
#include "props.h"
#include <complex>
#include <functional>
namespace sim {
typedef std::complex<double> cd;
struct Mat {  // plain column-major matrices (n of them)
  bool cx;
  int r, c, n;
  std::vector<cd> v;
  Mat() : cx(false), r(0), c(0), n(0) {}
  cd &at(int i, int j) { return v[(size_t)(i + j * r)]; }
  const cd &at(int i, int j) const { return v[(size_t)(i + j * r)]; }
};
Mat mat(int r, int c, int n, bool cx);
Mat read_elem(const Element &e);
Mat rnd_mat(int r, int c, int n, bool cx, u64 seed);
void write_raw(double *p, const Mat &m);
bool same_bits(const Mat &a, const Mat &b);
bool same_shape(const Mat &a, const Mat &b);
double maxabs(const Mat &m);
bool finite(const Mat &m);
Mat mmul(const Mat &a, const Mat &b);
Mat mtran(const Mat &a, char t);
Mat mherm(const Mat &a);
std::string show(const Mat &m);
Scenario gen_elem10(u64 seed, int tier);
void run_elem(const Scenario &s);
}  // namespace sim
#endif
