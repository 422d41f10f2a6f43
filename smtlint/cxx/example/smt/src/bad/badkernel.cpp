// a kernel with the defects that the rules of smtlint/native.py look for
#include <iostream>
#include <cstring>
class Bad {
public:
  Bad();
  void setup(int nx, int nt, double * xt, double * d0);
  void compute(int n, double * x, double * jac);
private:
  int nx, nt, calls, unset;
  double * xt;
  double * d0;
  double * w;
};
Bad::Bad() {
  xt = NULL;
  d0 = NULL;
  w = NULL;
  calls = 0;
}
void Bad::setup(int nx, int nt, double * xt, double * d0) {
  if (this->nx == nx) {
    return;
  }
  this->nx = nx;
  this->nt = nt;
  this->w = new double[nt];
  this->xt = new double[nt * nx];
  this->d0 = d0;
  memcpy(this->xt, xt, nt * nx * sizeof(*xt));
}
void Bad::compute(int n, double * x, double * jac) {
  static int total = 0;
  double sum = 0.;
  total += unset;
  for (int i = 0; i < n; i++) {
    for (int it = 0; it < nt; it++) {
      double d = x[i * nx] - xt[it * nx] + x[it] + x[(i + 1) * nx];
      if (d > 0.) {
        w[it] = d;
      }
      sum += w[it];
    }
    for (int it = 0; it < nt; it++) {
      if (w[it] > 0.) {
        jac[i * nt + it] = w[it] / sum;
      }
    }
    xt[i] += sum;
    calls += 1;
  }
  std::cout << total << calls << x[0];
}
