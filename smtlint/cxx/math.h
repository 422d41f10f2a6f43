#ifndef STUB_MATH
#define STUB_MATH
extern "C" { double pow(double, double); double exp(double); double sqrt(double); double fabs(double); double ceil(double); double floor(double); double log(double); double sin(double); double cos(double); double tan(double); double fmax(double, double); double fmin(double, double); double round(double); double hypot(double, double); int isnan(double); double fmod(double, double); int abs(int); }
namespace std { using ::pow; using ::exp; using ::sqrt; using ::fabs; using ::ceil; using ::floor; using ::log; using ::fmax; using ::fmin; double abs(double); using ::abs; }
#endif
