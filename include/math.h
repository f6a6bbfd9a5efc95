#ifndef V_MATH
#define V_MATH
double fabs(double); float fabsf(float); double log(double); float logf(float); double exp(double); float expf(float);
double pow(double,double); float powf(float,float); double sqrt(double); float sqrtf(float); double sin(double); float sinf(float); double cos(double); float cosf(float);
double tan(double); double floor(double); double ceil(double); double fmax(double,double); double fmin(double,double); float fmaxf(float,float); float fminf(float,float);
double log10(double); double log1p(double); double expm1(double); double cbrt(double); double hypot(double,double); double fma(double,double,double); double exp2(double); double log2(double);
double acos(double); double asin(double); double atan(double); double atan2(double,double); double cosh(double); double sinh(double); double tanh(double);
double fmod(double,double); double round(double); double trunc(double); double copysign(double,double); double lgamma(double); double tgamma(double);
int isnan(double); int isinf(double); int isfinite(double);
extern const double M_PI; extern const double M_E; extern const double INFINITY; extern const double NAN; extern const double HUGE_VAL;
extern const double M_SQRT2; extern const double M_PI_2; extern const double M_PI_4; extern const double M_1_PI; extern const double M_LN2;
#endif
