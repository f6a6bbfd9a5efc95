#ifndef V_CUBA
#define V_CUBA
#ifdef _CUBA15
typedef void (*integrand_t)(const int *ndim, const double x[], const int *ncomp, double f[]);
void Vegas(const int ndim, const int ncomp, integrand_t integrand, const double epsrel, const double epsabs, const int flags, const int mineval, const int maxeval, const int nstart, const int nincrease, int *neval, int *fail, double integral[], double error[], double prob[]);
void Suave(const int ndim, const int ncomp, integrand_t integrand, const double epsrel, const double epsabs, const int flags, const int mineval, const int maxeval, const int nnew, const double flatness, int *nregions, int *neval, int *fail, double integral[], double error[], double prob[]);
#else
typedef int (*integrand_t)(const int *ndim, const double x[], const int *ncomp, double f[], void *userdata);
void Vegas(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec, const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval, const int nstart, const int nincrease, const int nbatch, const int gridno, const char *statefile, void *spin, int *neval, int *fail, double integral[], double error[], double prob[]);
void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec, const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval, const int nnew, const int nmin, const double flatness, const char *statefile, void *spin, int *nregions, int *neval, int *fail, double integral[], double error[], double prob[]);
#endif
void cubacores(const int n, const int p); void cubaaccel(const int n, const int p);
#endif
