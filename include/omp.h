#ifndef V_OMP
#define V_OMP
double omp_get_wtime(void); void omp_set_num_threads(int n); int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_num_procs(void);int omp_in_parallel(void);
#endif
