#ifndef OMP_STUB_H
#define OMP_STUB_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(void); int omp_get_thread_num(void); int omp_get_num_threads(void); void omp_set_num_threads(int);
#ifdef __cplusplus
}
#endif
#endif
