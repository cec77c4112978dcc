/* stands in for <omp.h> where the build with OpenMP is analysed: its pragmas
   are ignored, so the jobs of a pass run one after another */
#ifndef SP_VERIF_OMP_H
#define SP_VERIF_OMP_H
extern "C" int omp_get_num_threads(void);
extern "C" int omp_get_max_threads(void);
extern "C" int omp_get_thread_num(void);
#endif
