/* the kernels include omp.h but call no OpenMP function */
