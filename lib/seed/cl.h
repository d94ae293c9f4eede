// minimal host helper for demonstrations
#define CL_TARGET_OPENCL_VERSION 300
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#include <CL/cl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static cl_context ctx; static cl_command_queue q; static cl_device_id dev; static cl_platform_id plat;
#define CK(e) do { cl_int e_ = (e); if (e_) { printf("line %d: error %d\n", __LINE__, e_); exit(3); } } while (0)
#define EXPECT(c) do { if (!(c)) { printf("line %d: expected %s\n", __LINE__, #c); exit(1); } } while (0)
static void init(void) {
  cl_int e;
  CK(clGetPlatformIDs(1, &plat, NULL));
  CK(clGetDeviceIDs(plat, CL_DEVICE_TYPE_ALL, 1, &dev, NULL));
  ctx = clCreateContext(NULL, 1, &dev, NULL, NULL, &e); CK(e);
  q = clCreateCommandQueue(ctx, dev, CL_QUEUE_PROFILING_ENABLE, &e); CK(e);
}
static cl_mem buf(size_t n, const void *p) {
  cl_int e; cl_mem m = clCreateBuffer(ctx, p ? CL_MEM_COPY_HOST_PTR : 0, n, (void *)p, &e); CK(e); return m;
}
static cl_kernel kern(const char *src, const char *opts, const char *name) {
  cl_int e; cl_program p = clCreateProgramWithSource(ctx, 1, &src, NULL, &e); CK(e);
  if (clBuildProgram(p, 1, &dev, opts, NULL, NULL)) { char log[8192]; clGetProgramBuildInfo(p, dev, CL_PROGRAM_BUILD_LOG, sizeof log, log, NULL); printf("%s\n", log); exit(3); }
  cl_kernel k = clCreateKernel(p, name, &e); CK(e); return k;
}
static void rd(cl_mem m, size_t n, void *p) { CK(clEnqueueReadBuffer(q, m, CL_TRUE, 0, n, p, 0, NULL, NULL)); }
static void run1(cl_kernel k, size_t g, size_t l) { CK(clEnqueueNDRangeKernel(q, k, 1, NULL, &g, l ? &l : NULL, 0, NULL, NULL)); CK(clFinish(q)); }
