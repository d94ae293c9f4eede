/* The application of check C23: looks up the OpenCL functions at run time, so that it is the launcher that has to provide them. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <dirent.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char **environ;
static void *sym(const char *n) { void *p = dlsym(RTLD_DEFAULT, n); if (!p) { printf("NOSYM %s\n", n); fflush(stdout); _exit(90); } return p; }
#define F(ret, name, ...) static ret (*name)(__VA_ARGS__)
F(int, clGetPlatformIDs, unsigned, void **, unsigned *);
F(int, clGetDeviceIDs, void *, unsigned long, unsigned, void **, unsigned *);
F(void *, clCreateContext, void *, unsigned, void **, void *, void *, int *);
F(void *, clCreateCommandQueue, void *, void *, unsigned long, int *);
F(void *, clCreateProgramWithSource, void *, unsigned, const char **, const size_t *, int *);
F(int, clBuildProgram, void *, unsigned, void *, const char *, void *, void *);
F(void *, clCreateKernel, void *, const char *, int *);
F(int, clSetKernelArg, void *, unsigned, size_t, const void *);
F(void *, clCreateBuffer, void *, unsigned long, size_t, void *, int *);
F(int, clEnqueueNDRangeKernel, void *, void *, unsigned, const size_t *, const size_t *, const size_t *, unsigned, void *, void *);
F(int, clFinish, void *);
F(int, clEnqueueReadBuffer, void *, void *, unsigned, size_t, size_t, void *, unsigned, void *, void *);
F(int, clGetDeviceInfo, void *, unsigned, size_t, void *, size_t *);
F(int, clReleaseMemObject, void *); F(int, clReleaseKernel, void *); F(int, clReleaseProgram, void *); F(int, clReleaseCommandQueue, void *); F(int, clReleaseContext, void *);
F(int, clGetKernelWorkGroupInfo, void *, void *, unsigned, size_t, void *, size_t *);
F(int, clGetProgramBuildInfo, void *, void *, unsigned, size_t, void *, size_t *);
static void load(void) {
#define S(n) n = sym(#n);
 S(clGetPlatformIDs) S(clGetDeviceIDs) S(clCreateContext) S(clCreateCommandQueue) S(clCreateProgramWithSource) S(clBuildProgram) S(clCreateKernel) S(clSetKernelArg) S(clCreateBuffer)
 S(clEnqueueNDRangeKernel) S(clFinish) S(clEnqueueReadBuffer) S(clGetDeviceInfo) S(clReleaseMemObject) S(clReleaseKernel) S(clReleaseProgram) S(clReleaseCommandQueue) S(clReleaseContext)
 S(clGetKernelWorkGroupInfo) S(clGetProgramBuildInfo)
}
static void *plat, *dev;
static void first(void) { load(); if (clGetPlatformIDs(1, &plat, 0) || clGetDeviceIDs(plat, 0xFFFFFFFF, 1, &dev, 0)) { printf("NOPLATFORM\n"); exit(91); } }
static char *slurp(const char *f) { FILE *h = fopen(f, "rb"); char *b = calloc(1, 1 << 20); size_t n = fread(b, 1, (1 << 20) - 1, h); b[n] = 0; fclose(h); return b; }
struct C { void *ctx, *q, *p, *k, *b; };
static void mk(struct C *c, const char *src, const char *opts, const char *kern, size_t bytes) {
 int e;
 c->ctx = clCreateContext(0, 1, &dev, 0, 0, &e); if (e) { printf("CTX %d\n", e); exit(92); }
 c->q = clCreateCommandQueue(c->ctx, dev, 0, &e);
 c->p = clCreateProgramWithSource(c->ctx, 1, &src, 0, &e);
 if ((e = clBuildProgram(c->p, 0, 0, opts, 0, 0))) { char log[20000] = ""; clGetProgramBuildInfo(c->p, dev, 0x1183, sizeof log, log, 0); printf("BUILD %d\n", e); fprintf(stderr, "%s", log); exit(93); }
 c->k = clCreateKernel(c->p, kern, &e); if (e) { printf("KERNEL %d\n", e); exit(94); }
 int *z = calloc(1, bytes);
 c->b = clCreateBuffer(c->ctx, 33, bytes, z, &e); if (e) { printf("BUFFER %d\n", e); exit(95); }
 clSetKernelArg(c->k, 0, 8, &c->b);
 free(z);
}
static void un(struct C *c) { clReleaseMemObject(c->b); clReleaseKernel(c->k); clReleaseProgram(c->p); clReleaseCommandQueue(c->q); clReleaseContext(c->ctx); }
static volatile int stop, most;
static int threads(void) { int n = 0; DIR *d = opendir("/proc/self/task"); struct dirent *e; while ((e = readdir(d))) if (e->d_name[0] != '.') n++; closedir(d); return n; }
static void *watch(void *x) { while (!stop) { int n = threads(); if (n > most) most = n; usleep(200); } return 0; }
int main(int argc, char **argv) {
 if (argc < 2) return 99;
 const char *m = argv[1];
 if (!strcmp(m, "env")) { /* env FILE EXIT args.. : environment and arguments to FILE, stdin to stdout, a line to stderr */
  FILE *f = fopen(argv[2], "wb");
  for (int i = 0; i < argc; i++) fwrite(argv[i], 1, strlen(argv[i]) + 1, f);
  fputc(1, f); fputc(0, f);
  for (char **e = environ; *e; e++) fwrite(*e, 1, strlen(*e) + 1, f);
  fputc(1, f); fputc(0, f);
  FILE *mp = fopen("/proc/self/maps", "r"); char line[4096]; int seen = 0; while (fgets(line, sizeof line, mp)) if (strstr(line, "liboclgrind-rt")) seen = 1; fclose(mp);
  fprintf(f, "rt=%d ppid=%d cwd=", seen, getppid()); char cwd[4096]; fputs(getcwd(cwd, sizeof cwd), f);
  fclose(f);
  char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, stdin))) fwrite(buf, 1, n, stdout);
  fflush(stdout); fprintf(stderr, "to stderr\n");
  int x = atoi(argv[3]);
  if (x < 0) { signal(-x, SIG_DFL); kill(getpid(), -x); pause(); }
  return x;
 }
 if (!strcmp(m, "dev")) { /* dev: device limits; then commands wg a b c | local n | const n */
  first();
  unsigned long v; unsigned u; size_t s, s3[3];
  u = 0; clGetDeviceInfo(dev, 0x1002, 4, &u, 0); printf("cu %u\n", u);
  v = 0; clGetDeviceInfo(dev, 0x101F, 8, &v, 0); printf("gmem %lu\n", v);
  v = 0; clGetDeviceInfo(dev, 0x1020, 8, &v, 0); printf("cmem %lu\n", v);
  v = 0; clGetDeviceInfo(dev, 0x1023, 8, &v, 0); printf("lmem %lu\n", v);
  s = 0; clGetDeviceInfo(dev, 0x1004, 8, &s, 0); printf("wg %zu\n", s);
  s3[0] = s3[1] = s3[2] = 0; clGetDeviceInfo(dev, 0x1005, 24, s3, 0); printf("wi %zu %zu %zu\n", s3[0], s3[1], s3[2]);
  struct C c; mk(&c, "kernel void k(global int *o, local char *l, constant char *d) { if (get_local_id(0) + get_local_id(1) + get_local_id(2) == 0) { l[0] = 1; o[0] = d[0]; } }", "", "k", 64);
  s = 0; clGetKernelWorkGroupInfo(c.k, dev, 0x11B0, 8, &s, 0); printf("kwg %zu\n", s);
  int e;
  void *cb = clCreateBuffer(c.ctx, 1, 4, 0, &e);
  for (int i = 2; i < argc;) {
   size_t g[3] = {1, 1, 1}, l = 4;
   void *d = cb;
   if (!strcmp(argv[i], "wg")) { for (int k = 0; k < 3; k++) g[k] = strtoul(argv[i + 1 + k], 0, 0); i += 4; }
   else if (!strcmp(argv[i], "local")) { l = strtoul(argv[i + 1], 0, 0); i += 2; }
   else { d = clCreateBuffer(c.ctx, 1, strtoul(argv[i + 1], 0, 0), 0, &e); if (e) printf("CB %d\n", e); i += 2; }
   e = clSetKernelArg(c.k, 1, l, 0); if (e) printf("SETL %d\n", e);
   e = clSetKernelArg(c.k, 2, 8, &d); if (e) printf("SETC %d\n", e);
   e = clEnqueueNDRangeKernel(c.q, c.k, 3, 0, g, g, 0, 0, 0); clFinish(c.q);
   printf("try %d\n", e);
   if (d != cb) clReleaseMemObject(d);
  }
  un(&c);
  return 0;
 }
 if (!strcmp(m, "run")) { /* run FILE KERNEL NINTS OPTIONS GX GY LX LY apierrors watch */
  first();
  struct C c; size_t n = strtoul(argv[4], 0, 0), g[2] = {atoi(argv[6]), atoi(argv[7])}, l[2] = {atoi(argv[8]), atoi(argv[9])};
  mk(&c, slurp(argv[2]), argv[5], argv[3], n * 4);
  int *o = calloc(n, 4), e = 0, base = 0; pthread_t t;
  for (int i = 0; i < atoi(argv[10]); i++) { int q; clCreateBuffer(c.ctx, 1, 0, 0, &q); }
  if (atoi(argv[11])) { pthread_create(&t, 0, watch, 0); usleep(20000); base = threads(); most = 0; }
  e = clEnqueueNDRangeKernel(c.q, c.k, 2, 0, g, l, 0, 0, 0); if (e) printf("ENQ %d\n", e);
  clFinish(c.q);
  if (atoi(argv[11])) { stop = 1; pthread_join(t, 0); printf("threads %d\n", most - base); }
  clEnqueueReadBuffer(c.q, c.b, 1, 0, n * 4, o, 0, 0, 0);
  printf("out"); for (size_t i = 0; i < n; i++) printf(" %d", o[i]); printf("\n");
  FILE *mp = fopen("/proc/self/maps", "r"); char line[4096]; int seen = 0; while (fgets(line, sizeof line, mp)) if (strstr(line, "libvmon")) seen = 1; fclose(mp);
  printf("vmon %d\n", seen); fflush(stdout);
  un(&c);
  return 0;
 }
 if (!strcmp(m, "warn")) { /* warn N M: N warnings (uninitialised values) and M errors */
  first();
  struct C c; size_t n = atoi(argv[2]), g; int im = atoi(argv[3]), in = n, e;
  mk(&c, "kernel void warn(global int *p, int n, int m)\n{\n  int i = get_global_id(0);\n  if (i < m) p[1000 + n + i] = i;\n  if (i < n)\n    if (p[i] == 12345)\n      p[i] = 4;\n}\n", "-cl-opt-disable", "warn", 16);
  void *u = clCreateBuffer(c.ctx, 1, n * 4 + 4, 0, &e); if (e) return 96;
  clSetKernelArg(c.k, 0, 8, &u); clSetKernelArg(c.k, 1, 4, &in); clSetKernelArg(c.k, 2, 4, &im);
  g = n > im ? n : im; g = g ? g : 1;
  e = clEnqueueNDRangeKernel(c.q, c.k, 1, 0, &g, 0, 0, 0, 0); clFinish(c.q);
  clReleaseMemObject(u); un(&c);
  printf("done\n");
  return 0;
 }
 if (!strcmp(m, "log")) { /* log MODE  then per context: KERNELNAME COUNT.. , : MODE s(equential) | p(arallel) contexts */
  first();
  struct C cs[8]; int nc = 0; const char *names[8]; int base[8];
  for (int i = 3; i < argc; nc++) {
   char src[600]; names[nc] = argv[i++]; base[nc] = 0;
   snprintf(src, sizeof src, "kernel void %s(global int *p, int base, int n)\n{\n  int i = get_global_id(0);\n  if (i < n)\n    p[1000 + base + i] = i;\n}\n", names[nc]);
   mk(&cs[nc], src, "", names[nc], 16);
   for (; i < argc && argv[i][0] != ','; i++) {
    int n = atoi(argv[i]); size_t g = n ? n : 1;
    if (m[3] == 0 && argv[2][0] == 'p') { /* round robin over the contexts that exist */
     for (int k = 0; k <= nc; k++) { clSetKernelArg(cs[k].k, 1, 4, &base[k]); clSetKernelArg(cs[k].k, 2, 4, &n); clEnqueueNDRangeKernel(cs[k].q, cs[k].k, 1, 0, &g, 0, 0, 0, 0); base[k] += n; }
     for (int k = 0; k <= nc; k++) clFinish(cs[k].q);
    } else { clSetKernelArg(cs[nc].k, 1, 4, &base[nc]); clSetKernelArg(cs[nc].k, 2, 4, &n); clEnqueueNDRangeKernel(cs[nc].q, cs[nc].k, 1, 0, &g, 0, 0, 0, 0); clFinish(cs[nc].q); base[nc] += n; }
   }
   i++;
   if (argv[2][0] == 's') un(&cs[nc]);
  }
  if (argv[2][0] == 'p') for (int k = 0; k < nc; k++) un(&cs[k]);
  printf("done\n");
  return 0;
 }
 return 98;
}
