from mkseed import seed
seed("c04_next_group", "C04", "two worker threads taking a pending work-group at the same moment",
 "the fetch and the increment of the next group index are no longer one atomic step: a group can run twice or never",
 [("src/core/KernelInvocation.cpp", "unsigned index = nextGroupIndex++;", "unsigned index = nextGroupIndex;\n        nextGroupIndex = index + 1;")],
 demo_c=r"""
int main(void) {
  setenv("OCLGRIND_NUM_THREADS", "8", 1);
  init();
  cl_kernel k = kern("kernel void f(global int *c){ atomic_inc(c + get_global_id(0)); }", "", "f");
  static int c[4000]; cl_mem m = buf(sizeof c, c);
  clSetKernelArg(k, 0, sizeof m, &m);
  for (int r = 1; r <= 60; r++) {
    run1(k, 4000, 1);
    rd(m, sizeof c, c);
    for (int i = 0; i < 4000; i++) EXPECT(c[i] == r);
  }
  return 0;
}""")
seed("c07_map_rw", "C07", "a buffer mapped for reading and writing at once and read by a kernel meanwhile",
 "reads from a region mapped with CL_MAP_READ|CL_MAP_WRITE are not reported",
 [("src/plugins/MemCheck.cpp", "(flags == CL_MAP_READ ? MapRegion::READ : MapRegion::WRITE)", "(flags & CL_MAP_READ ? MapRegion::READ : MapRegion::WRITE)")],
 demo_c=r'''
int main(void) {
  char f[] = "log_out"; setenv("OCLGRIND_LOG", f, 1);
  init();
  cl_kernel k = kern("kernel void f(global int *a, global int *o){ *o = a[1]; }", "", "f");
  int z[4] = {1,2,3,4}; cl_mem m = buf(sizeof z, z), o = buf(4, z);
  clSetKernelArg(k, 0, sizeof m, &m); clSetKernelArg(k, 1, sizeof o, &o);
  cl_int e; void *p = clEnqueueMapBuffer(q, m, CL_TRUE, CL_MAP_READ | CL_MAP_WRITE, 0, 16, 0, NULL, NULL, &e); CK(e);
  run1(k, 1, 1);
  CK(clEnqueueUnmapMemObject(q, m, p, 0, NULL, NULL)); CK(clFinish(q));
  clReleaseMemObject(m); clReleaseMemObject(o); clReleaseKernel(k); clReleaseCommandQueue(q); clReleaseContext(ctx);
  FILE *h = fopen(f, "r"); char b[4096] = ""; fread(b, 1, 4095, h);
  EXPECT(strstr(b, "mapped for writing"));
  return 0;
}''')

seed("c12_host_slice", "C12", "a 3-D rectangular write whose host slice pitch is larger than rows times row pitch",
 "slices after the first are taken from the wrong host address",
 [("src/core/Queue.cpp", "z * cmd->host_offset[2];\n      size_t buff = cmd->address + cmd->buffer_offset[0] +\n                    y * cmd->buffer_offset[1] + z * cmd->buffer_offset[2];\n      memory->store",
   "z * cmd->region[1] * cmd->host_offset[1];\n      size_t buff = cmd->address + cmd->buffer_offset[0] +\n                    y * cmd->buffer_offset[1] + z * cmd->buffer_offset[2];\n      memory->store")],
 demo_c=r"""
int main(void) {
  init();
  unsigned char h[64], z[64] = {0}, r[64]; for (int i = 0; i < 64; i++) h[i] = i + 1;
  cl_mem m = buf(64, z);
  size_t bo[3] = {0,0,0}, ho[3] = {1,0,0}, rg[3] = {2,2,2};
  CK(clEnqueueWriteBufferRect(q, m, CL_TRUE, bo, ho, rg, 4, 16, 4, 20, h, 0, NULL, NULL));
  rd(m, 64, r);
  for (int zz = 0; zz < 2; zz++) for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++)
    EXPECT(r[zz * 16 + y * 4 + x] == h[1 + zz * 20 + y * 4 + x]);
  return 0;
}""")
