import os, sys
src, out = sys.argv[1:3]
t = open(src).read()
b = os.path.join(os.path.dirname(src), "opencl-c-base.h")
if os.path.exists(b):
    t = t.replace('#include "opencl-c-base.h"', open(b).read())
with open(out, "w") as f:
    f.write("extern const char OPENCL_C_H_DATA[] =\n")
    for line in t.split("\n"):
        f.write('"%s\\n"\n' % line.replace("\\", "\\\\").replace('"', '\\"'))
    f.write(";\n")
