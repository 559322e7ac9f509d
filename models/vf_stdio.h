#ifndef VF_STDIO_H
#define VF_STDIO_H
#include <stdio.h>
#ifndef VF_OUT_SIZE
#define VF_OUT_SIZE 1400
#endif
extern char vf_out[VF_OUT_SIZE];
extern gsize vf_out_len;
extern FILE* vf_out_file;
extern const char* vf_fmt_ptr[2];
extern gsize vf_fmt_len[2];
#endif
