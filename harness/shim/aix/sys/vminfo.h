/* Stand-in for the AIX accelerator API */
#ifndef SHIM_VMINFO_H
#define SHIM_VMINFO_H
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int accel_compress(void *in, size_t ilen, void *out, size_t *olen, int flags);
int accel_decompress(void *in, size_t ilen, void *out, size_t *olen, int flags);
#ifdef __cplusplus
}
#endif
#endif
