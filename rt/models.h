#pragma once
#include <cstddef>
// Virtual files: an in-memory store when executed symbolically, a scratch directory when replayed natively.
extern "C" {
void vf_put(const char *path, const char *data, size_t n);
void vf_mkdir(const char *path);
size_t vf_get(const char *path, char *out, size_t cap); // size, or -1 when it does not exist
bool vf_exists(const char *path);
void vf_remove(const char *path);
size_t vf_count(void);
const char *vf_name(size_t k);
const char *vf_root(void);
void vf_limit_writes(int bytes);
}
