// Stand-in for kuba--/zip (the submodule is empty in this sandbox). Only what
// fairseq2n's zip data source needs to compile; every call reports failure.
#pragma once
#include <cstddef>
#include <stdexcept>
#include <sys/types.h>
struct zip_t;
#define ZIP_DEFAULT_COMPRESSION_LEVEL 6
inline zip_t *zip_open(const char *, int, char) { throw std::runtime_error{"zip is not available"}; }
inline ssize_t zip_entries_total(zip_t *) { return 0; }
inline int zip_entry_openbyindex(zip_t *, size_t) { return -1; }
inline unsigned long long zip_entry_size(zip_t *) { return 0; }
inline ssize_t zip_entry_noallocread(zip_t *, void *, size_t) { return -1; }
inline int zip_entry_close(zip_t *) { return 0; }
