// Only in the coverage build (make COV=1): the counters of a run's process are added to the worker's.
#include <cstdint>
#include <sys/mman.h>
#include <unistd.h>
extern "C" { uint64_t *__llvm_profile_begin_counters(); uint64_t *__llvm_profile_end_counters(); int __llvm_profile_write_file(); }
static uint64_t *shared;
void rt_cov_init() { size_t n = (size_t)((char *)__llvm_profile_end_counters() - (char *)__llvm_profile_begin_counters()); shared = (uint64_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
void rt_cov_end() { uint64_t *b = __llvm_profile_begin_counters(); size_t n = (size_t)(__llvm_profile_end_counters() - b); for (size_t i = 0; i < n; ++i) shared[i] += b[i]; }
void rt_cov_flush() { uint64_t *b = __llvm_profile_begin_counters(); size_t n = (size_t)(__llvm_profile_end_counters() - b); for (size_t i = 0; i < n; ++i) b[i] = shared[i]; __llvm_profile_write_file(); }
