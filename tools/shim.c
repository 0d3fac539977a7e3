// LD_PRELOAD shim of the P14 child processes: everything outside the arguments a function could look at
// (environment, clock, random source, process id, number of processors) answers differently in every child.
// A pure function cannot notice.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
static unsigned long seed; static int ready; static unsigned long n_env, n_clock, n_rand, n_cpu, n_pid;
static char *(*real_getenv)(const char *); static int (*real_clock)(clockid_t, struct timespec *); static int (*real_aff)(pid_t, size_t, cpu_set_t *); static long (*real_sysconf)(int);
static unsigned long mix(unsigned long z) { z += 0x9e3779b97f4a7c15UL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebUL; return z ^ (z >> 31); }
__attribute__((constructor)) static void init(void) {
    real_getenv = dlsym(RTLD_NEXT, "getenv"); real_clock = dlsym(RTLD_NEXT, "clock_gettime"); real_aff = dlsym(RTLD_NEXT, "sched_getaffinity"); real_sysconf = dlsym(RTLD_NEXT, "sysconf");
    const char *s = real_getenv("RV_SHIM"); seed = s ? strtoul(s, 0, 10) : 0; ready = seed != 0;
}
__attribute__((destructor)) static void fini(void) { if (ready) fprintf(stderr, "shim %lu getenv %lu clock %lu random %lu cpus %lu pid %lu\n", seed, n_env, n_clock, n_rand, n_cpu, n_pid); }
char *getenv(const char *n) {
    if (!real_getenv) real_getenv = dlsym(RTLD_NEXT, "getenv");
    if (!ready || !strncmp(n, "RUST", 4) || !strncmp(n, "LD_", 3) || !strncmp(n, "RV_", 3) || !strncmp(n, "MALLOC", 6) || !strncmp(n, "LLVM", 4)) return real_getenv(n);
    static char *v[] = {0, "1", "0", "true", "false", "", "1000", "fast", "/"};
    unsigned long h = seed; for (const char *c = n; *c; c++) h = mix(h ^ (unsigned char)*c);
    n_env++; return v[h % 9];
}
int clock_gettime(clockid_t id, struct timespec *t) {
    if (!real_clock) real_clock = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real_clock(id, t); if (ready && !r) { n_clock++; t->tv_sec += (mix(seed) % 100000000) - (id == CLOCK_REALTIME ? 50000000 : 0); } return r;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int gettimeofday(struct timeval *v, void *z) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
static void fill(unsigned char *b, size_t n) { static unsigned long k; n_rand++; for (size_t i = 0; i < n; i++) b[i] = mix(seed * 1000003 + k++) >> 24; }
ssize_t getrandom(void *b, size_t n, unsigned f) { (void)f; fill(b, n); return n; }
int getentropy(void *b, size_t n) { fill(b, n); return 0; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) { int r = real_aff(p, n, m); if (ready && r >= 0 && seed % 2) { n_cpu++; CPU_ZERO_S(n, m); CPU_SET_S(0, n, m); } return r; }
long sysconf(int k) { if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf"); if (ready && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) { n_cpu++; return 1 + seed % 97; } return real_sysconf(k); }
pid_t getpid(void) { n_pid++; return ready ? 2 + mix(seed) % 30000 : (pid_t)syscall(39); }
