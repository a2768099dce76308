// Native side of the harness interface: replays input vectors against the real, natively compiled code.
// usage: bin run v1 v2 ...      one vector; prints "HASH <hex>" at the end; violations exit with 10 and a message
//        bin batch FILE         lines "hash v1 v2 ..."; every vector in a child process; prints mismatches
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <exception>
#include <new>
static uint32_t* in; static size_t nin, pos; static uint64_t h = 1469598103934665603ull; static uint32_t live; static bool verbose, batch; static uint32_t stopAt = ~0u, ncheck; static uint64_t want; static bool haveWant;
static void mix(uint32_t x) { for (int i = 0; i < 4; i++) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ull; } }
static void bad(const char* k, const char* m) { fflush(stdout); fprintf(stderr, "VF-VIOLATION %s: %s\n", k, m); fflush(stderr); _exit(10); }
extern "C" {
uint32_t vf_next_input(uint32_t lo, uint32_t hi) { if (pos >= nin) return lo; uint32_t v = in[pos++]; if (v < lo || v > hi) { fprintf(stderr, "VF-DIVERGED input %u out of range\n", v); _exit(11); } return v; }
uint32_t vf_sym(uint32_t lo, uint32_t hi) { if (lo == hi) return lo; return vf_next_input(lo, hi); }
uint32_t vf_choice(uint32_t n) { if (n <= 1) return 0; return vf_next_input(0, n - 1); }
uint32_t vf_concrete(uint32_t v) { return v; }
void vf_assume(int c) { if (!c) { fprintf(stderr, "VF-PRUNED\n"); _exit(12); } }
void vf_assert_(int c, const char* m) { if (!c) bad("property", m); }
void vf_fail(const char* m) { bad("property", m); abort(); }
void vf_log(uint32_t t, uint32_t v) { if (verbose) printf("log %x %u\n", t, v); mix(t); mix(v); }
void vf_reach(uint32_t) {} void vf_state(uint64_t) {} void vf_step(void) {}
void vf_trace(const char* s, uint64_t v) { if (verbose) printf("trace %s %llu\n", s, (unsigned long long)v); }
// heap with kind and size checks on top of malloc
struct Blk { void* p; size_t n; int k; Blk* next; }; static Blk* tab[1024];
#ifdef VF_REUSE // a new block takes the address of the last released one of its size
struct Freed { size_t n; void* p; Freed* next; }; static Freed* freed; static void* take(size_t n) { for (Freed** q = &freed; *q; q = &(*q)->next) if ((*q)->n == n) { Freed* f = *q; void* p = f->p; *q = f->next; free(f); return p; } return malloc(n ? n : 1); } static void give(void* p, size_t n) { freed = new (malloc(sizeof(Freed))) Freed{n, p, freed}; }
#else
static void* take(size_t n) { return malloc(n ? n : 1); } static void give(void* p, size_t) { free(p); }
#endif
void* vf_alloc(size_t n, int k) { void* p = take(n); if (!p) abort(); memset(p, 0xA5, n); Blk* b = (Blk*)malloc(sizeof(Blk)); size_t i = ((size_t)p >> 4) & 1023; b->p = p; b->n = n; b->k = k; b->next = tab[i]; tab[i] = b; live++; return p; }
void vf_dealloc(void* p, size_t n, int k) { if (!p) return; size_t i = ((size_t)p >> 4) & 1023; for (Blk** q = &tab[i]; *q; q = &(*q)->next) if ((*q)->p == p) { Blk* b = *q; if (b->k != k) bad("alloc-dealloc-mismatch", "wrong kind of deallocation"); if (n != (size_t)-1 && n != b->n) bad("sized-delete-mismatch", "wrong size in deallocation"); *q = b->next; size_t sz = b->n; free(b); give(p, sz); live--; return; } 
#ifdef VF_STRICT_FREE
  free(p);
#else
  bad("bad-free", "free of a block that is not allocated");
#endif
}
uint32_t vf_live(void) { return live; }
int vf_is_engine(void) { return 0; }
[[noreturn]] static void finish() {
  int r = 0; fflush(stdout);
  if (pos != nin) { fprintf(stderr, "VF-DIVERGED %zu of %zu inputs used\n", pos, nin); r = 11; }
  else if (haveWant && h != want) { fprintf(stderr, "VF-DIVERGED hash %llx want %llx\n", (unsigned long long)h, (unsigned long long)want); r = 11; }
  if (!batch) printf("HASH %llx\n", (unsigned long long)h); fflush(stdout); fflush(stderr); _exit(r); }
void vf_checkpoint(void) { if (batch ? ncheck == stopAt : (pos >= nin && ncheck > 0)) finish(); ncheck++; }
void vf_end(void) { finish(); }
void vf_merge(void) {}
}
#ifndef VF_THREADS
extern "C" { uint32_t vf_thread(void (*)(void*), void*) { abort(); } void vf_join(uint32_t) { abort(); } void vf_yield(void) {} void vf_threads_begin(void) {} }
#else
extern "C" void vf_threads_begin(void);
#endif
[[noreturn]] static void runVec(std::vector<uint32_t>& v) { in = v.data(); nin = v.size(); pos = 0; std::set_terminate([] { bad("terminate", "std::terminate"); }); vf_threads_begin(); live = 0; try { vf_main(); } catch (...) { bad("uncaught-exception", "exception leaves vf_main"); } finish(); }
int main(int argc, char** argv) {
  if (argc < 2) return 2; std::string m = argv[1];
  if (m == "run") { verbose = getenv("VF_VERBOSE") != nullptr; std::vector<uint32_t> v; for (int i = 2; i < argc; i++) v.push_back((uint32_t)strtoul(argv[i], 0, 10)); alarm(60); runVec(v); }
  FILE* f = fopen(argv[2], "r"); if (!f) return 2; char* line = 0; size_t cap = 0; unsigned n = 0, ok = 0;
  while (getline(&line, &cap, f) > 0) {
    char* p = line; want = strtoull(p, &p, 16); haveWant = batch = true; stopAt = (uint32_t)strtoul(p, &p, 10); std::vector<uint32_t> v; for (;;) { while (*p == ' ') p++; if (*p < '0' || *p > '9') break; v.push_back((uint32_t)strtoul(p, &p, 10)); }
    n++; fflush(stdout); pid_t pid = fork(); if (pid == 0) { alarm(60); runVec(v); }
    int st; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) ok++; else printf("MISMATCH status=%d line=%s", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), line); }
  printf("BATCH %u %u\n", n, ok); fflush(stdout); _exit(n == ok ? 0 : 1);
}
