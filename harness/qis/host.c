/* Stand-in for the quantum runtime: runs a compiled program once for every sequence of measurement outcomes and writes down
   every call that it makes, one JSON array of events per run.  It decides nothing: the specification does. */
#include <dlfcn.h>
#include <setjmp.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

enum { RUNS = 128, EVENTS = 4000, CH = 64, FUT = 4096, BLK = 65536 };
static char choice[CH];
static int nch, pos, events, runs;
static long nq, nf, nb, nr;
static long futval[FUT];
static void *blk[BLK];
static size_t len[BLK];
static jmp_buf stop;

static void ev(const char *fmt) {
  if (++events > EVENTS) longjmp(stop, 3);
  printf("%s", events > 1 ? "," : "");
  (void)fmt;
}
#define EV(...) do { ev(""); printf(__VA_ARGS__); } while (0)
static int choose(void) {
  if (pos >= CH) longjmp(stop, 3);
  if (pos == nch) choice[nch++] = 0;
  return choice[pos++];
}
static void text(const unsigned char *p, size_t n) {
  putchar('"');
  for (size_t k = 0; k < n; k++) {
    if (p[k] == '"' || p[k] == '\\') { putchar('\\'); putchar(p[k]); }
    else if (p[k] < 32) printf("\\u%04x", p[k]);
    else putchar(p[k]);
  }
  putchar('"');
}
static void num(double x) { if (x != x) printf("\"nan\""); else if (x - x != 0) printf("\"inf\""); else printf("%.17g", x); }

void setup(uint64_t tc) { EV("[\"setup\",%lu]", tc); }
uint64_t teardown(void) { EV("[\"teardown\"]"); return 9; }
uint64_t ___qalloc(void) { nq++; EV("[\"qalloc\",%ld]", nq); return nq; }
void ___qfree(uint64_t q) { EV("[\"qfree\",%lu]", q); }
void ___reset(uint64_t q) { EV("[\"reset\",%lu]", q); }
void ___rz(uint64_t q, double a) { EV("[\"rz\",%lu,", q); num(a); printf("]"); }
void ___rxy(uint64_t q, double a, double b) { EV("[\"rxy\",%lu,", q); num(a); printf(","); num(b); printf("]"); }
void ___rzz(uint64_t p, uint64_t q, double a) { EV("[\"rzz\",%lu,%lu,", p, q); num(a); printf("]"); }
bool ___measure(uint64_t q) { int o = choose(); EV("[\"measure\",%lu,%d]", q, o); return o; }
static uint64_t lazy(const char *n, uint64_t q) {
  int o = choose();
  if (++nf >= FUT) longjmp(stop, 3);
  futval[nf] = o;
  EV("[\"%s\",%lu,%d,%ld]", n, q, o, nf);
  return nf;
}
uint64_t ___lazy_measure(uint64_t q) { return lazy("lazy_measure", q); }
uint64_t ___lazy_measure_leaked(uint64_t q) { return lazy("lazy_measure_leaked", q); }
static long val(uint64_t f) { return f < FUT ? futval[f] : 0; }
bool ___read_future_bool(uint64_t f) { EV("[\"read_bool\",%lu]", f); return val(f); }
uint64_t ___read_future_uint(uint64_t f) { EV("[\"read_uint\",%lu]", f); return val(f); }
void ___inc_future_refcount(uint64_t f) { EV("[\"inc\",%lu]", f); }
void ___dec_future_refcount(uint64_t f) { EV("[\"dec\",%lu]", f); }
void *heap_alloc(uint64_t n) {
  if (++nb >= BLK || n > (1 << 20)) longjmp(stop, 3);
  void *p = malloc(n + 16);
  memset(p, 0xa5, n + 16);
  blk[nb] = p;
  len[nb] = n;
  EV("[\"heap_alloc\",%ld]", nb);
  return p;
}
static void intact(long k) {
  for (int j = 0; j < 16; j++) if (((unsigned char *)blk[k])[len[k] + j] != 0xa5) EV("[\"heap_overflow\",%ld]", k);
}
void heap_free(void *p) {
  long k = nb;
  while (k > 0 && blk[k] != p) k--;
  EV("[\"heap_free\",%ld]", k);   /* memory is never reused, so that a second release or a later use is seen */
  if (k) { intact(k); memset(p, 0xdd, len[k]); }
}
/* draws are a fixed function of their number */
static long draw(void) { return (++nr * 37 + 11) % 100; }
void random_seed(uint64_t s) { draw(); EV("[\"random_seed\",%lu]", s); }
uint32_t random_int(void) { EV("[\"random_int\",0]"); return draw(); }
double random_float(void) { EV("[\"random_float\",0]"); return (2 * draw() + 1) / 128.0; }
uint32_t random_rng(uint32_t n) { EV("[\"random_rng\",%u]", n); return draw() % (n ? n : 1); }
void random_advance(uint64_t n) { draw(); EV("[\"random_advance\",%lu]", n); }
uint64_t get_current_shot(void) { return 5; }
/* strings start with their length */
static void tag(const unsigned char *s, uint64_t n) { if (s[0] == n) text(s + 1, n); else printf("\"?bad length\""); }
#define PR(...) do { ev(""); printf(__VA_ARGS__); tag(s, n); printf(","); } while (0)
void print_bool(const unsigned char *s, uint64_t n, uint8_t v) { PR("[\"print_bool\","); printf("%d]", v & 1); }
void print_int(const unsigned char *s, uint64_t n, int64_t v) { PR("[\"print_int\","); printf("%ld]", v); }
void print_uint(const unsigned char *s, uint64_t n, uint64_t v) { PR("[\"print_uint\","); printf("%lu]", v); }
void print_float(const unsigned char *s, uint64_t n, double v) { PR("[\"print_float\","); num(v); printf("]"); }
struct __attribute__((packed)) arr { int32_t x, y; void *data; unsigned char *mask; };
#define ARR(NAME, T, SHOW) void NAME(const unsigned char *s, uint64_t n, struct arr *a) { \
  PR("[\"" #NAME "\","); printf("["); \
  if (a->y != 1) printf("\"?rank\""); \
  for (int k = 0; k < a->x; k++) { T v = ((T *)a->data)[k]; if (k) printf(","); if (a->mask[k]) printf("\"?masked\""); else SHOW; } \
  printf("]]"); }
ARR(print_bool_arr, unsigned char, printf("%d", v & 1))
ARR(print_int_arr, int64_t, printf("%ld", v))
ARR(print_uint_arr, uint64_t, printf("%lu", v))
ARR(print_float_arr, double, num(v))
void panic(int32_t code, const unsigned char *m) { EV("[\"panic\",%d,", code); text(m + 1, m[0]); printf("]"); longjmp(stop, 1); }
void panic_str(int32_t code, const char *m) { EV("[\"panic_str\",%d,", code); text((const unsigned char *)m, strlen(m)); printf("]"); longjmp(stop, 1); }

/* The co-processor.  Contexts, calls and functions that are looked up have numbers, an answer is a fixed function of the
   number of its call; it can be told to fail at a request. */
enum { CTX = 256 };
static long nctx, ncall, nfn, pend[CTX], pkind[CTX];
static int gfail = -1, gcount;
static char gname[CTX][128];
static int gtick(void) { return gcount++ == gfail; }
bool gpu_validate_api(uint64_t a, uint64_t b, uint64_t c) { EV("[\"gpu_validate\",%lu,%lu,%lu]", a, b, c); return true; }
bool gpu_init(uint64_t s, uint64_t *out) { if (++nctx >= CTX) longjmp(stop, 3); EV("[\"gpu_init\",%lu,%ld]", s, nctx); *out = nctx; return !gtick(); }
bool gpu_discard(uint64_t c) { EV("[\"gpu_discard\",%lu]", c); return !gtick(); }
bool gpu_get_function_id(const char *name, uint64_t *out) {
  long k = 1;
  while (k <= nfn && strcmp(gname[k], name)) k++;
  if (k >= CTX) longjmp(stop, 3);
  if (k > nfn) { nfn = k; strncpy(gname[k], name, 127); }
  EV("[\"gpu_id\","); text((const unsigned char *)name, strlen(name)); printf(",%ld]", 1000 + k);
  *out = 1000 + k;
  return true;
}
bool gpu_call(uint64_t c, uint64_t fn, uint64_t size, const unsigned char *blob, const char *sig) {
  EV("[\"gpu_call\",%lu,%lu,", c, fn); text((const unsigned char *)sig, strlen(sig)); printf(",[");
  for (uint64_t k = 0; k < size; k++) printf(k ? ",%d" : "%d", blob[k]);
  printf("]]");
  ncall++;
  if (c < CTX) { pend[c] = ncall; pkind[c] = sig[strlen(sig) - 1]; }
  return !gtick();
}
bool gpu_get_result(uint64_t c, uint64_t size, unsigned char *out) {
  EV("[\"gpu_result\",%lu,%lu]", c, size);
  int64_t v = 100 + (c < CTX ? pend[c] : 0);
  double d = (2 * (v - 100) + 1) / 128.0;
  if (size == 8) memcpy(out, c < CTX && pkind[c] == 'f' ? (void *)&d : (void *)&v, 8);
  return !gtick();
}
const char *gpu_get_error(void) { EV("[\"gpu_error\"]"); return gfail % 3 == 2 ? NULL : "co-processor failed"; }

static uint64_t (*qmain)(uint64_t);
static void *h;
int main(int argc, char **argv) {
  if (argc > 2) gfail = atoi(argv[2]);
  alarm(20);
  volatile int how = 0;
  printf("[");
  do {
    pos = events = 0; nq = nf = nb = nr = nctx = ncall = nfn = 0; gcount = 0;
    memset(pend, 0, sizeof pend);
    /* loaded anew for every run, so that nothing is left over from the run before */
    h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    qmain = (uint64_t (*)(uint64_t))dlsym(h, "qmain");
    if (!qmain) { fprintf(stderr, "no qmain\n"); return 4; }
    printf("%s[", runs ? ",\n" : "");
    how = setjmp(stop);
    if (how == 0) { uint64_t tc = qmain(7); for (long k = 1; k <= nb; k++) intact(k); EV("[\"ret\",%lu]", tc); }
    printf("]");
    if (how == 3) { fflush(stdout); fprintf(stderr, "limit\n"); return 5; }
    for (long k = 1; k <= nb; k++) free(blk[k]);
    dlclose(h);
    while (nch > 0 && choice[nch - 1] == 1) nch--;
    if (nch == 0) break;
    choice[nch - 1] = 1;
  } while (++runs < RUNS);
  printf("]\n");
  fflush(stdout);
  if (runs == RUNS) { fprintf(stderr, "limit\n"); return 5; }
  return 0;
}
