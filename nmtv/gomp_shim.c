/* A small OpenMP runtime (the GOMP ABI that gcc emits) on plain pthreads.
 *
 * Why: (1) libgomp is not instrumented, so ThreadSanitizer does not see its
 * barriers and reports false races; here every synchronisation goes through
 * intercepted pthread calls.  (2) It lets a check choose the thread count and
 * perturb the schedule (seeded): order in which team members start, which
 * chunk of a dynamic loop a thread gets, delays before criticals, barriers,
 * chunk requests.  (3) It counts what it saw (regions, chunks, criticals,
 * a hash of the observed order), which is the evidence of a run.
 */
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sched.h>

typedef struct ws {
  int id, init, done_single;
  long next, end, incr, chunk;
  long nchunks, given, *order;   /* order: permutation of chunks */
  unsigned long long unext, uend, uincr;
  struct ws *nxt;
} ws_t;

typedef struct team {
  int n;
  void (*fn)(void *);
  void *data;
  pthread_barrier_t bar;
  pthread_mutex_t mx;
  ws_t *wss;
  void *copyprivate;
} team_t;

typedef struct { team_t *team; int tid; int wsid; ws_t *cur; uint64_t rng; } self_t;
static __thread self_t self = {0, 0, 0, 0, 0};

static int g_threads = 0;
static uint64_t g_seed = 0;
static int g_delay = 0;
static int g_perm = 0;
static pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t g_atom = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t g_stat = PTHREAD_MUTEX_INITIALIZER;
static uint64_t st_regions, st_threads, st_crit, st_chunks, st_barr, st_hash;

static void conf(void)
{
  if(g_threads) return;
  const char *s = getenv("NMTV_OMP_THREADS");
  if(!s) s = getenv("OMP_NUM_THREADS");
  g_threads = s ? atoi(s) : 4;
  if(g_threads < 1) g_threads = 1;
  s = getenv("NMTV_OMP_SEED"); g_seed = s ? strtoull(s, 0, 10) : 0;
  s = getenv("NMTV_OMP_DELAY"); g_delay = s ? atoi(s) : 0;
  s = getenv("NMTV_OMP_PERM"); g_perm = s ? atoi(s) : 0;
}

/* Control from the harness (ctypes) */
void nmtv_omp_config(int threads, unsigned long long seed, int delay, int perm)
{ g_threads = threads < 1 ? 1 : threads; g_seed = seed; g_delay = delay; g_perm = perm; }
void nmtv_omp_stats(unsigned long long *o)
{
  pthread_mutex_lock(&g_stat);
  o[0] = st_regions; o[1] = st_threads; o[2] = st_crit; o[3] = st_chunks;
  o[4] = st_barr; o[5] = st_hash;
  pthread_mutex_unlock(&g_stat);
}
void nmtv_omp_reset(void)
{
  pthread_mutex_lock(&g_stat);
  st_regions = st_threads = st_crit = st_chunks = st_barr = st_hash = 0;
  pthread_mutex_unlock(&g_stat);
}

/* Distinct parallel regions entered (address of the outlined function) */
#define MAXREG 512
static void *reg_fn[MAXREG]; static int reg_nt[MAXREG]; static int nreg = 0;
static void seen_region(void *f, int n)   /* under g_stat */
{
  int i;
  for(i = 0; i < nreg && reg_fn[i] != f; i++) ;
  if(i == nreg) { if(nreg == MAXREG) return; reg_fn[nreg] = f; reg_nt[nreg++] = 0; }
  if(n > reg_nt[i]) reg_nt[i] = n;
}
int nmtv_omp_regions(void **fn, int *nt, int max)
{
  int i;
  pthread_mutex_lock(&g_stat);
  for(i = 0; i < nreg && i < max; i++) { fn[i] = reg_fn[i]; nt[i] = reg_nt[i]; }
  pthread_mutex_unlock(&g_stat);
  return i;
}

static uint64_t mix(uint64_t x)
{ x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; return x ^ (x >> 33); }
static uint64_t rnd(void) { self.rng = self.rng * 6364136223846793005ULL + 1442695040888963407ULL; return mix(self.rng); }
static void hash_ev(int kind, long what)
{
  pthread_mutex_lock(&g_stat);
  st_hash = mix(st_hash * 31 + (uint64_t)kind * 1000003 + (uint64_t)self.tid * 101 + (uint64_t)what);
  if(kind == 1) st_crit++;
  if(kind == 2) st_chunks++;
  if(kind == 3) st_barr++;
  pthread_mutex_unlock(&g_stat);
}
static void jitter(void)
{
  if(g_delay <= 0) return;
  uint64_t r = rnd();
  if((r & 3) == 0) sched_yield();
  else if((r & 3) == 1) {
    struct timespec t = {0, (long)((r >> 8) % (uint64_t)g_delay) * 1000};
    nanosleep(&t, 0);
  }
}

typedef struct { team_t *t; int tid; } start_t;
static void run_member(team_t *t, int tid)
{
  self_t old = self;
  self.team = t; self.tid = tid; self.wsid = 0; self.cur = 0;
  self.rng = mix(g_seed * 977 + (uint64_t)tid + st_regions * 7919);
  jitter();
  t->fn(t->data);
  self = old;
}
static void *member(void *p) { start_t s = *(start_t *)p; run_member(s.t, s.tid); return 0; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags)
{
  (void)flags;
  conf();
  int n = num_threads ? (int)num_threads : g_threads;
  if(self.team && self.team->n > 1) n = 1; /* no nesting */
  team_t t; memset(&t, 0, sizeof(t));
  t.n = n; t.fn = fn; t.data = data;
  pthread_mutex_init(&t.mx, 0);
  pthread_barrier_init(&t.bar, 0, (unsigned)n);
  pthread_mutex_lock(&g_stat); st_regions++; st_threads += (uint64_t)n; seen_region((void *)fn, n); pthread_mutex_unlock(&g_stat);
  pthread_t *th = malloc(sizeof(pthread_t) * (size_t)n);
  start_t *st = malloc(sizeof(start_t) * (size_t)n);
  /* With g_perm, thread numbers are handed out in a seeded order: the calling
     thread is not always number 0 for work distribution purposes only if the
     code never relies on the master being 0, so keep 0 with the caller. */
  int i, rot = g_perm ? (int)(mix(g_seed + st_regions) % (uint64_t)(n > 1 ? n - 1 : 1)) : 0;
  for(i = 1; i < n; i++) {
    int tid = 1 + (i - 1 + rot) % (n - 1);
    st[i].t = &t; st[i].tid = tid;
    pthread_create(&th[i], 0, member, &st[i]);
  }
  run_member(&t, 0);
  for(i = 1; i < n; i++) pthread_join(th[i], 0);
  free(th); free(st);
  while(t.wss) { ws_t *w = t.wss; t.wss = w->nxt; free(w->order); free(w); }
  pthread_barrier_destroy(&t.bar);
  pthread_mutex_destroy(&t.mx);
}

int omp_get_thread_num(void) { return self.team ? self.tid : 0; }
int omp_get_num_threads(void) { return self.team ? self.team->n : 1; }
int omp_get_max_threads(void) { conf(); return g_threads; }
int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel(void) { return self.team && self.team->n > 1; }
int omp_get_level(void) { return self.team ? 1 : 0; }
int omp_get_thread_limit(void) { return 1024; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
void omp_set_num_threads(int n) { conf(); g_threads = n < 1 ? 1 : n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
typedef struct { pthread_mutex_t *m; } shim_lock_t;
void omp_init_lock(shim_lock_t *l) { l->m = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(l->m, 0); }
void omp_destroy_lock(shim_lock_t *l) { pthread_mutex_destroy(l->m); free(l->m); }
void omp_set_lock(shim_lock_t *l) { jitter(); pthread_mutex_lock(l->m); }
void omp_unset_lock(shim_lock_t *l) { pthread_mutex_unlock(l->m); }
int omp_test_lock(shim_lock_t *l) { return pthread_mutex_trylock(l->m) == 0; }

void GOMP_barrier(void)
{
  if(!self.team) return;
  jitter();
  hash_ev(3, 0);
  pthread_barrier_wait(&self.team->bar);
}
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
bool GOMP_cancellation_point(int w) { (void)w; return false; }
bool GOMP_cancel(int w, bool d) { (void)w; (void)d; return false; }
void GOMP_critical_start(void) { jitter(); pthread_mutex_lock(&g_crit); hash_ev(1, 0); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&g_crit); }
static pthread_mutex_t g_named = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_name_start(void **p)
{
  pthread_mutex_lock(&g_named);
  if(!*p) { pthread_mutex_t *m = malloc(sizeof(*m)); pthread_mutex_init(m, 0); *p = m; }
  pthread_mutex_t *m = *p;
  pthread_mutex_unlock(&g_named);
  jitter();
  pthread_mutex_lock(m);
  hash_ev(1, 1);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)*p); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&g_atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_atom); }

static ws_t *enter_ws(void)
{
  team_t *t = self.team;
  int id = self.wsid++;
  ws_t *w;
  for(w = t->wss; w; w = w->nxt) if(w->id == id) return w;
  w = calloc(1, sizeof(ws_t)); w->id = id; w->nxt = t->wss; t->wss = w;
  return w;
}
bool GOMP_single_start(void)
{
  if(!self.team) return true;
  jitter();
  pthread_mutex_lock(&self.team->mx);
  ws_t *w = enter_ws();
  bool first = !w->done_single; w->done_single = 1;
  pthread_mutex_unlock(&self.team->mx);
  return first;
}
void *GOMP_single_copy_start(void)
{
  if(!self.team) return 0;
  if(GOMP_single_start()) return 0;
  pthread_barrier_wait(&self.team->bar);
  return self.team->copyprivate;
}
void GOMP_single_copy_end(void *d)
{ if(!self.team) return; self.team->copyprivate = d; pthread_barrier_wait(&self.team->bar); }

/* ---- work-shared loops handed out chunk by chunk ---- */
static team_t g_solo; static pthread_once_t g_solo_once = PTHREAD_ONCE_INIT;
static void solo_init(void) { g_solo.n = 1; pthread_mutex_init(&g_solo.mx, 0); pthread_barrier_init(&g_solo.bar, 0, 1); }
static bool next_chunk(long *is, long *ie)
{
  ws_t *w = self.cur; bool ok = false; long c = -1;
  jitter();
  pthread_mutex_lock(&self.team->mx);
  if(w->given < w->nchunks) {
    c = w->order ? w->order[w->given] : w->given;
    w->given++;
    ok = true;
  }
  pthread_mutex_unlock(&self.team->mx);
  if(ok) {
    hash_ev(2, c);
    *is = w->next + c * w->chunk * w->incr;
    *ie = *is + w->chunk * w->incr;
    if((w->incr > 0 && *ie > w->end) || (w->incr < 0 && *ie < w->end)) *ie = w->end;
  }
  return ok;
}
static bool loop_start(long s, long e, long inc, long chunk, long *is, long *ie)
{
  if(!self.team) { pthread_once(&g_solo_once, solo_init); self.team = &g_solo; self.tid = 0; }
  pthread_mutex_lock(&self.team->mx);
  ws_t *w = enter_ws();
  if(!w->init) {
    long n = inc > 0 ? (e - s + inc - 1) / inc : (s - e - inc - 1) / (-inc);
    if(n < 0) n = 0;
    if(chunk < 1) chunk = 1;
    w->init = 1; w->next = s; w->end = e; w->incr = inc; w->chunk = chunk;
    w->nchunks = (n + chunk - 1) / chunk; w->given = 0;
    if(g_perm && w->nchunks > 1) {
      w->order = malloc(sizeof(long) * (size_t)w->nchunks);
      for(long i = 0; i < w->nchunks; i++) w->order[i] = i;
      uint64_t r = mix(g_seed + 13 * (uint64_t)w->nchunks + st_regions);
      for(long i = w->nchunks - 1; i > 0; i--) {
        r = mix(r + (uint64_t)i);
        long j = (long)(r % (uint64_t)(i + 1));
        long x = w->order[i]; w->order[i] = w->order[j]; w->order[j] = x;
      }
    }
  }
  self.cur = w;
  pthread_mutex_unlock(&self.team->mx);
  return next_chunk(is, ie);
}
#define LOOPS(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie); } \
bool GOMP_loop_##NAME##_next(long *is, long *ie) { return next_chunk(is, ie); }
LOOPS(dynamic) LOOPS(nonmonotonic_dynamic) LOOPS(guided) LOOPS(nonmonotonic_guided) LOOPS(static)
#define LOOPR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie); } \
bool GOMP_loop_##NAME##_next(long *is, long *ie) { return next_chunk(is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
/* sections */
unsigned GOMP_sections_start(unsigned n)
{
  long a, b;
  return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_next(void) { long a, b; return next_chunk(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
