// A small OpenMP runtime on plain pthreads, for use under ThreadSanitizer
// (libgomp's own futex synchronisation is invisible to the sanitizer).  It
// (this file itself is compiled without the sanitizer, so that its bookkeeping
// creates no ordering; only the pthread calls, which are intercepted, do)
//  - orders threads exactly as OpenMP promises (fork/join, barrier, critical,
//    locks) and no further: work-sharing bookkeeping uses relaxed atomics,
//  - perturbs the schedule with seeded random delays at every runtime call,
//  - reports barriers that some thread of the team never reaches,
//  - logs what it saw (threads, barriers, the order in which threads arrived).
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <mutex>
#include <string>
#include <vector>

namespace {

struct Spin {  // invisible to the sanitizer
  std::atomic_flag f = ATOMIC_FLAG_INIT;
  void lock() { while (f.test_and_set(std::memory_order_acquire)) sched_yield(); }
  void unlock() { f.clear(std::memory_order_release); }
};
using Guard = std::lock_guard<Spin>;
struct Loop {  // one dynamically scheduled work-sharing construct
  long next, end, incr, chunk;
  int left;
};
struct Team {
  int n = 1, level = 0, active = 0;
  pthread_mutex_t mu;
  Spin book;
  pthread_cond_t cv;
  int waiting = 0, finished = 0;
  long gen = 0;
  std::atomic<long> single{0};
  // work shares, by sequence number
  std::map<long, Loop> loops;
  void* copy = nullptr;
  long barriers = 0, singles = 0, criticals = 0;
  uint64_t order = 1469598103934665603ULL;
  Team() { pthread_mutex_init(&mu, nullptr); pthread_cond_init(&cv, nullptr); }
  ~Team() { pthread_mutex_destroy(&mu); pthread_cond_destroy(&cv); }
  void note(int what, int tid) { Guard g(book); order = (order ^ (uint64_t)(what * 64 + tid)) * 1099511628211ULL; }
};
struct Ctx {
  Team* team = nullptr;
  int tid = 0;
  long singles = 0, shares = 0;
  Ctx* up = nullptr;
};
thread_local Ctx* t_ctx = nullptr;
thread_local uint64_t t_rng = 0;
int g_threads = 0, g_dynamic = 0, g_levels = 1;

uint64_t seed_env() {
  static uint64_t s = [] {
    const char* e = getenv("VP_SCHED_SEED");
    return e ? strtoull(e, nullptr, 10) * 2654435761ULL + 1 : 0ULL;
  }();
  return s;
}
uint64_t rnd() {
  t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
  return t_rng;
}
void jitter() {
  if (!seed_env() || !t_ctx || !t_ctx->team || t_ctx->team->n == 1) return;
  uint64_t r = rnd();
  switch (r % 16) {
    case 0: { timespec ts{0, (long)(r >> 8) % 60000}; nanosleep(&ts, nullptr); break; }
    case 1: case 2: case 3: sched_yield(); break;
    case 4: for (volatile int i = 0; i < (int)((r >> 8) % 2000); ++i) {} break;
    default: break;
  }
}
[[noreturn]] void dead(Team* t, const char* what) {
  fprintf(stderr, "VP_OMP_DEADLOCK: %s (%d of %d threads wait at a barrier, %d left the parallel region)\n", what,
          t->waiting, t->n, t->finished);
  fflush(stderr);
  abort();
}
void barrier(Team* t, int tid) {
  if (t->n == 1) return;
  jitter();
  pthread_mutex_lock(&t->mu);
  t->note(1, tid);
  long g = t->gen;
  if (++t->waiting == t->n) {
    t->waiting = 0; ++t->gen; ++t->barriers;
    pthread_cond_broadcast(&t->cv);
  } else {
    if (t->finished) dead(t, "a thread waits at a barrier that others never reach");
    while (t->gen == g) pthread_cond_wait(&t->cv, &t->mu);
  }
  pthread_mutex_unlock(&t->mu);
  jitter();
}
struct Start { void (*fn)(void*); void* data; Ctx ctx; uint64_t rng; };
void leave(Team* t, int tid) {
  pthread_mutex_lock(&t->mu);
  ++t->finished;
  t->note(3, tid);
  if (t->waiting) dead(t, "a thread left the parallel region while others wait at a barrier");
  pthread_mutex_unlock(&t->mu);
}
void* body(void* p) {
  Start* s = (Start*)p;
  t_ctx = &s->ctx;
  t_rng = s->rng;
  jitter();
  s->fn(s->data);
  leave(s->ctx.team, s->ctx.tid);
  t_ctx = nullptr;
  return nullptr;
}
int max_threads() {
  if (g_threads > 0) return g_threads;
  const char* e = getenv("OMP_NUM_THREADS");
  int n = e ? atoi(e) : 0;
  return n > 0 ? n : 4;
}
void fork_join(void (*fn)(void*), void* data, unsigned want, const std::vector<Loop>& first = {}) {
  int active = 0;
  for (Ctx* c = t_ctx; c; c = c->up) active += c->team && c->team->n > 1;
  int n = want ? (int)want : max_threads();
  if (active >= g_levels && active > 0) n = 1;
  Team team;
  team.n = n;
  team.level = t_ctx && t_ctx->team ? t_ctx->team->level + 1 : 1;
  if (!first.empty()) { team.loops[0] = first[0]; team.loops[0].left = n; }
  std::vector<Start> st(n);
  std::vector<pthread_t> th(n);
  if (!t_rng) t_rng = seed_env() ^ 0x9E3779B97F4A7C15ULL;
  for (int i = 0; i < n; ++i) {
    st[i].fn = fn; st[i].data = data;
    st[i].ctx.team = &team; st[i].ctx.tid = i;
    st[i].ctx.up = i == 0 ? t_ctx : nullptr;
    st[i].rng = rnd() | 1;
  }
  // nested level accounting for workers
  static thread_local Ctx dummy;
  (void)dummy;
  for (int i = 1; i < n; ++i) {
    st[i].ctx.up = t_ctx;
    if (pthread_create(&th[i], nullptr, body, &st[i])) { perror("pthread_create"); abort(); }
  }
  Ctx* save = t_ctx;
  t_ctx = &st[0].ctx;
  jitter();
  fn(data);
  leave(&team, 0);
  t_ctx = save;
  for (int i = 1; i < n; ++i) pthread_join(th[i], nullptr);
  if (n > 1) {
    static const char* lg = getenv("VP_GOMP_LOG");
    if (lg) {
      FILE* f = fopen(lg, "a");
      if (f) {
        fprintf(f, "%d %ld %ld %ld %016llx\n", n, team.barriers, team.singles, team.criticals,
                (unsigned long long)team.order);
        fclose(f);
      }
    }
  }
}
Team* team() { return t_ctx ? t_ctx->team : nullptr; }
pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER, g_atomic = PTHREAD_MUTEX_INITIALIZER;
Spin g_names;
pthread_mutex_t* named(void** p) {
  static std::map<void**, pthread_mutex_t*> m;
  Guard g(g_names);
  auto& q = m[p];
  if (!q) { q = (pthread_mutex_t*)malloc(sizeof *q); pthread_mutex_init(q, nullptr); }
  return q;
}
void crit(pthread_mutex_t* m) {
  jitter();
  pthread_mutex_lock(m);
  if (Team* t = team()) {
    __atomic_add_fetch(&t->criticals, 1, __ATOMIC_RELAXED);
    t->note(2, t_ctx->tid);
  }
}
bool loop_next(long* a, long* b) {
  Team* t = team();
  jitter();
  if (!t) return false;
  t->book.lock();
  Loop& l = t->loops[t_ctx->shares - 1];
  bool ok = l.incr > 0 ? l.next < l.end : l.next > l.end;
  if (ok) {
    *a = l.next;
    long step = l.chunk * l.incr;
    *b = l.next + step;
    if (l.incr > 0 ? *b > l.end : *b < l.end) *b = l.end;
    l.next = *b;
  }
  t->book.unlock();
  if (ok) t->note(4, t_ctx->tid);
  return ok;
}
Team g_serial;
Ctx g_sctx;
bool loop_start(long s, long e, long i, long c, long* a, long* b) {
  if (!t_ctx) { g_sctx.team = &g_serial; t_ctx = &g_sctx; }
  Team* t = team();
  t->book.lock();
  long k = t_ctx->shares++;
  if (!t->loops.count(k)) t->loops[k] = Loop{s, e, i, c > 0 ? c : 1, t->n};
  t->book.unlock();
  return loop_next(a, b);
}
void loop_end() {
  Team* t = team();
  if (!t) return;
  t->book.lock();
  long k = t_ctx->shares - 1;
  if (--t->loops[k].left == 0) t->loops.erase(k);
  t->book.unlock();
}

}  // namespace

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { fork_join(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) {
  fork_join(fn, data, n);
  return n;
}
void GOMP_barrier(void) { if (Team* t = team()) barrier(t, t_ctx->tid); }
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
bool GOMP_single_start(void) {
  Team* t = team();
  if (!t || t->n == 1) return true;
  jitter();
  long mine = t_ctx->singles++;
  bool won = t->single.compare_exchange_strong(mine, mine + 1, std::memory_order_relaxed);
  if (won) {
    __atomic_add_fetch(&t->singles, 1, __ATOMIC_RELAXED);
    t->note(5, t_ctx->tid);
  }
  return won;
}
void* GOMP_single_copy_start(void) {
  Team* t = team();
  if (!t || t->n == 1) return nullptr;
  if (GOMP_single_start()) return nullptr;
  barrier(t, t_ctx->tid);
  void* p = t->copy;
  barrier(t, t_ctx->tid);
  return p;
}
void GOMP_single_copy_end(void* p) {
  Team* t = team();
  if (!t || t->n == 1) return;
  t->copy = p;
  barrier(t, t_ctx->tid);
  barrier(t, t_ctx->tid);
}
void GOMP_critical_start(void) { crit(&g_crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&g_crit); jitter(); }
void GOMP_critical_name_start(void** p) { crit(named(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(named(p)); jitter(); }
void GOMP_atomic_start(void) { jitter(); pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_atomic); }
void GOMP_ordered_start(void) { pthread_mutex_lock(&g_atomic); }
void GOMP_ordered_end(void) { pthread_mutex_unlock(&g_atomic); }

#define LOOPS(kind)                                                                                  \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) {                  \
    return loop_start(s, e, i, c, a, b); }                                                           \
  bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); }                         \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i,     \
                                 long c, unsigned) {                                                 \
    fork_join([](void* q) { auto* z = (std::pair<void (*)(void*), void*>*)q; t_ctx->shares = 1;      \
                            z->first(z->second); },                                                  \
              new std::pair<void (*)(void*), void*>(fn, d), n, {Loop{s, e, i, c > 0 ? c : 1, 0}}); }
LOOPS(static)
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
#define RLOOPS(kind)                                                                                 \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) {                          \
    return loop_start(s, e, i, 1, a, b); }                                                           \
  bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); }                         \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i,     \
                                 unsigned) {                                                         \
    fork_join([](void* q) { auto* z = (std::pair<void (*)(void*), void*>*)q; t_ctx->shares = 1;      \
                            z->first(z->second); },                                                  \
              new std::pair<void (*)(void*), void*>(fn, d), n, {Loop{s, e, i, 1, 0}}); }
RLOOPS(runtime)
RLOOPS(nonmonotonic_runtime)
RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { loop_end(); GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { loop_end(); }
unsigned GOMP_sections_start(unsigned c) {
  long a, b;
  return loop_start(1, (long)c + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_next(void) { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { loop_end(); GOMP_barrier(); }
void GOMP_sections_end_nowait(void) { loop_end(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) {
  fork_join([](void* q) { auto* z = (std::pair<void (*)(void*), void*>*)q; t_ctx->shares = 1; z->first(z->second); },
            new std::pair<void (*)(void*), void*>(fn, d), n, {Loop{1, (long)c + 1, 1, 1, 0}});
}
// tasks run at once by the thread that creates them
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int,
               void*) {
  if (cpy) {
    std::vector<char> buf(sz + al);
    char* p = (char*)(((uintptr_t)buf.data() + al - 1) & ~(uintptr_t)(al - 1));
    cpy(p, data);
    fn(p);
  } else {
    fn(data);
  }
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

int omp_get_thread_num(void) { return t_ctx ? t_ctx->tid : 0; }
int omp_get_num_threads(void) { return t_ctx && t_ctx->team ? t_ctx->team->n : 1; }
int omp_get_max_threads(void) { return max_threads(); }
void omp_set_num_threads(int n) { if (n > 0) g_threads = n; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return t_ctx && t_ctx->team && t_ctx->team->n > 1; }
void omp_set_dynamic(int d) { g_dynamic = d; }
int omp_get_dynamic(void) { return g_dynamic; }
void omp_set_nested(int x) { g_levels = x ? 1000 : 1; }
int omp_get_nested(void) { return g_levels > 1; }
void omp_set_max_active_levels(int n) { g_levels = n; }
int omp_get_max_active_levels(void) { return g_levels; }
int omp_get_level(void) { return t_ctx && t_ctx->team ? t_ctx->team->level : 0; }
int omp_get_thread_limit(void) { return 1 << 20; }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
struct omp_lock_t { pthread_mutex_t* m; };
void omp_init_lock(omp_lock_t* l) { l->m = new pthread_mutex_t; pthread_mutex_init(l->m, nullptr); }
void omp_destroy_lock(omp_lock_t* l) { pthread_mutex_destroy(l->m); delete l->m; }
void omp_set_lock(omp_lock_t* l) { jitter(); pthread_mutex_lock(l->m); }
void omp_unset_lock(omp_lock_t* l) { pthread_mutex_unlock(l->m); }
int omp_test_lock(omp_lock_t* l) { return pthread_mutex_trylock(l->m) == 0; }
}
