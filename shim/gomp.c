/* A small OpenMP runtime (the GOMP_* entry points gcc emits for parallel regions and work-shared loops) on plain
   pthreads.  Compiled with the sanitizer flags of the build, it lets ThreadSanitizer see the fork, the join and every
   synchronisation of a region, which the system's uninstrumented libgomp hides.
   VP_THREADS  team size (read at every region);  VP_JITTER  nonzero: random delay before each chunk and region body */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <sched.h>

#define MAXT 64
typedef struct {
    int n;
    pthread_mutex_t lock;
    pthread_cond_t cond;
    int arrived, phase;
    long next, end, incr, chunk;
    int inited, done, singles;
    unsigned long jitter;
} team_t;

typedef struct { team_t *team; int id; void (*fn)(void *); void *data; long left; int loop_no, single_no; unsigned long seed; } worker_t;

static __thread worker_t *me;
static pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER, atomics = PTHREAD_MUTEX_INITIALIZER;
static int forced;
static unsigned long regions;

static int team_size(unsigned asked) {
    const char *s;
    int n = forced;
    if (!n && (s = getenv("VP_THREADS"))) n = atoi(s);
    if (!n && (s = getenv("OMP_NUM_THREADS"))) n = atoi(s);
    if (asked) n = asked;
    if (n < 1) n = 4;
    return n > MAXT ? MAXT : n;
}

static void jitter(void) {
    if (!me || !me->team->jitter) return;
    me->seed = me->seed * 6364136223846793005UL + 1442695040888963407UL;
    unsigned long r = (me->seed >> 33) % 8;
    if (r < 3) sched_yield();
    else if (r < 5) { struct timespec t = {0, (long)(r * 40000)}; nanosleep(&t, 0); }
}

int omp_get_num_threads(void) { return me ? me->team->n : 1; }
int omp_get_thread_num(void) { return me ? me->id : 0; }
int omp_get_max_threads(void) { return team_size(0); }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return me != 0; }
int omp_get_level(void) { return me != 0; }
void omp_set_num_threads(int n) { forced = n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void *run(void *arg) {
    me = arg;
    jitter();
    me->fn(me->data);
    me = 0;
    return 0;
}

static void team_run(team_t *t, void (*fn)(void *), void *data, unsigned asked) {
    worker_t w[MAXT], *outer = me;
    pthread_t th[MAXT];
    const char *s = getenv("VP_JITTER");
    t->n = outer ? 1 : team_size(asked);
    pthread_mutex_init(&t->lock, 0);
    pthread_cond_init(&t->cond, 0);
    t->arrived = t->phase = t->singles = 0;
    t->jitter = s ? strtoul(s, 0, 10) : 0;
    unsigned long salt = __sync_add_and_fetch(&regions, 1) * 7919 + t->jitter * 104729;
    for (int i = 0; i < t->n; ++i)
        w[i] = (worker_t){.team = t, .id = i, .fn = fn, .data = data, .seed = salt + 31337 * i};
    for (int i = 1; i < t->n; ++i)
        if (pthread_create(&th[i], 0, run, &w[i])) { perror("gomp: pthread_create"); abort(); }
    run(&w[0]);
    for (int i = 1; i < t->n; ++i) pthread_join(th[i], 0);
    me = outer;
    pthread_mutex_destroy(&t->lock);
    pthread_cond_destroy(&t->cond);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    (void)flags;
    team_t t = {0};
    team_run(&t, fn, data, n);
}

void GOMP_barrier(void) {
    if (!me || me->team->n == 1) return;
    team_t *t = me->team;
    pthread_mutex_lock(&t->lock);
    int ph = t->phase;
    if (++t->arrived == t->n) { t->arrived = 0; t->phase++; pthread_cond_broadcast(&t->cond); }
    else while (ph == t->phase) pthread_cond_wait(&t->cond, &t->lock);
    pthread_mutex_unlock(&t->lock);
}

void GOMP_critical_start(void) { pthread_mutex_lock(&critical); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&critical); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&critical); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&critical); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atomics); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atomics); }

bool GOMP_single_start(void) {
    if (!me) return true;
    team_t *t = me->team;
    pthread_mutex_lock(&t->lock);
    bool mine = t->singles == me->single_no;
    if (mine) t->singles++;
    me->single_no++;
    pthread_mutex_unlock(&t->lock);
    return mine;
}

/* ---- dynamically scheduled loops (dynamic, guided and runtime schedules alike: chunks from a shared counter) */
static team_t *cur(void) { static team_t solo = {.n = 1, .lock = PTHREAD_MUTEX_INITIALIZER}; return me ? me->team : &solo; }

static bool next_chunk(long *a, long *b) {
    team_t *t = cur();
    jitter();
    pthread_mutex_lock(&t->lock);
    bool more = t->incr > 0 ? t->next < t->end : t->next > t->end;
    if (more) {
        *a = t->next;
        t->next += t->chunk * t->incr;
        if (t->incr > 0 ? t->next > t->end : t->next < t->end) t->next = t->end;
        *b = t->next;
    }
    pthread_mutex_unlock(&t->lock);
    return more;
}

static void loop_init(team_t *t, long start, long end, long incr, long chunk) {
    t->next = start; t->end = end; t->incr = incr; t->chunk = chunk < 1 ? 1 : chunk;
}

static bool loop_start(long start, long end, long incr, long chunk, long *a, long *b) {
    team_t *t = cur();
    pthread_mutex_lock(&t->lock);
    if (!me || t->inited == me->loop_no) { loop_init(t, start, end, incr, chunk); t->inited++; }
    if (me) me->loop_no++;
    pthread_mutex_unlock(&t->lock);
    return next_chunk(a, b);
}

#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
    bool GOMP_loop_##kind##_next(long *a, long *b) { return next_chunk(a, b); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { \
        (void)f; team_t t = {0}; loop_init(&t, s, e, i, c); team_run(&t, fn, d, n); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#define LOOPR(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); } \
    bool GOMP_loop_##kind##_next(long *a, long *b) { return next_chunk(a, b); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { \
        (void)f; team_t t = {0}; loop_init(&t, s, e, i, 1); team_run(&t, fn, d, n); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
#define LOOPU(kind) \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { \
        (void)up; return loop_start((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); } \
    bool GOMP_loop_ull_##kind##_next(unsigned long long *a, unsigned long long *b) { return next_chunk((long *)a, (long *)b); }
LOOPU(dynamic) LOOPU(guided) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }
