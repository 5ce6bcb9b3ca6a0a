#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define REAL(name) real_##name
#define LOOKUP(name) \
  static decltype(&name) REAL(name) = nullptr; \
  if (!REAL(name)) REAL(name) = (decltype(&name))dlsym(RTLD_NEXT, #name)

namespace {
enum State { RUN, LOCK, WAIT, TIMED, JOIN, DONE };
struct T {
  State st = DONE;
  void* on = nullptr;      // lock or condition
  void* mtx = nullptr;
  int target = 0;          // joined thread
  bool yielded = false, timeout = false;
  long prio = 0;
  pthread_t handle{};
  pthread_mutex_t m;
  pthread_cond_t c;
  bool go = false;
};
constexpr int MAX = 64;
T th[MAX];
int n_threads = 0, current = -1;
bool active = false;
uint64_t rng = 1, n_steps = 0, limit = 400000;
int mode = 0;
struct M { void* a; int owner; };
M owned[256];
int n_owned = 0;
thread_local int me = -1;
std::function<void(const char*)> stuck;

uint64_t rnd() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng;
}
int (*r_lock)(pthread_mutex_t*), (*r_unlock)(pthread_mutex_t*), (*r_wait)(pthread_cond_t*, pthread_mutex_t*), (*r_signal)(pthread_cond_t*);
void reals() {
  if (r_lock) return;
  r_lock = (decltype(r_lock))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  r_unlock = (decltype(r_unlock))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  r_wait = (decltype(r_wait))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  r_signal = (decltype(r_signal))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
}
int owner_of(void* a) {
  for (int i = 0; i < n_owned; ++i)
    if (owned[i].a == a) return owned[i].owner;
  return -1;
}
void set_owner(void* a, int o) {
  for (int i = 0; i < n_owned; ++i)
    if (owned[i].a == a) {
      if (o < 0) owned[i] = owned[--n_owned];
      else owned[i].owner = o;
      return;
    }
  if (o >= 0) owned[n_owned++] = {a, o};
}
bool ready(int i) {
  auto& t = th[i];
  switch (t.st) {
    case RUN: return true;
    case LOCK: return owner_of(t.on) < 0;
    case JOIN: return th[t.target].st == DONE;
    default: return false;
  }
}
void report(const char* why) {
  static const char* names[] = {"runs", "wants a lock", "waits for a notification", "waits with a timeout", "joins", "done"};
  static char buf[2048];
  int k = snprintf(buf, sizeof buf, "%s:", why);
  for (int i = 0; i < n_threads && k < 1900; ++i)
    if (th[i].st != DONE) k += snprintf(buf + k, sizeof buf - k, " thread %d %s;", i, names[th[i].st]);
  active = false;
  stuck(buf);
  _exit(3);
}
int choose(bool leave) {  // leave: the current thread does not want to run
  if (++n_steps > limit) report("no end in sight");
  int c[MAX], n = 0, spin[MAX], ns = 0;
  for (int i = 0; i < n_threads; ++i)
    if (ready(i)) {
      if (th[i].yielded) spin[ns++] = i;
      else c[n++] = i;
    }
  if (n && ns && rnd() % 4 == 0) {  // sometimes one that yielded
    for (int i = 0; i < ns; ++i) c[n++] = spin[i];
  }
  if (!n) {
    for (int i = 0; i < ns; ++i) c[n++] = spin[i];
    for (int i = 0; i < n_threads; ++i) th[i].yielded = false;
  }
  int timed[MAX], nt = 0;
  for (int i = 0; i < n_threads; ++i)
    if (th[i].st == TIMED) timed[nt++] = i;
  if (nt && (!n || rnd() % 16 == 0)) {
    int i = timed[rnd() % nt];
    th[i].st = LOCK;
    th[i].on = th[i].mtx;
    th[i].timeout = true;
    if (ready(i)) return i;
    if (!n) return choose(leave);
  }
  if (!n) report("deadlock");
  if (mode == 2) {  // priorities
    int best = c[0];
    for (int i = 1; i < n; ++i)
      if (th[c[i]].prio > th[best].prio) best = c[i];
    if (rnd() % 40 == 0) th[best].prio = -(long)n_steps;
    return best;
  }
  return c[rnd() % n];
}
void pass(int to) {
  current = to;
  if (to == me) return;
  r_lock(&th[to].m);
  th[to].go = true;
  r_signal(&th[to].c);
  r_unlock(&th[to].m);
}
void hold() {  // until it is my turn
  auto& t = th[me];
  r_lock(&t.m);
  while (!t.go) r_wait(&t.c, &t.m);
  t.go = false;
  r_unlock(&t.m);
}
void turn(bool leave) {
  int to = choose(leave);
  if (to == me) return;
  pass(to);
  hold();
}
bool on() { return active && me >= 0; }

void acquire(void* m) {
  while (owner_of(m) >= 0) {
    th[me].st = LOCK;
    th[me].on = m;
    turn(true);
    th[me].st = RUN;
  }
  set_owner(m, me);
}
int add() {
  int i = n_threads++;
  if (i >= MAX) abort();
  auto& t = th[i];
  t = T();
  t.st = RUN;
  t.prio = rnd() % 1000;
  pthread_mutex_init(&t.m, nullptr);
  pthread_cond_init(&t.c, nullptr);
  return i;
}
struct Start { void* (*f)(void*); void* a; int id; };
void* trampoline(void* p) {
  Start s = *(Start*)p;
  delete (Start*)p;
  me = s.id;
  hold();
  void* r = s.f(s.a);
  th[me].st = DONE;
  int to = choose(true);
  int id = me;
  me = -1;
  current = to;
  r_lock(&th[to].m);
  th[to].go = true;
  r_signal(&th[to].c);
  r_unlock(&th[to].m);
  (void)id;
  return r;
}
}  // namespace

namespace sched {
void begin(uint64_t seed, std::function<void(const char*)> f) {
  reals();
  rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  for (int i = 0; i < 8; ++i) rnd();
  mode = rnd() % 4;
  n_threads = n_owned = 0;
  n_steps = 0;
  stuck = std::move(f);
  me = add();
  current = me;
  active = true;
}
void end() {
  active = false;
  me = -1;
}
void point() {
  if (!on()) return;
  turn(false);
}
static void soft(unsigned one_in) {
  if (on() && rnd() % one_in == 0) turn(false);
}
int self() { return me; }
static char book[1 << 22];
static size_t book_n = 0;
void log(const char* e) {
  size_t n = strlen(e);
  if (book_n + n + 2 > sizeof book) return;
  if (book_n) book[book_n++] = ',';
  memcpy(book + book_n, e, n);
  book_n += n;
}
static void put(const char* p, size_t n) {
  while (n) {
    auto k = write(1, p, n);
    if (k <= 0) _exit(4);
    p += k;
    n -= k;
  }
}
void print(const char* why) {
  char tail[4096];
  fflush(stdout);
  put("@{\"log\":[", 9);
  put(book, book_n);
  int k = why ? snprintf(tail, sizeof tail, "],\"stuck\":\"%s\",\"steps\":%lu}\n", why, n_steps)
              : snprintf(tail, sizeof tail, "],\"stuck\":null,\"steps\":%lu}\n", n_steps);
  put(tail, k);
}
uint64_t steps() { return n_steps; }
}  // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  reals();
  if (!on()) return r_lock(m);
  sched::point();
  acquire(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  LOOKUP(pthread_mutex_trylock);
  if (!on()) return REAL(pthread_mutex_trylock)(m);
  sched::point();
  if (owner_of(m) >= 0) return EBUSY;
  set_owner(m, me);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  reals();
  if (!on()) return r_unlock(m);
  set_owner(m, -1);
  sched::point();
  return 0;
}
static int wait_on(pthread_cond_t* c, pthread_mutex_t* m, State st) {
  set_owner(m, -1);
  auto& t = th[me];
  t.st = st;
  t.on = c;
  t.mtx = m;
  t.timeout = false;
  if (rnd() % 64 == 0) {  // a spurious wake-up
    t.st = LOCK;
    t.on = m;
  }
  turn(true);
  t.st = RUN;
  acquire(m);
  return t.timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  reals();
  if (!on()) return r_wait(c, m);
  return wait_on(c, m, WAIT);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  LOOKUP(pthread_cond_timedwait);
  if (!on()) return REAL(pthread_cond_timedwait)(c, m, ts);
  return wait_on(c, m, TIMED);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  LOOKUP(pthread_cond_clockwait);
  if (!on()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
  return wait_on(c, m, TIMED);
}
static void wake(pthread_cond_t* c, bool all) {
  int w[MAX], n = 0;
  for (int i = 0; i < n_threads; ++i)
    if ((th[i].st == WAIT || th[i].st == TIMED) && th[i].on == c) w[n++] = i;
  if (!n) return;
  int only = w[rnd() % n];
  for (int k = 0; k < n; ++k)
    if (all || w[k] == only) {
      th[w[k]].st = LOCK;
      th[w[k]].on = th[w[k]].mtx;
    }
}
int pthread_cond_signal(pthread_cond_t* c) {
  reals();
  if (!on()) return r_signal(c);
  sched::point();
  wake(c, false);
  sched::point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  LOOKUP(pthread_cond_broadcast);
  if (!on()) return REAL(pthread_cond_broadcast)(c);
  sched::point();
  wake(c, true);
  sched::point();
  return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  LOOKUP(pthread_create);
  if (!on()) return REAL(pthread_create)(h, a, f, arg);
  int id = add();
  int rc = REAL(pthread_create)(h, a, trampoline, new Start{f, arg, id});
  th[id].handle = *h;
  sched::point();
  return rc;
}
int pthread_join(pthread_t h, void** r) {
  LOOKUP(pthread_join);
  if (!on()) return REAL(pthread_join)(h, r);
  for (int i = 0; i < n_threads; ++i)
    if (pthread_equal(th[i].handle, h) && i != me && (th[i].st != DONE || true)) {
      if (th[i].st == DONE) continue;
      th[me].st = JOIN;
      th[me].target = i;
      turn(true);
      th[me].st = RUN;
      break;
    }
  return REAL(pthread_join)(h, r);
}
static void rest() {
  th[me].yielded = true;
  turn(false);
  th[me].yielded = false;
}
int sched_yield() {
  LOOKUP(sched_yield);
  if (!on()) return REAL(sched_yield)();
  rest();
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  LOOKUP(nanosleep);
  if (!on()) return REAL(nanosleep)(a, b);
  rest();
  return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) {
  LOOKUP(clock_nanosleep);
  if (!on()) return REAL(clock_nanosleep)(k, fl, a, b);
  rest();
  return 0;
}
int usleep(useconds_t u) {
  LOOKUP(usleep);
  if (!on()) return REAL(usleep)(u);
  rest();
  return 0;
}

// Function-local statics and once flags block inside the runtime library otherwise.
int __cxa_guard_acquire(char* g) {
  if (*(volatile char*)g) return 0;
  while (on() && ((volatile char*)g)[1]) rest();
  if (*(volatile char*)g) return 0;
  g[1] = 1;
  return 1;
}
void __cxa_guard_release(char* g) {
  g[1] = 0;
  g[0] = 1;
}
void __cxa_guard_abort(char* g) { g[1] = 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
  auto v = (volatile int*)o;
  while (on() && *v == 1) rest();
  if (*v == 2) return 0;
  *v = 1;
  f();
  *v = 2;
  return 0;
}

// What -fsanitize=thread calls for every memory access: places to switch threads.
static void plain() { sched::soft(mode == 0 ? 1000000 : mode == 1 ? 40 : 200); }
static void atomic() { sched::soft(mode == 0 ? 2 : mode == 1 ? 4 : 3); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void*, unsigned long) { plain(); }
void __tsan_write_range(void*, unsigned long) { plain(); }
#define RW(n) \
  void __tsan_read##n(void*) { plain(); } \
  void __tsan_write##n(void*) { plain(); } \
  void __tsan_unaligned_read##n(void*) { plain(); } \
  void __tsan_unaligned_write##n(void*) { plain(); } \
  void __tsan_volatile_read##n(void*) { plain(); } \
  void __tsan_volatile_write##n(void*) { plain(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(b, t) \
  t __tsan_atomic##b##_load(const volatile t* p, int) { atomic(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile t* p, t v, int) { atomic(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); atomic(); } \
  t __tsan_atomic##b##_exchange(volatile t* p, t v, int) { atomic(); t r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); atomic(); return r; } \
  t __tsan_atomic##b##_fetch_add(volatile t* p, t v, int) { atomic(); t r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); atomic(); return r; } \
  t __tsan_atomic##b##_fetch_sub(volatile t* p, t v, int) { atomic(); t r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); atomic(); return r; } \
  t __tsan_atomic##b##_fetch_and(volatile t* p, t v, int) { atomic(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_or(volatile t* p, t v, int) { atomic(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_xor(volatile t* p, t v, int) { atomic(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_nand(volatile t* p, t v, int) { atomic(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t* p, t* e, t v, int, int) { atomic(); int r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic(); return r; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t* p, t* e, t v, int, int) { atomic(); int r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic(); return r; } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t* p, t e, t v, int, int) { atomic(); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
