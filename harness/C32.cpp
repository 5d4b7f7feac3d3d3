// C32: any number of threads may query shared objects or work on their own.
//
// The threads are real ones (pthreads), but only the one that holds the baton
// runs: all schedules with at most `preemptions` switches away from a thread
// that could go on are executed, each in a process of its own, so that what is
// initialized on first use is initialized again.  Scheduling points are the
// synchronization operations (mutexes, reader-writer locks, once, guards of
// local statics, atomics) and the ends of the threads.  What the threads do is
// compiled with -fsanitize=thread, and this file is the runtime that the
// instrumentation calls: it keeps vector clocks (the baton is no
// synchronization for them) and reports conflicting accesses that are not
// ordered by the synchronization of the program.  Without such accesses, the
// scheduling points above cover all interleavings.
//
// mc-variants: opt
// mc-unit: C32_ops.cpp -fsanitize=thread -O1 -DMC_NO_MAIN -D_GLIBCXX_EXTERN_TEMPLATE=0
// mc-first: units
// mc-libs: -ldl
#include "C32_ops.hpp"
#include "mc.hpp"
#include <map>
#include <array>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/stat.h>
#include <unordered_map>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace rt {
constexpr int kMax = 3;
constexpr int kPoints = 3000;
constexpr size_t kArena = 192ULL << 20;
#define NOINSTR __attribute__((noinline))

// ------------------------------------------------- result of one execution
struct Shared
{
  int npoints;
  unsigned char enabled[kPoints]; // number of enabled threads
  unsigned char chosen[kPoints];
  unsigned char cont[kPoints]; // the running thread could have gone on
  int overflow;
  int finished;
  unsigned long accesses, syncs;
  char race[1500];
  unsigned len[kMax + 1];
  char answer[kMax + 1][1 << 17];
};
static Shared* sh = nullptr;

// ------------------------------------------------------------------ threads
using VC = std::array<unsigned, kMax>;
struct Thread
{
  pthread_t h;
  sem_t baton;
  bool done = false;
  void const* blocked = nullptr;
  VC clock{};
  char* stack_top = nullptr;
  char* arena = nullptr;
  size_t used = 0;
  char const* where = "";
};
static Thread thr[kMax];
static int nthr = 0;
static bool active = false;      // the threads run
static __thread int self = -1;   // index of this thread
static __thread int inside = 0;  // in the runtime
static unsigned char const* prefix = nullptr;
static int nprefix = 0;
static char* arenas = nullptr;

struct In
{
  In() { ++inside; }
  ~In() { --inside; }
};
static inline bool
on()
{
  return active && self >= 0 && inside == 0;
}

// memory: every thread has its own, and nothing is used twice
static inline bool
in_arena(void* p)
{
  return arenas != nullptr && p >= arenas && p < arenas + kMax * kArena;
}
static void*
bump(size_t n, size_t align = 16)
{
  auto& t = thr[self];
  auto u = (t.used + 16 + align - 1) / align * align;
  if (u + n > kArena) {
    return nullptr;
  }
  *reinterpret_cast<size_t*>(t.arena + u - 16) = n;
  t.used = u + n;
  return t.arena + u;
}

// ---------------------------------------------------------------- happens-before
// What the threads did with the (up to) 8 bytes of one word, at their last time
struct Cell
{
  uintptr_t word = 0;
  unsigned wc[kMax] = {}, rc[kMax] = {};
  unsigned char wm[kMax] = {}, rm[kMax] = {};
};
template<class T>
struct Alloc
{
  using value_type = T;
  Alloc() = default;
  template<class U>
  Alloc(Alloc<U> const&)
  {}
  T* allocate(size_t n) { return static_cast<T*>(__libc_malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { __libc_free(p); }
  bool operator==(Alloc const&) const { return true; }
  bool operator!=(Alloc const&) const { return false; }
};
struct Cells
{
  size_t size = 1 << 12, used = 0;
  Cell* t = static_cast<Cell*>(__libc_calloc(1 << 12, sizeof(Cell)));
  Cell& at(uintptr_t w)
  {
    if (used * 2 > size) {
      auto old = t;
      auto n = size;
      size *= 4;
      t = static_cast<Cell*>(__libc_calloc(size, sizeof(Cell)));
      if (t == nullptr) {
        _exit(98);
      }
      for (size_t i = 0; i < n; ++i) {
        if (old[i].word != 0) {
          slot(old[i].word) = old[i];
        }
      }
      __libc_free(old);
    }
    auto& c = slot(w);
    if (c.word == 0) {
      c.word = w;
      ++used;
    }
    return c;
  }

private:
  Cell& slot(uintptr_t w)
  {
    auto i = ((w >> 3) * 0x9e3779b97f4a7c15ULL >> 20) & (size - 1);
    while (t[i].word != 0 && t[i].word != w) {
      i = (i + 1) & (size - 1);
    }
    return t[i];
  }
};
using Syncs = std::unordered_map<uintptr_t, VC, std::hash<uintptr_t>, std::equal_to<uintptr_t>, Alloc<std::pair<uintptr_t const, VC>>>;
static Cells* cells = nullptr;
static Syncs* syncs = nullptr;

static NOINSTR void
report(char const* what, uintptr_t a, int other)
{
  if (sh->race[0] == 0) {
    std::snprintf(sh->race, sizeof sh->race,
                  "data race: thread %d %s memory at %p that thread %d uses at the same time (in no order given by synchronization)",
                  self, what, reinterpret_cast<void*>(a), other);
  }
}
static void
access(void* p, size_t n, bool write)
{
  if (!on()) {
    return;
  }
  auto& t = thr[self];
  auto c = static_cast<char*>(p);
  char here;
  if (c <= t.stack_top && c >= &here - 4096) {
    return; // its own stack
  }
  In g;
  ++sh->accesses;
  auto a = reinterpret_cast<uintptr_t>(p);
  auto end = a + n;
  while (a < end) {
    auto w = a & ~uintptr_t{ 7 };
    auto stop = std::min(end, w + 8);
    auto mask = static_cast<unsigned char>((0xffU >> (8 - (stop - a))) << (a - w));
    auto& cell = cells->at(w);
    for (int u = 0; u < nthr; ++u) {
      if (u == self) {
        continue;
      }
      if (((cell.wm[u] & mask) != 0 && cell.wc[u] > t.clock[u]) ||
          (write && (cell.rm[u] & mask) != 0 && cell.rc[u] > t.clock[u])) {
        report(write ? "writes" : "reads", a, u);
      }
    }
    auto& clk = write ? cell.wc[self] : cell.rc[self];
    auto& msk = write ? cell.wm[self] : cell.rm[self];
    msk = clk == t.clock[self] ? msk | mask : mask;
    clk = t.clock[self];
    a = stop;
  }
}
static void
join(VC& a, VC const& b)
{
  for (int i = 0; i < kMax; ++i) {
    a[i] = std::max(a[i], b[i]);
  }
}
static void
acquire(void const* o)
{
  In g;
  auto i = syncs->find(reinterpret_cast<uintptr_t>(o));
  if (i != syncs->end()) {
    join(thr[self].clock, i->second);
  }
}
static void
release(void const* o)
{
  In g;
  auto& v = (*syncs)[reinterpret_cast<uintptr_t>(o)];
  join(v, thr[self].clock);
  ++thr[self].clock[self];
}

// ------------------------------------------------------------------ scheduler
[[noreturn]] static void
finish(int code)
{
  sh->finished = code;
  _exit(0);
}
/// Which thread is next; called by the thread that holds the baton
static int
decide()
{
  int e[kMax];
  int n = 0;
  bool cont = self >= 0 && !thr[self].done && thr[self].blocked == nullptr;
  if (cont) {
    e[n++] = self;
  }
  for (int i = 0; i < nthr; ++i) {
    if (i != self && !thr[i].done && thr[i].blocked == nullptr) {
      e[n++] = i;
    }
  }
  if (n == 0) {
    return -1;
  }
  int k = 0;
  if (n > 1) {
    auto i = sh->npoints;
    if (i >= kPoints) {
      sh->overflow = 1;
    } else {
      if (i < nprefix) {
        k = prefix[i];
        if (k >= n) {
          finish(9); // the replay diverged
        }
      }
      sh->enabled[i] = static_cast<unsigned char>(n);
      sh->chosen[i] = static_cast<unsigned char>(k);
      sh->cont[i] = cont ? 1 : 0;
      ++sh->npoints;
    }
  }
  return e[k];
}
static void
switch_to(int next)
{
  auto me = self;
  if (next == me) {
    return;
  }
  sem_post(&thr[next].baton);
  while (sem_wait(&thr[me].baton) != 0) {
  }
}
/// A scheduling point before a synchronization operation
static void
point()
{
  In g;
  ++sh->syncs;
  switch_to(decide());
}
/// Wait until `ready`; another thread has to call wake(o)
template<class F>
static void
wait_for(void const* o, F ready)
{
  In g;
  while (!ready()) {
    thr[self].blocked = o;
    auto next = decide();
    if (next < 0) {
      finish(8); // deadlock
    }
    switch_to(next);
  }
}
static void
wake(void const* o)
{
  for (int i = 0; i < nthr; ++i) {
    if (thr[i].blocked == o) {
      thr[i].blocked = nullptr;
    }
  }
}

// state of the objects the threads synchronize with
struct Lock
{
  int owner = -1, depth = 0, readers = 0, state = 0;
};
using Locks = std::unordered_map<uintptr_t, Lock, std::hash<uintptr_t>, std::equal_to<uintptr_t>, Alloc<std::pair<uintptr_t const, Lock>>>;
static Locks* locks = nullptr;
static Lock&
lock_of(void const* o)
{
  In g;
  return (*locks)[reinterpret_cast<uintptr_t>(o)];
}

// ------------------------------------------------------------------ execution
using Body = std::function<std::string(int)>;
static std::vector<Body> const* bodies = nullptr;
static sem_t all_done;

static void
put(int slot, std::string const& s)
{
  sh->len[slot] = static_cast<unsigned>(s.size());
  std::memcpy(sh->answer[slot], s.data(), std::min(s.size(), sizeof sh->answer[slot]));
}
static void*
thread_main(void* arg)
{
  char here;
  auto me = static_cast<int>(reinterpret_cast<intptr_t>(arg));
  inside = 1;
  self = me;
  thr[me].stack_top = &here + 256;
  while (sem_wait(&thr[me].baton) != 0) {
  }
  inside = 0;
  {
    auto s = (*bodies)[static_cast<size_t>(me)](me);
    inside = 1;
    put(me, s);
  }
  thr[me].done = true;
  auto next = decide();
  if (next >= 0) {
    sem_post(&thr[next].baton);
  } else {
    for (int i = 0; i < nthr; ++i) {
      if (!thr[i].done) {
        finish(8); // deadlock
      }
    }
    sem_post(&all_done);
  }
  // it stays until the process ends (its memory is not used again)
  for (;;) {
    pause();
  }
  return nullptr;
}
/// In a child process: run the bodies under one schedule
static void
execute(std::vector<Body> const& b, std::vector<unsigned char> const& pre, std::function<std::string()> const& after)
{
  bodies = &b;
  nthr = static_cast<int>(b.size());
  prefix = pre.data();
  nprefix = static_cast<int>(pre.size());
  cells = new Cells;
  syncs = new Syncs;
  locks = new Locks;
  arenas = static_cast<char*>(mmap(nullptr, kMax * kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (arenas == MAP_FAILED) {
    finish(7);
  }
  sem_init(&all_done, 0, 0);
  for (int i = 0; i < nthr; ++i) {
    sem_init(&thr[i].baton, 0, 0);
    thr[i].clock[i] = 1;
    thr[i].arena = arenas + static_cast<size_t>(i) * kArena;
  }
  for (int i = 0; i < nthr; ++i) {
    if (pthread_create(&thr[i].h, nullptr, thread_main, reinterpret_cast<void*>(static_cast<intptr_t>(i))) != 0) {
      finish(7);
    }
  }
  active = true;
  auto first = decide();
  sem_post(&thr[first].baton);
  while (sem_wait(&all_done) != 0) {
  }
  active = false;
  put(kMax, after());
  finish(1);
}
} // namespace rt

// ------------------------------------------- functions the program would call
using rt::on;
extern "C" {
void*
malloc(size_t n)
{
  return on() ? rt::bump(n) : __libc_malloc(n);
}
void
free(void* p)
{
  if (!rt::in_arena(p) && !on()) {
    __libc_free(p);
  }
}
void*
calloc(size_t a, size_t b)
{
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    return nullptr;
  }
  return on() ? rt::bump(n) : __libc_calloc(a, b);
}
void*
realloc(void* p, size_t n)
{
  if (!on() && !rt::in_arena(p)) {
    return __libc_realloc(p, n);
  }
  auto q = malloc(n);
  if (q != nullptr && p != nullptr) {
    auto old = rt::in_arena(p) ? *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16) : n;
    __builtin_memcpy(q, p, old < n ? old : n);
  }
  return q;
}
static void
copy_bytes(void* d, void const* s, size_t n)
{
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
void*
memcpy(void* d, void const* s, size_t n)
{
  rt::access(const_cast<void*>(s), n, false);
  rt::access(d, n, true);
  copy_bytes(d, s, n);
  return d;
}
void*
memmove(void* d, void const* s, size_t n)
{
  rt::access(const_cast<void*>(s), n, false);
  rt::access(d, n, true);
  auto dc = static_cast<char*>(d);
  auto sc = static_cast<char const*>(s);
  if (dc <= sc || dc >= sc + n) {
    copy_bytes(d, s, n);
  } else {
    void* de = dc + n - 1;
    void const* se = sc + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(de), "+S"(se), "+c"(n) : : "memory");
  }
  return d;
}
void*
memset(void* d, int c, size_t n)
{
  rt::access(d, n, true);
  void* p = d;
  asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory");
  return d;
}

#define RW(N)                                                                  \
  void __tsan_read##N(void* p) { rt::access(p, N, false); }                    \
  void __tsan_write##N(void* p) { rt::access(p, N, true); }                    \
  void __tsan_unaligned_read##N(void* p) { rt::access(p, N, false); }          \
  void __tsan_unaligned_write##N(void* p) { rt::access(p, N, true); }          \
  void __tsan_volatile_read##N(void* p) { rt::access(p, N, false); }           \
  void __tsan_volatile_write##N(void* p) { rt::access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { rt::access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { rt::access(p, n, true); }
void __tsan_vptr_update(void** p, void* v)
{
  if (*p != v) {
    rt::access(p, 8, true);
  }
}
void __tsan_vptr_read(void** p) { rt::access(p, 8, false); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}

// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo >= 3; }
#define ATOMIC_HEAD(p)                                                         \
  bool o = on();                                                               \
  if (o) {                                                                     \
    rt::point();                                                               \
  }
#define ATOMIC_RMW(p, mo)                                                      \
  if (o) {                                                                     \
    if (acq(mo)) {                                                             \
      rt::acquire(const_cast<void const*>(reinterpret_cast<void const volatile*>(p))); \
    }                                                                          \
    if (rel(mo)) {                                                             \
      rt::release(const_cast<void const*>(reinterpret_cast<void const volatile*>(p))); \
    }                                                                          \
  }
#define ATOMIC(B, T)                                                           \
  T __tsan_atomic##B##_load(T const volatile* p, int mo)                       \
  {                                                                            \
    ATOMIC_HEAD(p) T v = __atomic_load_n(p, 5);                                \
    if (o && acq(mo)) {                                                        \
      rt::acquire(const_cast<T const*>(p));                                    \
    }                                                                          \
    return v;                                                                  \
  }                                                                            \
  void __tsan_atomic##B##_store(T volatile* p, T v, int mo)                    \
  {                                                                            \
    ATOMIC_HEAD(p) if (o && rel(mo)) { rt::release(const_cast<T*>(p)); }       \
    __atomic_store_n(p, v, 5);                                                 \
  }                                                                            \
  T __tsan_atomic##B##_exchange(T volatile* p, T v, int mo)                    \
  {                                                                            \
    ATOMIC_HEAD(p) ATOMIC_RMW(p, mo) return __atomic_exchange_n(p, v, 5);      \
  }                                                                            \
  T __tsan_atomic##B##_fetch_add(T volatile* p, T v, int mo)                   \
  {                                                                            \
    ATOMIC_HEAD(p) ATOMIC_RMW(p, mo) return __atomic_fetch_add(p, v, 5);       \
  }                                                                            \
  T __tsan_atomic##B##_fetch_sub(T volatile* p, T v, int mo)                   \
  {                                                                            \
    ATOMIC_HEAD(p) ATOMIC_RMW(p, mo) return __atomic_fetch_sub(p, v, 5);       \
  }                                                                            \
  T __tsan_atomic##B##_fetch_and(T volatile* p, T v, int mo)                   \
  {                                                                            \
    ATOMIC_HEAD(p) ATOMIC_RMW(p, mo) return __atomic_fetch_and(p, v, 5);       \
  }                                                                            \
  T __tsan_atomic##B##_fetch_or(T volatile* p, T v, int mo)                    \
  {                                                                            \
    ATOMIC_HEAD(p) ATOMIC_RMW(p, mo) return __atomic_fetch_or(p, v, 5);        \
  }                                                                            \
  T __tsan_atomic##B##_fetch_xor(T volatile* p, T v, int mo)                   \
  {                                                                            \
    ATOMIC_HEAD(p) ATOMIC_RMW(p, mo) return __atomic_fetch_xor(p, v, 5);       \
  }                                                                            \
  int __tsan_atomic##B##_compare_exchange_strong(T volatile* p, T* c, T v, int mo, int) \
  {                                                                            \
    ATOMIC_HEAD(p) ATOMIC_RMW(p, mo) return __atomic_compare_exchange_n(p, c, v, false, 5, 5); \
  }                                                                            \
  int __tsan_atomic##B##_compare_exchange_weak(T volatile* p, T* c, T v, int mo, int) \
  {                                                                            \
    ATOMIC_HEAD(p) ATOMIC_RMW(p, mo) return __atomic_compare_exchange_n(p, c, v, false, 5, 5); \
  }                                                                            \
  T __tsan_atomic##B##_compare_exchange_val(T volatile* p, T c, T v, int mo, int) \
  {                                                                            \
    ATOMIC_HEAD(p) ATOMIC_RMW(p, mo) __atomic_compare_exchange_n(p, &c, v, false, 5, 5); \
    return c;                                                                  \
  }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
static char all_fences;
void __tsan_atomic_thread_fence(int)
{
  if (on()) {
    rt::point();
    rt::acquire(&all_fences);
    rt::release(&all_fences);
  }
}
void __tsan_atomic_signal_fence(int) {}

// ---- guards of local static objects
int
__cxa_guard_acquire(long long* g)
{
  auto b = reinterpret_cast<unsigned char*>(g);
  if (!on()) {
    return b[0] == 0 ? 1 : 0;
  }
  rt::point();
  rt::wait_for(g, [&] { return b[0] != 0 || b[1] == 0; });
  if (b[0] != 0) {
    rt::acquire(g);
    return 0;
  }
  b[1] = 1;
  rt::acquire(g);
  return 1;
}
void
__cxa_guard_release(long long* g)
{
  auto b = reinterpret_cast<unsigned char*>(g);
  if (on()) {
    rt::release(g);
    b[0] = 1;
    b[1] = 0;
    rt::wake(g);
    rt::point();
    return;
  }
  b[0] = 1;
  b[1] = 0;
}
void
__cxa_guard_abort(long long* g)
{
  auto b = reinterpret_cast<unsigned char*>(g);
  b[1] = 0;
  if (on()) {
    rt::wake(g);
  }
}

// ---- mutexes (also recursive ones), reader-writer locks, once
static int
lock_mutex(void* m, bool wait)
{
  if (!on()) {
    return 0; // one thread
  }
  rt::point();
  auto& l = rt::lock_of(m);
  auto me = rt::self;
  if (!wait && l.owner >= 0 && l.owner != me) {
    return EBUSY;
  }
  rt::wait_for(m, [&] { return (l.owner < 0 || l.owner == me) && l.readers == 0; });
  l.owner = me;
  ++l.depth;
  rt::acquire(m);
  return 0;
}
static int
unlock_mutex(void* m)
{
  if (!on()) {
    return 0;
  }
  auto& l = rt::lock_of(m);
  rt::release(m);
  if (l.owner == rt::self) {
    if (--l.depth == 0) {
      l.owner = -1;
      rt::wake(m);
    }
  } else if (l.readers > 0 && --l.readers == 0) {
    rt::wake(m);
  }
  rt::point();
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lock_mutex(m, true); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lock_mutex(m, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlock_mutex(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lock_mutex(m, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlock_mutex(m); }
int
pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  if (!on()) {
    return 0;
  }
  rt::point();
  auto& l = rt::lock_of(m);
  rt::wait_for(m, [&] { return l.owner < 0; });
  ++l.readers;
  rt::acquire(m);
  return 0;
}
int
pthread_once(pthread_once_t* c, void (*f)())
{
  auto& flag = *reinterpret_cast<int*>(c);
  if (!on()) {
    if (flag != 2) {
      flag = 2;
      f();
    }
    return 0;
  }
  if (flag == 2) { // for good: commutes with whatever the others do
    rt::acquire(c);
    return 0;
  }
  rt::point();
  rt::wait_for(c, [&] { return flag != 1; });
  if (flag == 2) {
    rt::acquire(c);
    return 0;
  }
  flag = 1;
  try {
    f();
  } catch (...) {
    flag = 0;
    rt::wake(c);
    throw;
  }
  rt::release(c);
  flag = 2;
  rt::wake(c);
  rt::point();
  return 0;
}
} // extern "C"

// ------------------------------------------------------------------- explorer
namespace {
struct Result
{
  std::vector<std::string> answers;
  std::string after;
  std::string problem;
  std::vector<unsigned char> enabled, chosen, cont;
};

Result
run_schedule(std::function<void()> const& before, std::vector<rt::Body> const& bodies, std::function<std::string()> const& after, std::vector<unsigned char> const& pre)
{
  if (rt::sh == nullptr) {
    rt::sh = static_cast<rt::Shared*>(mmap(nullptr, sizeof(rt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  }
  auto& s = *rt::sh;
  s.npoints = s.overflow = s.finished = 0;
  s.accesses = s.syncs = 0;
  s.race[0] = 0;
  for (auto& l : s.len) {
    l = 0;
  }
  std::fflush(nullptr);
  auto pid = fork();
  if (pid == 0) {
    before();
    rt::execute(bodies, pre, after);
    _exit(99);
  }
  int st = 0;
  Result r;
  // (a thread that waits for something else than what is modelled)
  auto t0 = std::chrono::steady_clock::now();
  for (int i = 0;; ++i) {
    if (waitpid(pid, &st, WNOHANG) == pid) {
      break;
    }
    if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(30)) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.problem = "the execution does not terminate";
      return r;
    }
    usleep(i < 50 ? 50 : 500);
  }
  r.enabled.assign(s.enabled, s.enabled + s.npoints);
  r.chosen.assign(s.chosen, s.chosen + s.npoints);
  r.cont.assign(s.cont, s.cont + s.npoints);
  if (s.finished == 7 || s.finished == 9 || (WIFEXITED(st) && WEXITSTATUS(st) == 3)) {
    throw std::logic_error("mc: the execution could not be set up or diverged from its schedule");
  }
  if (s.finished == 8) {
    r.problem = "deadlock: no thread can go on";
  } else if (s.finished != 1) {
    r.problem = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) : "the process ended unexpectedly";
  } else if (s.race[0] != 0) {
    r.problem = s.race;
  }
  for (size_t i = 0; i < bodies.size(); ++i) {
    r.answers.emplace_back(s.answer[i], std::min<size_t>(s.len[i], sizeof s.answer[i]));
  }
  r.after.assign(s.answer[rt::kMax], std::min<size_t>(s.len[rt::kMax], sizeof s.answer[rt::kMax]));
  return r;
}

struct Scenario
{
  std::string what;
  std::function<void()> before;
  std::vector<rt::Body> bodies;
  std::function<std::string()> after;
};

std::string
schedule_str(std::vector<unsigned char> const& v)
{
  std::string s;
  for (auto x : v) {
    s += static_cast<char>('0' + x);
  }
  return s.empty() ? "(no choice)" : s;
}

/// All schedules with at most `bound` preemptions
void
explore_schedules(mc::Ctx& c, Scenario const& sc, std::vector<std::string> const& alone, std::string const& after, int bound)
{
  // (programs that synchronize a lot; the library does not)
  static auto const start = std::chrono::steady_clock::now();
  auto spent = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
  auto scale = mc::thorough ? 15.0 : 1.0;
  if (spent > 480 * scale) {
    return;
  }
  if (spent > 250 * scale) {
    bound = 0;
  }
  long executions = 0;
  long cap = mc::bound(400L, 400L, 20000L, 20000L);
  std::function<void(std::vector<unsigned char> const&)> go = [&](std::vector<unsigned char> const& pre) {
    if (++executions > cap) {
      return;
    }
    c.op("schedule ", schedule_str(pre));
    auto r = run_schedule(sc.before, sc.bodies, sc.after, pre);
    auto where = [&] { return sc.what + ", schedule " + schedule_str(r.chosen); };
    c.me != nullptr ? void(c.me->checks.fetch_add(1)) : void(); // (it is alive)
    MC_CHECK(c, r.problem.empty(), where(), ": ", r.problem);
    for (size_t i = 0; i < sc.bodies.size(); ++i) {
      MC_CHECK(c, r.answers[i] == alone[i], where(), ": thread ", i, " gets\n", r.answers[i].substr(0, 600), "\nalone it gets\n", alone[i].substr(0, 600));
    }
    MC_CHECK(c, r.after == after, where(), ": afterwards the object answers\n", r.after.substr(0, 600), "\ninstead of\n", after.substr(0, 600));
    mc::H h;
    h.add(sc.what).add(schedule_str(r.chosen));
    c.state(h);
    int cost = 0;
    for (size_t i = 0; i < r.enabled.size(); ++i) {
      if (i >= pre.size()) {
        auto here = cost + (r.cont[i] != 0 ? 1 : 0);
        if (here <= bound) {
          for (unsigned char k = 1; k < r.enabled[i]; ++k) {
            std::vector<unsigned char> next(r.chosen.begin(), r.chosen.begin() + static_cast<long>(i));
            next.push_back(k);
            go(next);
          }
        }
      }
      cost += r.cont[i] != 0 && r.chosen[i] != 0 ? 1 : 0;
    }
  };
  go({});
  if (executions > cap && bound > 0) {
    // say so, and cover the smaller bound completely instead
    c.note("more than ", cap, " schedules with ", bound, " preemptions");
    mc::H h;
    h.add(sc.what).add(std::string("capped")).add(bound);
    c.state(h);
    explore_schedules(c, sc, alone, after, bound - 1);
  }
}

std::string
dir_of()
{
  auto d = mc::scratch + "/c32-" + std::to_string(getpid());
  mkdir(d.c_str(), 0755);
  return d;
}
std::string const&
dir()
{
  static std::map<pid_t, std::string> d;
  auto& s = d[getpid()];
  if (s.empty()) {
    s = dir_of();
  }
  return s;
}
std::string
everything(size_t s)
{
  std::string r;
  for (size_t q = 0; q < c32::queries(s); ++q) {
    r += c32::ask(s, q, 0) + "\n";
  }
  return r;
}
/// What a body answers alone
std::string
alone(std::string const& key, std::function<void()> const& before, rt::Body const& b, int thread)
{
  static std::map<std::string, std::string> memo;
  auto k = key + "@" + std::to_string(thread);
  auto i = memo.find(k);
  if (i != memo.end()) {
    return i->second;
  }
  auto r = run_schedule(before, { [&](int) { return b(thread); } }, [] { return std::string(); }, {});
  if (!r.problem.empty()) {
    mc::fail(key, " alone: ", r.problem);
  }
  return memo[k] = r.answers[0];
}
std::string
after_alone(size_t s)
{
  static std::map<size_t, std::string> memo;
  auto i = memo.find(s);
  if (i != memo.end()) {
    return i->second;
  }
  auto d = dir();
  auto r = run_schedule([=] { c32::prepare(s, d); }, { [](int) { return std::string(); } }, [=] { return everything(s); }, {});
  if (!r.problem.empty()) {
    mc::fail("queries alone: ", r.problem);
  }
  return memo[s] = r.after;
}

void
queries_of_threads(mc::Ctx& c, size_t s, std::vector<std::vector<size_t>> const& q, int bound)
{
  Scenario sc;
  auto d = dir();
  sc.before = [=] { c32::prepare(s, d); };
  sc.what = std::string(c32::subject_name(s));
  std::vector<std::string> expected;
  for (size_t i = 0; i < q.size(); ++i) {
    auto mine = q[i];
    std::string key = "subject " + std::to_string(s) + ":";
    sc.what += i == 0 ? ", queries " : " | ";
    for (auto x : mine) {
      key += " " + std::to_string(x);
      sc.what += std::to_string(x) + " ";
    }
    sc.bodies.push_back([=](int t) {
      std::string r;
      for (auto x : mine) {
        r += c32::ask(s, x, t) + "\n";
      }
      return r;
    });
    // one query is asked of an untouched object, always
    std::string e;
    for (auto x : mine) {
      e += alone("subject " + std::to_string(s) + ": " + std::to_string(x), sc.before, [=](int t) { return c32::ask(s, x, t) + "\n"; }, static_cast<int>(i));
    }
    expected.push_back(e);
  }
  sc.after = [=] { return everything(s); };
  explore_schedules(c, sc, expected, after_alone(s), bound);
}
} // namespace

MC_FAMILY(order, "one thread asks up to three (four) queries in all orders: each answers as if it was asked first, and the object is as before", 2)
{
  auto s = static_cast<size_t>(c.choose(static_cast<int>(c32::subjects())));
  auto n = static_cast<int>(c32::queries(s));
  auto len = mc::bound(n > 8 ? 2 : 3, 2, n > 8 ? 3 : 4, 3);
  std::vector<size_t> q;
  for (int i = 0; i < len; ++i) {
    q.push_back(static_cast<size_t>(c.choose(n)));
  }
  queries_of_threads(c, s, { q }, 0);
}

MC_FAMILY(share2, "two threads ask an object one query each: all pairs of queries, all schedules with up to 2 (3) preemptions", 2)
{
  auto s = static_cast<size_t>(c.choose(static_cast<int>(c32::subjects())));
  auto n = static_cast<int>(c32::queries(s));
  auto a = c.choose(n);
  auto b = a + c.choose(n - a);
  queries_of_threads(c, s, { { static_cast<size_t>(a) }, { static_cast<size_t>(b) } }, mc::bound(2, 2, 3, 3));
}

MC_FAMILY(share2x2, "two threads ask an object two queries each, all schedules with up to 1 (2) preemptions", 2)
{
  auto s = static_cast<size_t>(c.choose(static_cast<int>(c32::subjects())));
  auto n = static_cast<int>(c32::queries(s));
  c.assume(n <= 8 || mc::thorough);
  std::vector<size_t> a{ static_cast<size_t>(c.choose(n)) }, b;
  a.push_back(static_cast<size_t>(c.choose(n)));
  b.push_back(a[0]);
  b.push_back(static_cast<size_t>(c.choose(n)));
  queries_of_threads(c, s, { a, b }, mc::bound(1, 1, 2, 2));
}

MC_FAMILY(share3, "three threads ask an object one query each: all triples, all schedules with up to 1 (2) preemptions", 2)
{
  auto s = static_cast<size_t>(c.choose(static_cast<int>(c32::subjects())));
  auto n = static_cast<int>(c32::queries(s));
  c.assume(n <= 8 || mc::thorough);
  auto a = c.choose(n);
  auto b = a + c.choose(n - a);
  auto d = b + c.choose(n - b);
  queries_of_threads(c, s, { { static_cast<size_t>(a) }, { static_cast<size_t>(b) }, { static_cast<size_t>(d) } }, mc::bound(1, 1, 2, 2));
}

static void
lives(mc::Ctx& c, std::vector<size_t> const& s, int bound)
{
  Scenario sc;
  auto d = dir();
  sc.before = [=] { c32::prepare(c32::subjects(), d); };
  sc.after = [] { return std::string(); };
  std::vector<std::string> expected;
  for (size_t i = 0; i < s.size(); ++i) {
    auto x = s[i];
    sc.what += (i == 0 ? std::string("own objects: ") : std::string(" | ")) + c32::script_name(x);
    sc.bodies.push_back([=](int t) { return c32::play(x, t); });
    expected.push_back(alone("script " + std::to_string(x), sc.before, sc.bodies.back(), static_cast<int>(i)));
  }
  explore_schedules(c, sc, expected, "", bound);
}

MC_FAMILY(own2, "two threads, each with the whole life of objects of its own: all pairs of classes, all schedules with up to 1 (2) preemptions", 2)
{
  auto n = static_cast<int>(c32::scripts());
  auto a = c.choose(n);
  auto b = a + c.choose(n - a);
  lives(c, { static_cast<size_t>(a), static_cast<size_t>(b) }, mc::bound(1, 1, 2, 2));
}

MC_FAMILY(own3, "three threads, each with the whole life of objects of its own, of the same class (all triples)", 2)
{
  auto n = static_cast<int>(c32::scripts());
  auto a = c.choose(n);
  auto b = mc::thorough ? a + c.choose(n - a) : a;
  auto d = mc::thorough ? b + c.choose(n - b) : b;
  lives(c, { static_cast<size_t>(a), static_cast<size_t>(b), static_cast<size_t>(d) }, mc::bound(1, 1, 1, 1));
}

MC_FAMILY(mixed, "one thread asks a shared object, another one works on an object of its own", 2)
{
  auto s = static_cast<size_t>(c.choose(static_cast<int>(c32::subjects())));
  auto n = c32::queries(s);
  auto x = static_cast<size_t>(c.choose(static_cast<int>(c32::scripts())));
  Scenario sc;
  auto d = dir();
  sc.before = [=] { c32::prepare(s, d); };
  sc.what = std::string(c32::subject_name(s)) + ", all queries | " + c32::script_name(x);
  sc.bodies.push_back([=](int t) {
    std::string r;
    for (size_t q = 0; q < n; ++q) {
      r += c32::ask(s, q, t) + "\n";
    }
    return r;
  });
  sc.bodies.push_back([=](int t) { return c32::play(x, t); });
  sc.after = [=] { return everything(s); };
  std::vector<std::string> e;
  e.push_back(alone("all of " + std::to_string(s), sc.before, sc.bodies[0], 0));
  e.push_back(alone("script " + std::to_string(x), sc.before, sc.bodies[1], 1));
  explore_schedules(c, sc, e, after_alone(s), mc::bound(1, 1, 2, 2));
}
