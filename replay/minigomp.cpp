// A minimal libgomp on std::thread, so that ThreadSanitizer sees all synchronisation.
#include <cstdlib>
#include <mutex>
#include <thread>
#include <vector>
#include <atomic>
#include <condition_variable>
static thread_local int tid = 0, nthr = 1;
static std::mutex crit;
static int maxthr() { const char* s = getenv("OMP_NUM_THREADS"); return s ? atoi(s) : 4; }
extern "C" {
int omp_get_max_threads() { return maxthr(); }
int omp_get_num_threads() { return nthr; }
int omp_get_thread_num() { return tid; }
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void**) { crit.lock(); }
void GOMP_critical_name_end(void**) { crit.unlock(); }
// barrier of the current team
static std::mutex barm;
static std::condition_variable barc;
static int waiting = 0;
static long phase = 0;
void GOMP_barrier() {
  std::unique_lock<std::mutex> g(barm);
  if (++waiting >= nthr) { waiting = 0; phase++; barc.notify_all(); return; }
  long p = phase;
  barc.wait(g, [p] { return phase != p; });
}
void GOMP_atomic_start() { crit.lock(); }
void GOMP_atomic_end() { crit.unlock(); }
struct Dyn { std::atomic<long> next; long end, incr, chunk; };
// work-sharing loops of the current team, in the order every thread meets them
static std::mutex team;
static std::vector<Dyn*> loops;
static std::vector<int> singles;
static thread_local size_t met = 0, smet = 0;
static thread_local Dyn* dyn = nullptr;
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  int N = n ? (int) n : maxthr();
  { std::lock_guard<std::mutex> g(team); for (auto d : loops) delete d; loops.clear(); singles.clear(); }
  std::vector<std::thread> t;
  for (int i = 0; i < N; i++) t.emplace_back([=] { tid = i; nthr = N; met = smet = 0; fn(data); });
  for (auto& x : t) x.join();
}
static bool next_(long* s, long* e) {
  long step = dyn->chunk * dyn->incr, v = dyn->next.fetch_add(step);
  if (dyn->incr > 0 ? v >= dyn->end : v <= dyn->end) return false;
  *s = v; *e = v + step;
  if (dyn->incr > 0 ? *e > dyn->end : *e < dyn->end) *e = dyn->end;
  return true;
}
static bool start_(long st, long en, long inc, long ch, long* s, long* e) {
  {
    std::lock_guard<std::mutex> g(team);
    if (met == loops.size()) {
      Dyn* d = new Dyn; d->next = st; d->end = en; d->incr = inc; d->chunk = ch > 0 ? ch : 1;
      loops.push_back(d);
    }
    dyn = loops[met++];
  }
  return next_(s, e);
}
#define LOOP(name) \
bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* s, long* e) { return start_(a, b, i, c, s, e); } \
bool GOMP_loop_##name##_next(long* s, long* e) { return next_(s, e); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long st, long en, long inc, long ch, unsigned) { ploop(fn, data, n, st, en, inc, ch); }
static void ploop(void (*fn)(void*), void* data, unsigned n, long st, long en, long inc, long ch) {
  int N = n ? (int) n : maxthr();
  Dyn d; d.next = st; d.end = en; d.incr = inc; d.chunk = ch > 0 ? ch : 1;
  std::vector<std::thread> t;
  for (int i = 0; i < N; i++) t.emplace_back([&d, fn, data, i, N] { tid = i; nthr = N; met = smet = 0; dyn = &d; fn(data); });
  for (auto& x : t) x.join();
}
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(static)
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return start_(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return start_(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return next_(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return next_(s, e); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long st, long en, long inc, unsigned) { ploop(fn, data, n, st, en, inc, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long st, long en, long inc, unsigned) { ploop(fn, data, n, st, en, inc, 1); }
bool GOMP_single_start() {
  std::lock_guard<std::mutex> g(team);
  if (smet++ < singles.size()) return false;
  singles.push_back(tid);
  return true;
}
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { GOMP_barrier(); }
}
