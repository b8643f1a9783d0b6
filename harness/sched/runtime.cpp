#include "runtime.h"
#include <algorithm>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <thread>
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <vector>

namespace sched {
namespace {
struct T {
    std::condition_variable cv;
    bool done = false;
    bool held = false;        // held back by the strategy
    long idle = 0;            // operations without progress in a row
    long priority = 0;
    long ops = 0;
    std::function<bool()> ready; // empty: runnable
};

std::mutex m;
std::recursive_mutex world;
std::deque<std::unique_ptr<T>> ts;
int current = -1;
thread_local int me = -1;
std::mt19937_64 rng;
int mode = 0;
bool fine = false;
long one_in = 20;
long nsteps = 0, max_steps = 0, since_progress = 0, hold_since = 0;
long change_points[4];
struct Hold {
    int thread;  // -1: any
    Kind kind;
    long count;  // before the count-th such operation
    long length; // steps; -1: until nothing moves any more
    bool used;
};
std::vector<Hold> holds;
long held_until = 0;
int held_thread = -1;
std::map<std::pair<int, int>, long> seen;
std::map<int, long> seen_any;
std::string events;
long nevents = 0;
std::map<const void *, int> names;
int others = 0; // threads there were before

thread_local int quiet = 0;
bool memory = false;
long memory_in = 20, shared_in = 3, memory_left = 0;

bool runnable(T &t)
{
    if (t.done)
        return false;
    if (t.ready && !t.ready())
        return false;
    return true;
}

unsigned long pick(unsigned long n)
{
    return n <= 1 ? 0 : rng() % n;
}

int os_threads()
{
    int n = 0;
    if (DIR *d = opendir("/proc/self/task")) {
        while (dirent *e = readdir(d))
            n += e->d_name[0] != '.';
        closedir(d);
    }
    return n;
}

void give_up(const char *why, int code)
{
    // Threads that are not under control may be what the others wait for: no verdict
    int alive = 0;
    for (auto &t : ts)
        alive += !t->done;
    if (os_threads() > alive + others)
        code = 96;
    fprintf(stderr, "sched: %s after %ld steps\n", why, nsteps);
    fflush(stderr);
    _exit(code);
}

// with the lock held: who goes on
int next()
{
    if (++nsteps > max_steps)
        give_up("endless", 97);
    since_progress++;
    std::vector<int> can;
    for (int i = 0; i < (int)ts.size(); i++)
        if (runnable(*ts[i]))
            can.push_back(i);
    if (can.empty())
        give_up("deadlock", 98);
    if (held_thread >= 0) {
        bool over = held_until >= 0 ? nsteps >= held_until : since_progress > 25 * (long)can.size() || nsteps - hold_since > 30000;
        if (over || can.size() == 1) {
            ts[held_thread]->held = false;
            held_thread = -1;
            since_progress = 0;
        }
    }
    std::vector<int> free;
    for (int i : can)
        if (!ts[i]->held)
            free.push_back(i);
    if (free.empty())
        free = can;
    auto stays = [&](int i) { return std::find(free.begin(), free.end(), i) != free.end(); };
    switch (mode) {
    case 1: // goes on with the same thread for a while
    case 3: // as 1, with threads held back
        if (stays(current) && ts[current]->idle < 4 && pick(10) != 0)
            return current;
        return free[pick(free.size())];
    case 2: { // priorities that change now and then
        for (long &c : change_points)
            if (c == nsteps)
                ts[current]->priority = -(long)nsteps;
        if (current >= 0 && ts[current]->idle > 6) {
            ts[current]->priority = -(long)nsteps - 1000;
            ts[current]->idle = 0;
        }
        int best = free[0];
        for (int i : free)
            if (ts[i]->priority > ts[best]->priority)
                best = i;
        return best;
    }
    case 4: // round robin
        for (int i = 1; i <= (int)ts.size(); i++) {
            int j = (current + i) % ts.size();
            if (stays(j))
                return j;
        }
        return free[0];
    default:
        return free[pick(free.size())];
    }
}

void switch_to(std::unique_lock<std::mutex> &l, int n)
{
    if (n == me && current == me)
        return;
    current = n;
    ts[n]->cv.notify_one();
    int my = me;
    ts[my]->cv.wait(l, [my] { return current == my; });
}

int name_of(const void *p)
{
    auto it = names.find(p);
    if (it != names.end())
        return it->second;
    int k = names.size() + 1;
    names[p] = k;
    return k;
}
}

Quiet::Quiet() { quiet++; }
Quiet::~Quiet() { quiet--; }

bool managed() { return me >= 0; }
int self() { return me; }
long steps() { return nsteps; }

void start(unsigned long seed, int mode_, long max)
{
    Quiet q;
    rng.seed(seed * 0x9e3779b97f4a7c15ul + 12345);
    mode = mode_ % 10;
    fine = mode_ >= 10;
    memory = mode_ >= 20;
    memory_in = pick(2) ? 200 + pick(2000) : 5000 + pick(50000);
    shared_in = 1 + pick(pick(2) ? 6 : 60);
    memory_left = 50 + pick(3000);
    one_in = pick(2) ? 5 + pick(60) : 100 + pick(900);
    max_steps = max;
    others = os_threads() - 1;
    ts.emplace_back(new T);
    me = current = 0;
    for (long &c : change_points)
        c = pick(3) ? 1 + pick(1500) : 1 + pick(200);
    if (mode == 3) {
        static const Kind kinds[] = {LOAD, LOAD, STORE, RMW, RMW, ENQUEUE, ENQUEUE, DEQUEUE, DEQUEUE, DEQUEUE, CREATE, LOCK, WAIT, SIZE};
        int n = 1 + pick(3);
        for (int i = 0; i < n; i++) {
            Hold h;
            h.thread = pick(4) ? 1 + (int)pick(13) : -1;
            h.kind = kinds[pick(sizeof kinds / sizeof *kinds)];
            h.count = 1 + (pick(2) ? pick(4) : pick(40));
            if (fine && pick(2)) {
                h.kind = CALL;
                h.count = 1 + pick(pick(2) ? 60 : 3000);
            }
            if (memory && pick(2)) {
                h.kind = MEMORY;
                h.count = 1 + pick(pick(2) ? 10 : 500);
            }
            h.length = pick(3) ? -1 : 20 + (long)pick(600);
            h.used = false;
            holds.push_back(h);
        }
    }
}

void point(Kind k, const void *obj)
{
    Quiet q;
    if (me < 0)
        return;
    std::unique_lock<std::mutex> l(m);
    T &t = *ts[me];
    t.ops++;
    if (mode == 3) {
        // threads are counted per job: the creation order within a job is what counts
        long a = ++seen[{me, k}], b = ++seen_any[k];
        for (Hold &h : holds) {
            if (h.used || h.kind != k || held_thread >= 0)
                continue;
            if (h.thread >= 0 ? (me % 13 == h.thread % 13 && me > 0 && a == h.count) : b == h.count * 7) {
                h.used = true;
                t.held = true;
                held_thread = me;
                held_until = h.length < 0 ? -1 : nsteps + h.length;
                hold_since = nsteps;
                since_progress = 0;
                break;
            }
        }
    }
    if (k == CALL && held_thread != me && pick(one_in) != 0)
        return;
    if (k == MEMORY && held_thread != me) {
        if (pick(obj ? shared_in : 1) != 0)
            return;
        memory_left--;
    }
    switch_to(l, next());
}

void did(bool progress)
{
    Quiet q;
    if (me < 0)
        return;
    std::unique_lock<std::mutex> l(m);
    if (progress) {
        since_progress = 0;
        ts[me]->idle = 0;
    } else {
        ts[me]->idle++;
    }
}

unsigned long choose(unsigned long n)
{
    Quiet q;
    std::unique_lock<std::mutex> l(m);
    return pick(n);
}

void event(const char *what, const void *obj, long value, const char *type)
{
    Quiet q;
    std::unique_lock<std::mutex> l(m);
    if (nevents++ > 20000)
        return;
    char buf[160];
    snprintf(buf, sizeof buf, "%s[%d,\"%s\",%d,%ld,\"%s\"]", events.empty() ? "" : ",", me, what, obj ? name_of(obj) : 0, value, type);
    events += buf;
}

std::string trace()
{
    Quiet q;
    std::unique_lock<std::mutex> l(m);
    return "[" + (nevents > 20000 ? std::string() : events) + "]";
}

void block_until(const std::function<bool()> &ready)
{
    Quiet q;
    if (me < 0)
        return;
    std::unique_lock<std::mutex> l(m);
    if (ready())
        return;
    ts[me]->ready = ready;
    switch_to(l, next());
    ts[me]->ready = nullptr;
    since_progress = 0;
}

long spawn(const std::function<void()> &f)
{
    Quiet q;
    long id;
    {
        std::unique_lock<std::mutex> l(m);
        id = ts.size();
        ts.emplace_back(new T);
        ts[id]->priority = pick(1000);
        since_progress = 0;
    }
    std::thread([id, f] {
        {
            std::unique_lock<std::mutex> l(m);
            me = id;
            ts[id]->cv.wait(l, [id] { return current == (int)id; });
        }
        f();
        Quiet q;
        std::unique_lock<std::mutex> l(m);
        ts[id]->done = true;
        if (held_thread == (int)id)
            held_thread = -1;
        since_progress = 0;
        int n = next();
        current = n;
        ts[n]->cv.notify_one();
        me = -1;
    }).detach();
    return id;
}

bool finished(long id)
{
    return ts[id]->done;
}

void lock_world() { world.lock(); }
void unlock_world() { world.unlock(); }
}

// ------------------------------------------------------------------ calls of functions of the repository
// Not while the thread holds a real lock of some library: another thread could wait for it.
namespace {
thread_local int real_locks = 0;
thread_local bool inside = false;

void call_point()
{
    if (sched::me < 0 || !sched::fine || real_locks > 0 || inside)
        return;
    inside = true;
    sched::point(sched::CALL, nullptr);
    inside = false;
}

// Memory that several threads have used and one of them has written to is where it matters who comes first. What is known about
// an address is forgotten when another one needs its place.
struct Use {
    uintptr_t at;
    int thread;
    bool several, written;
};
Use uses[1 << 18];
long countdown = 1000;

inline void access(const void *p, bool write)
{
    if (sched::me < 0 || !sched::memory || real_locks > 0 || inside || sched::quiet > 0)
        return;
    uintptr_t at = reinterpret_cast<uintptr_t>(p) >> 3;
    Use &u = uses[(at * 0x9e3779b97f4a7c15ul) >> 46];
    if (u.at != at)
        u = {at, sched::me, false, false};
    u.several |= u.thread != sched::me;
    u.written |= write;
    bool matters = u.several && u.written;
    if (!matters && --countdown > 0)
        return;
    if (sched::memory_left <= 0)
        return;
    inside = true;
    if (!matters)
        countdown = 1 + sched::choose(2 * sched::memory_in);
    sched::point(sched::MEMORY, matters ? p : nullptr);
    inside = false;
}

template <class F> F real(const char *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}

extern "C" {
void __cyg_profile_func_enter(void *, void *) { call_point(); }
void __cyg_profile_func_exit(void *, void *) { call_point(); }

int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    real_locks++;
    return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    int r = f(m);
    real_locks += r == 0;
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    real_locks--;
    return f(m);
}
int __cxa_guard_acquire(long long *g) noexcept
{
    static void *f = dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    int r = reinterpret_cast<int (*)(long long *)>(f)(g);
    real_locks += r != 0;
    return r;
}
void __cxa_guard_release(long long *g) noexcept
{
    static void *f = dlsym(RTLD_NEXT, "__cxa_guard_release");
    real_locks--;
    reinterpret_cast<void (*)(long long *)>(f)(g);
}

// What -fsanitize=thread puts into the code, without its library
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void **p) { access(p, false); }
void __tsan_vptr_update(void **p, void *) { access(p, true); }
void __tsan_read_range(void *p, unsigned long) { access(p, false); }
void __tsan_write_range(void *p, unsigned long) { access(p, true); }
#define SIZE(n)                                                                                                                \
    void __tsan_read##n(void *p) { access(p, false); }                                                                         \
    void __tsan_write##n(void *p) { access(p, true); }                                                                         \
    void __tsan_unaligned_read##n(void *p) { access(p, false); }                                                               \
    void __tsan_unaligned_write##n(void *p) { access(p, true); }                                                               \
    void __tsan_volatile_read##n(void *p) { access(p, false); }                                                                \
    void __tsan_volatile_write##n(void *p) { access(p, true); }
SIZE(1) SIZE(2) SIZE(4) SIZE(8) SIZE(16)
#define ATOMIC(n, T)                                                                                                           \
    T __tsan_atomic##n##_load(const volatile T *p, int) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }                       \
    void __tsan_atomic##n##_store(volatile T *p, T x, int) { __atomic_store_n(p, x, __ATOMIC_SEQ_CST); }                       \
    T __tsan_atomic##n##_exchange(volatile T *p, T x, int) { return __atomic_exchange_n(p, x, __ATOMIC_SEQ_CST); }             \
    T __tsan_atomic##n##_fetch_add(volatile T *p, T x, int) { return __atomic_fetch_add(p, x, __ATOMIC_SEQ_CST); }             \
    T __tsan_atomic##n##_fetch_sub(volatile T *p, T x, int) { return __atomic_fetch_sub(p, x, __ATOMIC_SEQ_CST); }             \
    T __tsan_atomic##n##_fetch_and(volatile T *p, T x, int) { return __atomic_fetch_and(p, x, __ATOMIC_SEQ_CST); }             \
    T __tsan_atomic##n##_fetch_or(volatile T *p, T x, int) { return __atomic_fetch_or(p, x, __ATOMIC_SEQ_CST); }               \
    T __tsan_atomic##n##_fetch_xor(volatile T *p, T x, int) { return __atomic_fetch_xor(p, x, __ATOMIC_SEQ_CST); }             \
    T __tsan_atomic##n##_fetch_nand(volatile T *p, T x, int) { return __atomic_fetch_nand(p, x, __ATOMIC_SEQ_CST); }           \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T x, int, int)                                         \
    {                                                                                                                          \
        return __atomic_compare_exchange_n(p, e, x, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
    }                                                                                                                          \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T x, int a, int b)                                       \
    {                                                                                                                          \
        return __tsan_atomic##n##_compare_exchange_strong(p, e, x, a, b);                                                      \
    }                                                                                                                          \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T x, int, int)                                               \
    {                                                                                                                          \
        __atomic_compare_exchange_n(p, &e, x, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                      \
        return e;                                                                                                              \
    }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
