// Included before everything else: the standard library and the libraries groot uses as they are, then names for threads,
// atomics and locks that are under the control of runtime.h.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <ratio>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/algorithm/string.hpp>
#include <boost/any.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/bind.hpp>
#include <boost/dynamic_bitset.hpp>
#include <boost/filesystem.hpp>
#include <boost/flyweight.hpp>
#include <boost/flyweight/no_tracking.hpp>
#include <boost/flyweight/serialize.hpp>
#include <boost/functional/hash.hpp>
#include <boost/graph/adj_list_serialize.hpp>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graphviz.hpp>
#include <boost/graph/topological_sort.hpp>
#include <boost/optional.hpp>
#include <boost/range/adaptors.hpp>
#include <boost/ref.hpp>
#include <boost/regex.hpp>
#include <boost/serialization/bitset.hpp>
#include <boost/serialization/optional.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/spirit/include/lex_lexertl.hpp>
#include <nlohmann/json.hpp>
#include <spdlog/async.h>
#include <spdlog/sinks/basic_file_sink.h>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/sinks/stdout_color_sinks.h>
#include <spdlog/spdlog.h>
#include "runtime.h"

namespace std
{
template <class T> class sched_atomic
{
    T v_;
    struct Op {
        sched::Quiet quiet;
        const void *p;
        Op(sched::Kind k, const void *o) : p(o)
        {
            sched::point(k, o);
            if (!sched::managed())
                sched::lock_world();
        }
        ~Op()
        {
            if (!sched::managed())
                sched::unlock_world();
        }
    };
    static long num(const T &x)
    {
        if constexpr (is_convertible<T, long>::value)
            return (long)x;
        else
            return 0;
    }
    template <class F> T change(sched::Kind k, const char *what, F f)
    {
        Op o(k, this);
        T old = v_;
        v_ = f(old);
        bool c = !(memcmp(&old, &v_, sizeof(T)) == 0);
        sched::event(what, this, num(v_), "");
        sched::did(c);
        return old;
    }

  public:
    using value_type = T;
    static constexpr bool is_always_lock_free = false;
    sched_atomic() noexcept : v_() {}
    sched_atomic(T x) noexcept : v_(x) {}
    sched_atomic(const sched_atomic &) = delete;
    sched_atomic &operator=(const sched_atomic &) = delete;
    bool is_lock_free() const { return false; }
    T load(memory_order = memory_order_seq_cst) const
    {
        Op o(sched::LOAD, this);
        T x = v_;
        sched::event("load", this, num(x), "");
        sched::did(false);
        return x;
    }
    void store(T x, memory_order = memory_order_seq_cst)
    {
        change(sched::STORE, "store", [&](T) { return x; });
    }
    operator T() const { return load(); }
    T operator=(T x)
    {
        store(x);
        return x;
    }
    T exchange(T x, memory_order = memory_order_seq_cst)
    {
        return change(sched::RMW, "rmw", [&](T) { return x; });
    }
    bool compare_exchange_strong(T &e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst)
    {
        T want = e;
        bool same = false;
        e = change(sched::RMW, "rmw", [&](T old) {
            same = memcmp(&old, &want, sizeof(T)) == 0;
            return same ? x : old;
        });
        if (same)
            e = want;
        return same;
    }
    bool compare_exchange_weak(T &e, T x, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst)
    {
        return compare_exchange_strong(e, x, a, b);
    }
    template <class U> T fetch_add(U d, memory_order = memory_order_seq_cst)
    {
        return change(sched::RMW, "rmw", [&](T old) { return static_cast<T>(old + d); });
    }
    template <class U> T fetch_sub(U d, memory_order = memory_order_seq_cst)
    {
        return change(sched::RMW, "rmw", [&](T old) { return static_cast<T>(old - d); });
    }
    template <class U> T fetch_or(U d, memory_order = memory_order_seq_cst)
    {
        return change(sched::RMW, "rmw", [&](T old) { return static_cast<T>(old | d); });
    }
    template <class U> T fetch_and(U d, memory_order = memory_order_seq_cst)
    {
        return change(sched::RMW, "rmw", [&](T old) { return static_cast<T>(old & d); });
    }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    template <class U> T operator+=(U d) { return fetch_add(d) + d; }
    template <class U> T operator-=(U d) { return fetch_sub(d) - d; }
    template <class U> T operator|=(U d) { return fetch_or(d) | d; }
    template <class U> T operator&=(U d) { return fetch_and(d) & d; }
};

class sched_atomic_flag
{
    sched_atomic<bool> v_;

  public:
    sched_atomic_flag() : v_(false) {}
    sched_atomic_flag(int) : v_(false) {}
    bool test_and_set(memory_order = memory_order_seq_cst) { return v_.exchange(true); }
    void clear(memory_order = memory_order_seq_cst) { v_.store(false); }
};

// A lock; real for threads that are not under control
class sched_mutex
{
    int owner_ = -1; // -1: free
    int depth_ = 0;
    recursive_mutex real_;

  public:
    bool try_lock()
    {
        sched::Quiet quiet;
        if (!sched::managed())
            return real_.try_lock();
        sched::point(sched::LOCK, this);
        if (owner_ != -1 && owner_ != sched::self()) {
            sched::did(false);
            return false;
        }
        owner_ = sched::self();
        depth_++;
        sched::did(true);
        return true;
    }
    void lock()
    {
        sched::Quiet quiet;
        if (!sched::managed()) {
            real_.lock();
            return;
        }
        sched::point(sched::LOCK, this);
        int me = sched::self();
        sched::block_until([this, me] { return owner_ == -1 || owner_ == me; });
        owner_ = me;
        depth_++;
        sched::did(true);
    }
    void unlock()
    {
        sched::Quiet quiet;
        if (!sched::managed()) {
            real_.unlock();
            return;
        }
        if (--depth_ == 0)
            owner_ = -1;
        sched::point(sched::LOCK, this);
    }
    void lock_shared() { lock(); }
    void unlock_shared() { unlock(); }
    bool try_lock_shared() { return try_lock(); }
};

class sched_condition_variable
{
    unsigned long next_ = 0, woken_ = 0; // tickets

  public:
    void notify_one()
    {
        sched::Quiet quiet;
        sched::point(sched::WAIT, this);
        if (woken_ < next_)
            woken_++;
        sched::did(true);
    }
    void notify_all()
    {
        sched::Quiet quiet;
        sched::point(sched::WAIT, this);
        woken_ = next_;
        sched::did(true);
    }
    template <class L> void wait(L &l)
    {
        sched::Quiet quiet;
        unsigned long mine = ++next_;
        l.unlock();
        sched::block_until([this, mine] { return woken_ >= mine; });
        l.lock();
    }
    template <class L, class P> void wait(L &l, P p)
    {
        while (!p())
            wait(l);
    }
    // time passes as the scheduler likes
    template <class L, class D> cv_status wait_for(L &l, const D &)
    {
        sched::Quiet quiet;
        l.unlock();
        sched::point(sched::YIELD, this);
        sched::did(false);
        l.lock();
        return sched::choose(2) ? cv_status::timeout : cv_status::no_timeout;
    }
    template <class L, class D, class P> bool wait_for(L &l, const D &d, P p)
    {
        if (!p())
            wait_for(l, d);
        return p();
    }
    template <class L, class D> cv_status wait_until(L &l, const D &d) { return wait_for(l, d); }
    template <class L, class D, class P> bool wait_until(L &l, const D &d, P p) { return wait_for(l, d, p); }
};

class sched_thread
{
    long id_ = -1;
    thread real_;

  public:
    using id = long;
    sched_thread() noexcept {}
    template <class F, class... A, class = enable_if_t<!is_same<decay_t<F>, sched_thread>::value>> explicit sched_thread(F &&f, A &&...a)
    {
        sched::Quiet quiet;
        auto call = make_shared<function<void()>>(
            [g = make_shared<decay_t<F>>(forward<F>(f)), t = make_shared<tuple<decay_t<A>...>>(forward<A>(a)...)] { apply(*g, move(*t)); });
        if (!sched::managed()) {
            real_ = thread([call] { (*call)(); });
            return;
        }
        id_ = sched::spawn([call] { (*call)(); });
        sched::event("create", nullptr, id_, "");
        sched::point(sched::CREATE, this);
        sched::did(true);
    }
    sched_thread(sched_thread &&o) noexcept : id_(o.id_), real_(move(o.real_)) { o.id_ = -1; }
    sched_thread &operator=(sched_thread &&o) noexcept
    {
        if (joinable())
            terminate();
        id_ = o.id_;
        real_ = move(o.real_);
        o.id_ = -1;
        return *this;
    }
    ~sched_thread()
    {
        if (joinable())
            terminate();
    }
    bool joinable() const noexcept { return id_ >= 0 || real_.joinable(); }
    void join()
    {
        sched::Quiet quiet;
        if (real_.joinable()) {
            real_.join();
            return;
        }
        sched::point(sched::JOIN, this);
        long i = id_;
        sched::block_until([i] { return sched::finished(i); });
        sched::event("join", nullptr, id_, "");
        id_ = -1;
        sched::did(true);
    }
    void detach()
    {
        sched::Quiet quiet;
        if (real_.joinable())
            real_.detach();
        id_ = -1;
    }
    long get_id() const { return id_; }
    static unsigned hardware_concurrency() { return 8; }
    void swap(sched_thread &o)
    {
        std::swap(id_, o.id_);
        real_.swap(o.real_);
    }
};

namespace sched_this_thread
{
inline void yield()
{
    sched::point(sched::YIELD, nullptr);
    sched::did(false);
}
template <class D> void sleep_for(const D &)
{
    yield();
}
template <class D> void sleep_until(const D &)
{
    yield();
}
inline long get_id() { return sched::self(); }
}
}

#define thread sched_thread
#define this_thread sched_this_thread
#define atomic sched_atomic
#define atomic_bool sched_atomic<bool>
#define atomic_int sched_atomic<int>
#define atomic_long sched_atomic<long>
#define atomic_size_t sched_atomic<size_t>
#define atomic_flag sched_atomic_flag
#define mutex sched_mutex
#define recursive_mutex sched_mutex
#define shared_mutex sched_mutex
#define condition_variable sched_condition_variable
#define condition_variable_any sched_condition_variable
