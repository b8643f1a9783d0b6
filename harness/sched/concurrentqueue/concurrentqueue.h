// A queue with the interface of moodycamel::ConcurrentQueue: items of one producer stay in order, those of different
// producers come in any order; under the control of ../runtime.h.
#pragma once
#include "../runtime.h"
#include <deque>
#include <map>
#include <typeinfo>
#include <vector>

namespace moodycamel
{
struct ConcurrentQueueDefaultTraits {
};
struct ProducerToken {
    template <class Q> explicit ProducerToken(Q &) {}
    bool valid() const { return true; }
};
struct ConsumerToken {
    template <class Q> explicit ConsumerToken(Q &) {}
};

template <class T, class Traits = ConcurrentQueueDefaultTraits> class ConcurrentQueue
{
    std::map<int, std::deque<std::pair<long, T>>> q_;
    long n_ = 0;

    static const char *type()
    {
        std::string s = typeid(T).name();
        return s.find("Task") != std::string::npos ? "task"
               : s.find("json") != std::string::npos ? "json"
               : s.find("Attributes") != std::string::npos || s.find("tuple") != std::string::npos ? "attr" : "other";
    }
    struct Op {
        sched::Quiet quiet;
        Op(sched::Kind k, const void *o)
        {
            sched::point(k, o);
            if (!sched::managed())
                sched::lock_world();
        }
        ~Op()
        {
            if (!sched::managed())
                sched::unlock_world();
        }
    };
    template <class U> void put(U &&x)
    {
        q_[sched::self()].emplace_back(++n_, T(std::forward<U>(x)));
        sched::event("put", this, n_, type());
    }
    template <class U> bool take(U &x)
    {
        std::vector<int> from;
        for (auto &p : q_)
            if (!p.second.empty())
                from.push_back(p.first);
        if (from.empty()) {
            sched::event("none", this, 0, type());
            return false;
        }
        auto &d = q_[from[sched::choose(from.size())]];
        long id = d.front().first;
        x = std::move(d.front().second);
        d.pop_front();
        sched::event("take", this, id, type());
        return true;
    }

  public:
    using producer_token_t = ProducerToken;
    using consumer_token_t = ConsumerToken;
    explicit ConcurrentQueue(size_t = 0) {}
    ConcurrentQueue(size_t, size_t, size_t) {}
    ConcurrentQueue(ConcurrentQueue &&) = default;
    ConcurrentQueue &operator=(ConcurrentQueue &&) = default;
    void swap(ConcurrentQueue &o) { std::swap(q_, o.q_); }

    template <class U> bool enqueue(U &&x)
    {
        Op o(sched::ENQUEUE, this);
        put(std::forward<U>(x));
        sched::did(true);
        return true;
    }
    bool enqueue(T &&x)
    {
        Op o(sched::ENQUEUE, this);
        put(std::move(x));
        sched::did(true);
        return true;
    }
    template <class U> bool enqueue(const ProducerToken &, U &&x) { return enqueue(std::forward<U>(x)); }
    template <class U> bool try_enqueue(U &&x) { return enqueue(std::forward<U>(x)); }
    template <class U> bool try_enqueue(const ProducerToken &, U &&x) { return enqueue(std::forward<U>(x)); }
    template <class It> bool enqueue_bulk(It it, size_t n)
    {
        Op o(sched::ENQUEUE, this);
        for (; n; --n, ++it)
            put(*it);
        sched::did(true);
        return true;
    }
    template <class It> bool enqueue_bulk(const ProducerToken &, It it, size_t n) { return enqueue_bulk(it, n); }
    template <class U> bool try_dequeue(U &x)
    {
        Op o(sched::DEQUEUE, this);
        bool ok = take(x);
        sched::did(ok);
        return ok;
    }
    template <class U> bool try_dequeue_non_interleaved(U &x) { return try_dequeue(x); }
    template <class U> bool try_dequeue(ConsumerToken &, U &x) { return try_dequeue(x); }
    template <class U> bool try_dequeue_from_producer(const ProducerToken &, U &x) { return try_dequeue(x); }
    template <class It> size_t try_dequeue_bulk(It it, size_t max)
    {
        Op o(sched::DEQUEUE, this);
        size_t n = 0;
        T x;
        while (n < max && take(x)) {
            *it = std::move(x);
            ++it;
            ++n;
        }
        sched::did(n > 0);
        return n;
    }
    template <class It> size_t try_dequeue_bulk(ConsumerToken &, It it, size_t max) { return try_dequeue_bulk(it, max); }
    size_t size_approx() const
    {
        Op o(sched::SIZE, this);
        size_t n = 0;
        for (auto &p : q_)
            n += p.second.size();
        sched::did(false);
        return n;
    }
    static constexpr bool is_lock_free() { return false; }
};
}
