// C21: parallel work queues run every job once and hand results over in order
#include "pbt.hpp"

#include <bits/stdc++.h>
#include <unistd.h>

#include "numeric/dense.hpp" // idx_t

#ifdef C21_SCHEDULES
# include "sched.hpp"
# define std sched_std
# include "detail/thread.hpp"
# undef std
namespace tp = sched_std;
#else
# include "detail/thread.hpp"
namespace tp = std;
extern "C" char const* __tsan_default_options() { return "halt_on_error=1:abort_on_error=1:handle_abort=0:report_signal_unsafe=0"; }
#endif

using pbt::Src;
using pbt::Ctx;

namespace {

/// Lets other threads go ahead for a while
class Pauses {
    std::uint64_t seed;
    int kind;
public:
    explicit Pauses(Src& s) : seed(std::uint64_t(s.range(0, 1 << 20))), kind(s.range(0, 3)) {}
    void operator()(int a, int b) const {
#ifdef C21_SCHEDULES
        (void)a; (void)b;
        sched::point();
#else
        auto x = (seed + std::uint64_t(a) * 7919 + std::uint64_t(b) * 104729 + 1) * 0x9e3779b97f4a7c15ull;
        x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29;
        switch (kind == 0 ? 0 : x % 4) {
            case 0: return;
            case 1: std::this_thread::yield(); return;
            case 2: std::this_thread::sleep_for(std::chrono::microseconds((x >> 8) % (kind == 3 ? 400 : 60))); return;
            default: for (auto volatile i = 0; i < int((x >> 8) % 3000); i = i + 1) {}
        }
#endif
    }
};

std::atomic<int> live_values{0};

/// Handed from stage to stage; counts its instances
struct Value {
    int id = -1;
    std::vector<int> trail; ///< what happened to it
    Value() { ++live_values; }
    explicit Value(int id) : id(id) { ++live_values; }
    Value(Value const& o) : id(o.id), trail(o.trail) { ++live_values; }
    Value(Value&& o) : id(o.id), trail(std::move(o.trail)) { ++live_values; o.id = -2; }
    Value& operator=(Value const&) = default;
    Value& operator=(Value&& o) { id = o.id; trail = std::move(o.trail); o.id = -2; return *this; }
    ~Value() { --live_values; }
};

/// The first thing that went wrong in any thread (exceptions may not leave them)
class Faults {
    std::mutex m;
    std::string text;
public:
    void check(bool ok, std::string const& what) {
        if (ok) { return; }
        std::lock_guard<std::mutex> lk(m);
        if (text.empty()) { text = what; }
    }
    void rethrow() {
        std::lock_guard<std::mutex> lk(m);
        if (!text.empty()) { pbt::fail(text); }
    }
};

void execute(Src& s, Ctx& ctx, std::function<void()> body) {
#ifdef C21_SCHEDULES
    auto scheduler = sched::Scheduler(s);
    scheduler.run(body);
    ctx.label(scheduler.num_switches() > 50, "more than 50 context switches");
#else
    (void)s; (void)ctx;
    alarm(30); // nothing takes that long unless it hangs
    body();
    alarm(0);
#endif
}

void parallel_case(Src& s, Ctx& ctx) {
    auto const size = s.range(0, ctx.thorough ? 24 : 12), threads = s.range(1, 6), queue = s.range(0, 5);
    auto const pause = Pauses(s);
    ctx.describe([&](std::ostream& os) { os << "parallel_for with " << size << " jobs, " << threads << " threads, queue size " << queue << "\n"; });
    // not atomic: each job's stages must not overlap
    struct Stages { int produced = 0, computed = 0, retired = 0; };
    auto jobs = std::vector<Stages>(size_t(size));
    auto faults = Faults();
    std::atomic<int> producing{0}, retiring{0}, computing{0}, most{0}, produced{0}, started{0};
    auto const capacity = (queue > 0 ? queue : threads) + threads + 1;
    auto const before = live_values.load();
    execute(s, ctx, [&] {
        cpb::parallel_for(size_t(size), size_t(threads), size_t(queue),
            [&](size_t i) {
                faults.check(i < size_t(size), pbt::str("job ", i, " of ", size, " is produced"));
                faults.check(++producing == 1, "two jobs are produced at once");
                pause(1, int(i));
                auto v = Value(int(i));
                v.trail.push_back(1);
                if (i < size_t(size)) { ++jobs[i].produced; }
                --producing;
                auto const ahead = ++produced - started;
                faults.check(ahead <= capacity, pbt::str(ahead, " jobs are waiting: the queue holds more than ", queue));
                return v;
            },
            [&](Value& v) {
                ++started;
                auto const n = ++computing;
                for (auto old = most.load(); n > old && !most.compare_exchange_weak(old, n);) {}
                pause(2, v.id);
                auto const ok = v.id >= 0 && v.id < size && v.trail.size() == 1;
                faults.check(ok, pbt::str("job ", v.id, " is computed after ", v.trail.size(), " other stages"));
                if (ok) {
                    auto& j = jobs[size_t(v.id)];
                    faults.check(j.produced == 1 && j.computed == 0 && j.retired == 0, pbt::str("job ", v.id, " is computed when produced ", j.produced, " computed ", j.computed, " retired ", j.retired));
                    ++j.computed;
                }
                v.trail.push_back(2);
                pause(3, v.id);
                --computing;
            },
            [&](Value v, size_t id) {
                faults.check(++retiring == 1, "two jobs are retired at once");
                auto const ok = id < size_t(size) && v.id == int(id) && v.trail == std::vector<int>{1, 2};
                faults.check(ok, pbt::str("job ", id, " is retired with the value of ", v.id, " after ", v.trail.size(), " other stages"));
                pause(4, int(id));
                if (ok) {
                    auto& j = jobs[id];
                    faults.check(j.produced == 1 && j.computed == 1 && j.retired == 0, pbt::str("job ", id, " is retired when produced ", j.produced, " computed ", j.computed, " retired ", j.retired));
                    ++j.retired;
                }
                --retiring;
            });
        // returns when all is done
        for (auto i = 0; i < size; ++i) {
            auto const& j = jobs[size_t(i)];
            faults.check(j.produced == 1 && j.computed == 1 && j.retired == 1, pbt::str("in the end job ", i, " was produced ", j.produced, " times, computed ", j.computed, " times, retired ", j.retired, " times"));
        }
    });
    faults.rethrow();
    PBT_CHECK(most <= threads, most.load(), " jobs computed at once by ", threads, " threads");
    PBT_CHECK(live_values == before, live_values - before, " values are left over");
    ctx.nontrivial = size > 1 && threads > 1;
    ctx.label("parallel_for");
    ctx.label(most > 1, "parallel_for: computed in parallel");
    ctx.label(size > queue + threads, "parallel_for: more jobs than places");
}

void pool_case(Src& s, Ctx& ctx) {
    auto const threads = s.range(1, 5), jobs = s.range(0, ctx.thorough ? 24 : 12), adders = s.range(0, 2);
    auto const children = s.chance(1, 3);
    auto const end = s.range(0, 2); // join, join twice, destructor
    auto const pause = Pauses(s);
    ctx.describe([&](std::ostream& os) { os << "thread pool of " << threads << ", " << jobs << " jobs added by " << adders << " other threads" << (children ? ", with jobs of their own" : "") << ", end " << end << "\n"; });
    auto count = std::vector<int>(size_t(jobs) * 2, 0);
    std::atomic<int> running{0}, most{0}, done{0};
    auto faults = Faults();
    execute(s, ctx, [&] {
        auto const expected = jobs * (children ? 2 : 1);
        {
            cpb::ThreadPool pool(threads);
            auto job = [&](int i) {
                auto const n = ++running;
                for (auto old = most.load(); n > old && !most.compare_exchange_weak(old, n);) {}
                pause(1, i);
                ++count[size_t(i)];
                pause(2, i);
                --running;
                ++done;
            };
            auto add = [&](int i) {
                if (children) {
                    pool.add([&, i] {
                        pool.add([&, i] { job(jobs + i); });
                        job(i);
                    });
                } else {
                    auto const f = [&, i] { job(i); };
                    pool.add(f);
                }
            };
            if (adders == 0) { for (auto i = 0; i < jobs; ++i) { add(i); pause(3, i); } }
            else {
                auto others = std::vector<tp::thread>();
                for (auto a = 0; a < adders; ++a) {
                    others.push_back(tp::thread([&, a] { for (auto i = a; i < jobs; i += adders) { pause(3, i); add(i); } }));
                }
                for (auto& t : others) { t.join(); }
            }
            if (end < 2) {
                pool.join();
                faults.check(done == expected, pbt::str(done.load(), " of ", expected, " jobs were done when join returned"));
            }
            if (end == 1) { pool.join(); }
        }
        faults.check(done == expected, pbt::str(done.load(), " of ", expected, " jobs were done in the end"));
        for (auto i = 0; i < expected; ++i) { faults.check(count[size_t(i)] == 1, pbt::str("job ", i, " was done ", count[size_t(i)], " times")); }
    });
    faults.rethrow();
    PBT_CHECK(most <= threads, most.load(), " jobs at once in a pool of ", threads);
    ctx.nontrivial = jobs > 1 && threads > 1;
    ctx.label("pool");
    ctx.label(children, "pool: jobs added by jobs");
    ctx.label(end == 2, "pool: destructor waits");
}

void queue_case(Src& s, Ctx& ctx) {
    auto const producers = s.range(1, 3), consumers = s.range(1, 3), items = s.range(0, 6);
    auto const capacity = s.range(0, 4); // 0: no limit
    auto const rounds = s.range(1, 2);
    auto const pause = Pauses(s);
    ctx.describe([&](std::ostream& os) { os << "queue of " << capacity << ", " << producers << " producers of " << items << " elements, " << consumers << " consumers, " << rounds << " rounds\n"; });
    auto faults = Faults();
    auto const before = live_values.load();
    auto received = std::vector<std::vector<Value>>(size_t(consumers));
    std::atomic<int> pushed{0}, popped{0};
    execute(s, ctx, [&] {
        using Queue = cpb::detail::Queue<Value>;
        auto const q = capacity ? std::unique_ptr<Queue>(new Queue(size_t(capacity))) : std::unique_ptr<Queue>(new Queue());
        for (auto round = 0; round < rounds; ++round) { // closed and opened again
            auto threads = std::vector<tp::thread>();
            auto const close_first = round % 2;
            for (auto p = 0; p < producers; ++p) { q->add_producer(); }
            if (close_first) { q->add_producer(); q->remove_producer(); } // still open
            for (auto c = 0; c < consumers; ++c) {
                threads.push_back(tp::thread([&, c] {
                    while (auto maybe = q->pop()) {
                        ++popped;
                        received[size_t(c)].push_back(maybe.get());
                        pause(5, c);
                    }
                }));
            }
            for (auto p = 0; p < producers; ++p) {
                threads.push_back(tp::thread([&, p, round] {
                    for (auto i = 0; i < items; ++i) {
                        auto v = Value((round * producers + p) * 100 + i);
                        v.trail.assign(3, v.id);
                        pause(6, v.id);
                        if (i % 2) { q->push(v); } else { q->push(std::move(v)); }
                        auto const inside = ++pushed - popped - consumers;
                        if (capacity) { faults.check(inside <= capacity, pbt::str("the queue of ", capacity, " holds at least ", inside)); }
                    }
                    q->remove_producer();
                }));
            }
            for (auto& t : threads) { t.join(); }
            faults.check(q->size() == 0, pbt::str(q->size(), " elements are left behind"));
        }
    });
    faults.rethrow();
    auto seen = std::map<int, int>();
    for (auto const& r : received) {
        auto last = std::map<int, int>(); // of each producer
        for (auto const& v : r) {
            PBT_CHECK(v.trail == std::vector<int>(3, v.id), "element ", v.id, " has changed");
            ++seen[v.id];
            auto& l = last.emplace(v.id / 100, -1).first->second;
            PBT_CHECK(v.id % 100 > l, "element ", v.id % 100, " of a producer comes after ", l);
            l = v.id % 100;
        }
    }
    PBT_CHECK(int(seen.size()) == producers * items * rounds, seen.size(), " elements of ", producers * items * rounds, " arrived");
    for (auto const& p : seen) { PBT_CHECK(p.second == 1, "element ", p.first, " arrived ", p.second, " times"); }
    received.clear();
    PBT_CHECK(live_values == before, live_values - before, " values are left over");
    ctx.nontrivial = items > 0 && producers + consumers > 2;
    ctx.label("queue");
    ctx.label(capacity && items * producers > capacity, "queue: producers have to wait");
}

void run(Src& s, Ctx& ctx) {
    switch (s.range(0, 4)) {
        case 0: case 1: return parallel_case(s, ctx);
        case 2: return pool_case(s, ctx);
        default: return queue_case(s, ctx);
    }
}

} // anonymous namespace

namespace pbt {
Property const property = {
    "C21",
    "parallel_for, ThreadPool and Queue with random job, thread and queue counts; once with fibers in place of threads, where every "
    "context switch, wake-up and spurious wake-up is drawn from the case, and once with real threads, random delays and the thread "
    "sanitizer; non-trivial: more than one job and more than one thread which competes for them",
#ifdef C21_SCHEDULES
    3000000, 40000000, run,
#else
    80000, 800000, run,
#endif
    {"control changes hands only at mutexes, condition variables, thread starts and joins, and in the stages (schedules)",
     "jobs do not throw", "at least one thread", "all producers are registered before the first one leaves the queue"},
#ifdef C21_SCHEDULES
    1
#else
    60
#endif
};
}
