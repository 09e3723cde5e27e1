// A cooperative scheduler which stands in for std::thread, std::mutex and std::condition_variable.
//
// Every thread is a fiber; only one runs at a time and control changes hands only where a
// thread locks, unlocks, waits, notifies, starts, joins or calls `sched::point()`. What runs
// next is drawn from the test case, so a schedule is generated, replayed and shrunk like any
// other input. A state in which nothing can run is a deadlock.
#pragma once
#include "pbt.hpp"

#include <bits/stdc++.h>
#include <ucontext.h>

namespace sched {

struct Fiber {
    ucontext_t context;
    std::unique_ptr<char[]> stack;
    std::function<void()> body;
    std::function<bool()> waits_for; ///< runs again as soon as this is true (always if empty)
    bool done = false;
    int priority = 0;
};

class Scheduler {
public:
    static Scheduler*& current() { static Scheduler* s = nullptr; return s; }

    explicit Scheduler(pbt::Src& src) : src(src) {
        mode = src.range(0, 2);
        preemption = src.pick({2, 3, 6, 20});
    }

    void run(std::function<void()> body) {
        current() = this;
        spawn(std::move(body));
        active = 0;
        swapcontext(&main_context, &fibers[0]->context);
        current() = nullptr;
        if (error) { std::rethrow_exception(error); }
    }

    int spawn(std::function<void()> body) {
        auto f = std::make_unique<Fiber>();
        static auto const stack_size = size_t{192} * 1024;
        if (spare().empty()) { f->stack.reset(new char[stack_size]); }
        else { f->stack = std::move(spare().back()); spare().pop_back(); }
        f->body = std::move(body);
        f->priority = mode == 2 ? src.range(0, 99) : 0;
        getcontext(&f->context);
        f->context.uc_stack.ss_sp = f->stack.get();
        f->context.uc_stack.ss_size = stack_size;
        f->context.uc_link = nullptr;
        makecontext(&f->context, &Scheduler::trampoline, 0);
        fibers.push_back(std::move(f));
        return int(fibers.size()) - 1;
    }

    ~Scheduler() {
        if (error) { for (auto& f : fibers) { f->stack.release(); } } // some are still in use
        else { for (auto& f : fibers) { spare().push_back(std::move(f->stack)); } }
    }

    bool is_done(int id) const { return fibers[size_t(id)]->done; }
    int self() const { return active; }
    int draw(int n) { return src.range(0, n - 1); }
    long num_points() const { return points; }
    long num_switches() const { return switches; }

    /// Something else may run now
    void point(bool give_way = false) {
        if (++points > 400000) { pbt::fail("does not terminate: too many scheduling points"); }
        next(give_way);
    }

    void wait(std::function<bool()> condition) {
        auto& f = *fibers[size_t(active)];
        f.waits_for = std::move(condition);
        point();
        f.waits_for = nullptr;
    }

private:
    static std::vector<std::unique_ptr<char[]>>& spare() { static std::vector<std::unique_ptr<char[]>> s; return s; }

    static void trampoline() {
        auto& s = *current();
        auto& f = *s.fibers[size_t(s.active)];
        try { f.body(); }
        catch (...) { s.error = std::current_exception(); }
        f.done = true;
        f.body = nullptr;
        if (s.error) { setcontext(&s.main_context); }
        try { s.next(true); }
        catch (...) { s.error = std::current_exception(); }
        setcontext(&s.main_context);
    }

    bool runnable(int id) {
        auto& f = *fibers[size_t(id)];
        return !f.done && (!f.waits_for || f.waits_for());
    }

    void next(bool give_way) {
        auto others = std::vector<int>();
        for (auto i = 0; i < int(fibers.size()); ++i) { if (i != active && runnable(i)) { others.push_back(i); } }
        auto const keep = runnable(active);
        if (others.empty()) {
            if (keep) { return; }
            for (auto const& f : fibers) { if (!f->done) { pbt::fail("deadlock: no thread can run"); } }
            setcontext(&main_context); // all done
        }
        auto to = -1;
        if (mode == 2) { // the highest priority, which sometimes changes
            if (keep && (give_way || src.chance(1, preemption * 3))) { fibers[size_t(active)]->priority = -int(points); }
            to = others[0];
            for (auto i : others) { if (fibers[size_t(i)]->priority > fibers[size_t(to)]->priority) { to = i; } }
            if (keep && !give_way && fibers[size_t(active)]->priority >= fibers[size_t(to)]->priority) { return; }
        } else if (mode == 1) { // uniformly
            if (keep && !give_way) { others.insert(others.begin(), active); }
            to = others[size_t(src.range(0, int(others.size()) - 1))];
            if (to == active) { return; }
        } else { // rarely, unless it has to
            if (keep && !give_way && !src.chance(1, preemption)) { return; }
            to = others[size_t(src.range(0, int(others.size()) - 1))];
        }
        ++switches;
        auto const from = active;
        active = to;
        swapcontext(&fibers[size_t(from)]->context, &fibers[size_t(to)]->context);
    }

    pbt::Src& src;
    int mode = 0, preemption = 2;
    std::vector<std::unique_ptr<Fiber>> fibers;
    int active = -1;
    long points = 0, switches = 0;
    ucontext_t main_context;
    std::exception_ptr error;
};

inline Scheduler& get() {
    if (!Scheduler::current()) { std::fprintf(stderr, "sched: used outside of a scheduler\n"); std::abort(); }
    return *Scheduler::current();
}
inline void point() { get().point(); }

} // namespace sched

/// `std` with some parts replaced
namespace sched_std {
using namespace std;

class mutex {
    int owner = -1;
public:
    mutex() = default;
    mutex(mutex const&) = delete;
    mutex& operator=(mutex const&) = delete;
    void lock() {
        auto& s = sched::get();
        PBT_CHECK(owner != s.self(), "a thread locks a mutex twice");
        s.point();
        if (owner >= 0) { s.wait([this] { return owner < 0; }); }
        owner = s.self();
    }
    bool try_lock() {
        auto& s = sched::get();
        s.point();
        if (owner >= 0) { return false; }
        owner = s.self();
        return true;
    }
    void unlock() {
        auto& s = sched::get();
        if (owner != s.self()) { if (std::uncaught_exceptions()) { return; } pbt::fail("a thread unlocks a mutex which it does not hold"); }
        owner = -1;
        if (!std::uncaught_exceptions()) { s.point(); }
    }
};

class condition_variable {
    struct Waiter { bool notified = false; };
    std::list<Waiter*> waiters;
public:
    condition_variable() = default;
    condition_variable(condition_variable const&) = delete;
    condition_variable& operator=(condition_variable const&) = delete;
    template<class Lock> void wait(Lock& lk) {
        auto& s = sched::get();
        auto w = Waiter();
        waiters.push_back(&w);
        // unlocks and waits in one step: what is notified before is not for this one
        auto const spurious = s.draw(24) == 23;
        lk.unlock();
        if (!spurious) { s.wait([&w] { return w.notified; }); }
        waiters.remove(&w);
        lk.lock();
    }
    template<class Lock, class Pred> void wait(Lock& lk, Pred pred) { while (!pred()) { wait(lk); } }
    template<class Lock, class Time> std::cv_status wait_until(Lock& lk, Time const&) {
        lk.unlock();
        sched::get().point(true);
        lk.lock();
        return std::cv_status::timeout;
    }
    template<class Lock, class Time> std::cv_status wait_for(Lock& lk, Time const& t) { return wait_until(lk, t); }
    template<class Lock, class Time, class Pred> bool wait_until(Lock& lk, Time const& t, Pred pred) {
        while (!pred()) { wait_until(lk, t); }
        return true;
    }
    template<class Lock, class Time, class Pred> bool wait_for(Lock& lk, Time const& t, Pred pred) { return wait_until(lk, t, pred); }
    void notify_one() {
        auto& s = sched::get();
        auto sleeping = std::vector<Waiter*>();
        for (auto w : waiters) { if (!w->notified) { sleeping.push_back(w); } }
        if (!sleeping.empty()) { sleeping[size_t(s.draw(int(sleeping.size())))]->notified = true; }
        s.point();
    }
    void notify_all() {
        for (auto w : waiters) { w->notified = true; }
        sched::get().point();
    }
};
using condition_variable_any = condition_variable;

class thread {
    int id = -1;
public:
    thread() = default;
    template<class F, class... Args, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, thread>::value>::type>
    explicit thread(F&& f, Args&&... args) {
        id = sched::get().spawn(std::bind(std::forward<F>(f), std::forward<Args>(args)...));
        sched::point();
    }
    thread(thread const&) = delete;
    thread(thread&& o) noexcept : id(o.id) { o.id = -1; }
    thread& operator=(thread&& o) {
        PBT_CHECK(!joinable(), "a running thread is assigned to");
        id = o.id;
        o.id = -1;
        return *this;
    }
    ~thread() noexcept(false) { if (joinable() && !std::uncaught_exceptions()) { pbt::fail("a thread is destroyed before it was joined"); } }
    bool joinable() const { return id >= 0; }
    void join() {
        PBT_CHECK(joinable(), "a thread is joined twice");
        auto const n = id;
        sched::get().wait([n] { return sched::get().is_done(n); });
        id = -1;
    }
    void detach() { id = -1; }
    void swap(thread& o) { std::swap(id, o.id); }
    static unsigned hardware_concurrency() { return 4; }
};

namespace this_thread {
inline void yield() { sched::get().point(true); }
template<class T> void sleep_for(T const&) { sched::get().point(true); }
template<class T> void sleep_until(T const&) { sched::get().point(true); }
}
} // namespace sched_std
