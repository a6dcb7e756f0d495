// Monitors for the thread schedulers: exactly-once execution, worker limits, lifecycle.
#include "vh.hpp"
#include <pion/scheduler.hpp>
#include <memory>
#include <thread>
#include <condition_variable>
#include <sched.h>
using namespace vh;

typedef std::shared_ptr<pion::scheduler> SP;
static const double LIMIT = 30; // seconds a step may take before it counts as hanging

static SP make_sched(Rng& r, int& threads, bool& one) {
    one = r.chance(50); threads = r.chance(25) ? 1 : (int)r.range(1, 8);
    SP s; if (one) s.reset(new pion::one_to_one_scheduler); else s.reset(new pion::single_service_scheduler);
    s->set_num_threads(threads);
    return s;
}
static bool wait_for(const std::function<bool()>& f, double limit = LIMIT) { for (int n = 0; n < 200; ++n) { if (f()) return true; sched_yield(); } return wait_until(f, limit); }
// runs f in its own thread and waits for it; false (and the thread is abandoned) if it hangs
static bool returns(const std::function<void()>& f, double limit = LIMIT) {
    std::shared_ptr<std::atomic<bool> > done(new std::atomic<bool>(false));
    std::thread t([f, done]() { f(); *done = true; });
    bool ok = wait_for([done]() { return done->load(); }, limit);
    if (ok) t.join(); else t.detach();
    return ok;
}

// Log of what ran: one slot per task, plus which threads ran anything and how many at a time.
struct Log {
    std::vector<std::atomic<int> > ran; std::atomic<int> total, inside, max_inside; std::mutex m; std::set<std::thread::id> threads; std::atomic<uint64_t> order; std::atomic<int> nested_posts;
    explicit Log(size_t n) : ran(n), total(0), inside(0), max_inside(0), order(1), nested_posts(0) { for (auto& x : ran) x = 0; }
};
struct Task {
    std::shared_ptr<Log> l; pion::scheduler *s; int id; int kind; std::vector<int> children; uint64_t seed;
    void operator()() const {
        int k = ++l->inside; int mx = l->max_inside; while (k > mx && !l->max_inside.compare_exchange_weak(mx, k)) {}
        { std::lock_guard<std::mutex> g(l->m); l->threads.insert(std::this_thread::get_id()); l->order = mix64(l->order ^ id); }
        for (int c : children) { Task t; t.l = l; t.s = s; t.id = c; t.kind = 0; t.seed = seed + c; s->post(t); ++l->nested_posts; }
        if (kind == 1) sched_yield();
        if (kind == 2) usleep(mix64(seed) % 200);
        ++l->ran[id]; --l->inside; ++l->total;
        if (kind == 3) throw std::runtime_error("task failed");
        if (kind == 4) throw 42;
        if (kind == 5) throw std::string("odd");
    }
};

static void storm(Ctx& c, int max_tasks) {
    Rng& r = c.rng; int threads; bool one;
    SP s = make_sched(r, threads, one);
    int rounds = (int)r.range(1, 3);
    for (int round = 0; round < rounds; ++round) {
        int posters = (int)r.range(1, 6), per = (int)r.range(1, max_tasks), nch = r.chance(50) ? 0 : (int)r.range(1, 3);
        size_t n = (size_t)posters * per * (1 + nch);
        std::shared_ptr<Log> l(new Log(n));
        bool throwing = r.chance(50); uint64_t sd = r.next();
        if (r.chance(50)) s->startup();
        s->add_active_user();
        CHECK(c, s->is_running(), "not-running-with-user", "");
        std::vector<std::thread> ps; std::set<std::thread::id> pids; std::mutex pm; std::atomic<int> posted(0);
        for (int p = 0; p < posters; ++p) ps.push_back(std::thread([&, p]() {
            { std::lock_guard<std::mutex> g(pm); pids.insert(std::this_thread::get_id()); }
            Rng q(sd + p);
            for (int i = 0; i < per; ++i) {
                Task t; t.l = l; t.s = s.get(); t.id = (p * per + i) * (1 + nch); t.seed = q.next();
                t.kind = q.chance(60) ? 0 : throwing ? (int)q.range(1, 5) : (int)q.range(1, 2);
                for (int k = 1; k <= nch; ++k) t.children.push_back(t.id + k);
                s->post(t); ++posted;
                if (q.chance(10)) sched_yield();
            }
        }));
        for (auto& t : ps) t.join();
        bool all = wait_for([&]() { return (size_t)l->total.load() >= n; });
        if (!all) { c.hang("posted-work-never-ran", std::string(one ? "one_to_one" : "single") + " threads=" + std::to_string(threads) + " ran " + std::to_string(l->total.load()) + " of " + std::to_string(n)); bail(); }
        // thread ids are only unique among live threads: compare with posters by count and limits
        CHECK(c, l->max_inside <= threads, "more-workers-than-configured", "concurrent=" + std::to_string(l->max_inside.load()) + " configured=" + std::to_string(threads));
        CHECK(c, (int)l->threads.size() <= threads, "more-workers-than-configured", "threads seen=" + std::to_string(l->threads.size()) + " configured=" + std::to_string(threads));
        CHECK(c, !l->threads.count(std::this_thread::get_id()), "ran-on-caller", "");
        s->remove_active_user();
        bool stop = r.chance(60) || round + 1 == rounds;
        if (stop) { SP k = s; if (!returns([k]() { k->shutdown(); })) { c.hang("shutdown-hangs", ""); bail(); } }
        for (size_t i = 0; i < n; ++i) CHECK(c, l->ran[i] == 1, l->ran[i] ? "task-ran-twice" : "task-lost", "task " + std::to_string(i) + " ran " + std::to_string(l->ran[i].load()));
        c.count("tasks", n); c.count("nested_posts", l->nested_posts); c.count(one ? "one_to_one_rounds" : "single_service_rounds"); if (throwing) c.count("rounds_with_throwing_tasks");
        if (round) c.count("rounds_after_restart_or_reuse");
        if (l->max_inside > 1) c.count("rounds_with_parallel_workers");
        c.distinct(l->order.load());
        c.sample(std::string(one ? "one_to_one" : "single_service") + " threads=" + std::to_string(threads) + " posters=" + std::to_string(posters) + " tasks=" + std::to_string(n));
    }
}
SCENARIO("P16", "storm", 800, 12000) { storm(c, 60); }
SCENARIO("P16", "storm_large", 40, 600) { storm(c, 2000); }

// more tasks than workers block at once: exactly the configured number of workers serves them
SCENARIO("P16", "worker_count", 200, 3000) {
    Rng& r = c.rng; int threads; bool one; SP s = make_sched(r, threads, one);
    s->add_active_user();
    struct Gate { std::mutex m; std::condition_variable cv; bool open; int in; int max; int done; Gate() : open(false), in(0), max(0), done(0) {} };
    std::shared_ptr<Gate> g(new Gate); int n = threads * 2 + 2;
    for (int i = 0; i < n; ++i) s->post([g]() {
        std::unique_lock<std::mutex> l(g->m); ++g->in; g->max = std::max(g->max, g->in);
        g->cv.wait(l, [&]() { return g->open; }); --g->in; ++g->done; });
    bool full = wait_for([&]() { std::lock_guard<std::mutex> l(g->m); return g->in >= threads; });
    usleep(500);
    int mx; { std::lock_guard<std::mutex> l(g->m); mx = g->max; g->open = true; } g->cv.notify_all();
    if (!full) { c.hang("workers-missing", "in=" + std::to_string(mx) + " threads=" + std::to_string(threads) + (one ? " one_to_one" : " single")); bail(); }
    if (!wait_for([&]() { std::lock_guard<std::mutex> l(g->m); return g->done == n; })) { c.hang("posted-work-never-ran", ""); bail(); }
    CHECK(c, mx <= threads, "more-workers-than-configured", std::to_string(mx) + ">" + std::to_string(threads));
    s->remove_active_user(); s->shutdown();
    c.count("full_worker_pools"); c.distinct(threads * 2 + one);
}
// workers stay available after being idle for longer than the keep-alive period
SCENARIO("P16", "long_idle", 8, 16) {
    Rng& r = c.rng; int threads; bool one; SP s = make_sched(r, threads, one);
    s->add_active_user();
    if (r.chance(50)) { s->remove_active_user(); s->shutdown(); s->add_active_user(); }
    struct timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
    usleep(G().tier == "thorough" ? 11500000 : 6300000);
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
    double cpu = (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9;
    std::shared_ptr<std::atomic<int> > n(new std::atomic<int>(0));
    for (int i = 0; i < threads * 3; ++i) s->post([n]() { ++*n; });
    if (!wait_for([&]() { return *n == threads * 3; })) { c.hang("posted-work-never-ran", std::string("after idling ") + (one ? "one_to_one" : "single")); bail(); }
    CHECK(c, cpu < 2.0, "idle-scheduler-busy", "cpu " + std::to_string(cpu));
    s->remove_active_user(); s->shutdown(); c.count("long_idles"); c.distinct(threads * 2 + one);
}
static double real_now() { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
SCENARIO("P16", "sleep", 60, 600) {
    Rng& r = c.rng;
    for (int i = 0; i < 6; ++i) {
        uint32_t sec = i == 0 && c.index % 8 == 0 ? 1 : 0, ns = (uint32_t)(r.chance(50) ? r.below(3000000) : r.below(40000000)); if (r.chance(10)) ns = 0;
        if (c.index % 8 == 1 && i == 0) ns = 999999000;
        double want = sec + ns * 1e-9, t0 = now(), w0 = real_now();
        pion::scheduler::sleep(sec, ns);
        double dt = now() - t0, dw = real_now() - w0;
        CHECK(c, std::max(dt, dw) >= want - 3e-6, "sleep-too-short", std::to_string(dt) + " < " + std::to_string(want));
        CHECK(c, dt < want + 20, "sleep-too-long", std::to_string(dt));
        c.count("sleeps"); c.distinct(ns);
    }
    // woken early by the condition
    boost::mutex m; boost::condition cv; boost::mutex::scoped_lock l(m);
    std::thread t([&]() { usleep(1000); boost::mutex::scoped_lock k(m); cv.notify_all(); });
    double t0 = now();
    pion::scheduler::sleep(cv, l, 20, 0);
    double dt = now() - t0; l.unlock(); t.join();
    if (dt > 10) { c.hang("wakeup-ignored", std::to_string(dt)); return; }
    // not woken: sleeps for the time (a spurious wake-up is legal, two in a row are not plausible)
    int early = 0; for (int i = 0; i < 3; ++i) { boost::mutex::scoped_lock k(m); uint32_t ns = (uint32_t)r.below(5000000); double t1 = now(), w1 = real_now(); pion::scheduler::sleep(cv, k, 0, ns); if (std::max(now() - t1, real_now() - w1) < ns * 1e-9 - 3e-6) ++early; c.count("condition_sleeps"); }
    CHECK(c, early < 2, "condition-sleep-too-short", std::to_string(early));
}

// ---------------------------------------------------------------- P17
SCENARIO("P17", "history", 600, 10000) {
    Rng& r = c.rng; int threads; bool one; SP s = make_sched(r, threads, one);
    bool running = false; int users = 0; uint64_t h = one; int restarts = 0;
    int steps = (int)r.range(5, 40);
    for (int i = 0; i < steps; ++i) {
        int op = (int)r.below(8); h = mix64(h ^ op); pion::scheduler *p = s.get(); bool ok = true;
        switch (op) {
            case 0: case 1: ok = returns([p]() { p->startup(); }); if (!running) ++restarts; running = true; break;
            case 2: ok = returns([p]() { p->add_active_user(); }); ++users; if (!running) ++restarts; running = true; break;
            case 3: if (users) { p->remove_active_user(); --users; } break;
            case 4: case 5: if (!users) { ok = returns([p]() { p->shutdown(); }); running = false; }
                else { // a user is active: shutdown must wait for it
                    std::shared_ptr<std::atomic<bool> > d(new std::atomic<bool>(false)); SP k = s;
                    std::thread t([k, d]() { k->shutdown(); *d = true; });
                    usleep(300 + (useconds_t)r.below(1500));
                    bool early = d->load(); std::shared_ptr<std::atomic<int> > n(new std::atomic<int>(0));
                    if (!early) { p->post([n]() { ++*n; }); bool ran = wait_for([&]() { return *n == 1; }); if (!ran) { c.hang("work-stuck-while-user-active", ""); bail(); } }
                    early = early || d->load();
                    while (users) { p->remove_active_user(); --users; }
                    bool fin = wait_for([&]() { return d->load(); });
                    if (!fin) { c.hang("shutdown-hangs", "after last user left"); bail(); }
                    t.join(); running = false; c.count("shutdowns_that_waited");
                    CHECK(c, !early, "shutdown-did-not-wait-for-users", "");
                } break;
            case 6: if (running) {
                    std::shared_ptr<std::atomic<int> > n(new std::atomic<int>(0)); int k = (int)r.range(1, 20); bool thr = r.chance(30);
                    for (int j = 0; j < k; ++j) p->post([n, thr]() { ++*n; if (thr) throw std::runtime_error("x"); });
                    if (!wait_for([&]() { return *n == k; })) { c.hang("posted-work-never-ran", "restarts=" + std::to_string(restarts) + (one ? " one_to_one" : " single")); bail(); }
                    c.count("tasks", k); if (restarts > 1) c.count("tasks_after_restart", k);
                } break;
            default: if (!running) { ok = returns([p]() { p->join(); }); c.count("joins"); }
                else if (!users) { std::shared_ptr<std::atomic<bool> > d(new std::atomic<bool>(false)); SP k = s; std::thread t([k, d]() { k->join(); *d = true; });
                    usleep(200 + (useconds_t)r.below(800)); bool early = d->load(); p->shutdown(); running = false;
                    bool fin = wait_for([&]() { return d->load(); }); if (!fin) { c.hang("join-hangs", ""); bail(); }
                    t.join(); CHECK(c, !early, "join-returned-before-shutdown", ""); c.count("joins_waiting"); } break;
        }
        if (!ok) { c.hang("lifecycle-call-hangs", "op " + std::to_string(op)); bail(); }
        CHECK(c, s->is_running() == running, "running-state-wrong", "op " + std::to_string(op) + " is_running=" + std::to_string(s->is_running()));
        c.count("lifecycle_calls");
    }
    // a restarted, idle scheduler must not spin
    if (running && r.chance(30)) {
        double best = 1e9;
        for (int k = 0; k < 3 && best > 0.4; ++k) {
            struct timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); double t0 = now(); usleep(30000);
            clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b); double f = ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9) / (now() - t0); best = std::min(best, f);
        }
        CHECK(c, best < 0.25, "idle-scheduler-busy", "cpu fraction " + std::to_string(best) + " restarts=" + std::to_string(restarts)); c.count("idle_measurements");
    }
    while (users) { s->remove_active_user(); --users; }
    // dropping the last reference shuts it down
    if (!returns([&s]() { s.reset(); })) { c.hang("destructor-hangs", ""); bail(); }
    c.count("histories"); if (restarts > 1) c.count("restarts", restarts - 1); c.distinct(h);
    c.sample(std::string(one ? "one_to_one" : "single_service") + " steps=" + std::to_string(steps) + " restarts=" + std::to_string(restarts));
}
// users come and go in several threads while another keeps shutting down
SCENARIO("P17", "users_vs_shutdown", 300, 5000) {
    Rng& r = c.rng; int threads; bool one; SP s = make_sched(r, threads, one);
    int nu = (int)r.range(2, 5), rounds = (int)r.range(3, 20); uint64_t sd = r.next();
    std::atomic<int> active(nu), stuck(0), ran(0); std::atomic<bool> stopping(false); std::atomic<int> shutdowns(0);
    std::vector<std::thread> us;
    for (int u = 0; u < nu; ++u) us.push_back(std::thread([&, u]() {
        Rng q(sd + u);
        for (int i = 0; i < rounds && !stuck; ++i) {
            s->add_active_user();
            std::shared_ptr<std::atomic<int> > n(new std::atomic<int>(0));
            s->post([n]() { ++*n; });
            if (!wait_for([&]() { return *n == 1; }, 15)) ++stuck; else ++ran;
            s->remove_active_user();
            if (q.chance(40)) usleep((useconds_t)q.below(300));
        }
        --active;
    }));
    std::vector<std::thread> st; int ns = (int)r.range(1, 2);
    for (int k = 0; k < ns; ++k) st.push_back(std::thread([&, k]() { Rng q(sd + 100 + k); while (active > 0 && !stuck) { s->shutdown(); ++shutdowns; if (q.chance(50)) usleep((useconds_t)q.below(500)); } }));
    bool fin = wait_for([&]() { return active == 0; }, 40);
    if (!fin || stuck) { c.hang(stuck ? "user-work-never-ran" : "lifecycle-deadlock", (one ? "one_to_one" : "single") + std::string(" users=") + std::to_string(nu)); bail(); }
    for (auto& t : us) t.join();
    std::atomic<bool> sj(false); std::thread jt([&]() { for (auto& t : st) t.join(); sj = true; });
    if (!wait_for([&]() { return sj.load(); })) { c.hang("shutdown-hangs", ""); bail(); } jt.join();
    SP k = s; if (!returns([k]() { k->shutdown(); })) { c.hang("shutdown-hangs", ""); bail(); }
    CHECK(c, !s->is_running(), "running-after-shutdown", "");
    c.count("user_rounds", ran); c.count("concurrent_shutdowns", shutdowns); c.distinct(mix64(shutdowns * 1000 + ran));
}
// tasks that keep posting while the scheduler is shut down
SCENARIO("P17", "posting_during_shutdown", 300, 5000) {
    Rng& r = c.rng; int threads; bool one; SP s = make_sched(r, threads, one);
    for (int round = 0; round < 3; ++round) {
        s->startup();
        std::shared_ptr<std::atomic<bool> > halt(new std::atomic<bool>(false)); std::shared_ptr<std::atomic<int> > n(new std::atomic<int>(0));
        struct Loop { pion::scheduler *s; std::shared_ptr<std::atomic<bool> > halt; std::shared_ptr<std::atomic<int> > n; void operator()() const { ++*n; if (!*halt) { sched_yield(); s->post(*this); } } };
        for (int i = 0; i < 6; ++i) { Loop lp = { s.get(), halt, n }; s->post(lp); }
        usleep((useconds_t)r.below(500));
        SP k = s; bool ok = returns([k]() { k->shutdown(); });
        *halt = true;
        if (!ok) { c.hang("shutdown-deadlocks-with-posting-task", one ? "one_to_one" : "single"); bail(); }
        int a = *n; usleep(200); CHECK(c, *n == a, "task-ran-after-shutdown", "");
        c.count("shutdowns_under_load"); c.count("tasks", a); c.distinct(mix64(a * 31 + threads));
    }
}
int main(int argc, char **argv) { return vh::run(argc, argv, 0, 150); }
