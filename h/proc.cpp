// P34 process shutdown / administrative rights, P35 user management.
// The identity calls are replaced by stand-ins over a model of the kernel's rules, so nothing
// here changes the sandbox's identity; the system files read are scratch files.
#include "vh.hpp"
#include <pion/process.hpp>
#include <pion/admin_rights.hpp>
#include <pion/user.hpp>
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#include <openssl/sha.h>
#include <dlfcn.h>
#include <errno.h>
#include <sys/wait.h>
#include <pthread.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#if defined(__SANITIZE_THREAD__)
#define VH_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#endif
using namespace vh;

// ---------------------------------------------------------------- stand-ins
namespace ids {
    std::mutex mu;
    bool on = false;
    uint32_t ru, eu, su, rg, eg, sg;
    bool privileged() { return eu == 0; }
    int fail_next = 0;                 // EPERM for the next calls
    int calls = 0;                     // identity changes asked for
    std::vector<std::pair<char, uint32_t> > log;
    std::string pwfile, grfile;
    int set(char k, uint32_t x) {
        std::lock_guard<std::mutex> l(mu);
        ++calls; log.push_back(std::make_pair(k, x));
        if (fail_next > 0) { --fail_next; errno = EPERM; return -1; }
        if (x == (uint32_t)-1) { errno = EINVAL; return -1; }
        if (k == 'u') { if (!privileged() && x != ru && x != su && x != eu) { errno = EPERM; return -1; } eu = x; }
        else { if (!privileged() && x != rg && x != sg && x != eg) { errno = EPERM; return -1; } eg = x; }
        return 0;
    }
}
template <class F> static F next_fn(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
uid_t geteuid(void) noexcept { if (ids::on) { std::lock_guard<std::mutex> l(ids::mu); return ids::eu; } return next_fn<uid_t (*)()>("geteuid")(); }
gid_t getegid(void) noexcept { if (ids::on) { std::lock_guard<std::mutex> l(ids::mu); return ids::eg; } return next_fn<gid_t (*)()>("getegid")(); }
uid_t getuid(void) noexcept { if (ids::on) { std::lock_guard<std::mutex> l(ids::mu); return ids::ru; } return next_fn<uid_t (*)()>("getuid")(); }
gid_t getgid(void) noexcept { if (ids::on) { std::lock_guard<std::mutex> l(ids::mu); return ids::rg; } return next_fn<gid_t (*)()>("getgid")(); }
int seteuid(uid_t u) noexcept { return ids::set('u', u); }
int setegid(gid_t g) noexcept { return ids::set('g', g); }
int setresuid(uid_t, uid_t e, uid_t) noexcept { return e == (uid_t)-1 ? 0 : ids::set('u', e); }
int setresgid(gid_t, gid_t e, gid_t) noexcept { return e == (gid_t)-1 ? 0 : ids::set('g', e); }
int setreuid(uid_t, uid_t e) noexcept { return e == (uid_t)-1 ? 0 : ids::set('u', e); }
int setregid(gid_t, gid_t e) noexcept { return e == (gid_t)-1 ? 0 : ids::set('g', e); }
int setuid(uid_t u) noexcept { return ids::set('u', u); }
int setgid(gid_t g) noexcept { return ids::set('g', g); }
}
static const char *redirect(const char *p) {
    if (!ids::on || !p) return p;
    if (!strcmp(p, "/etc/passwd")) return ids::pwfile.c_str();
    if (!strcmp(p, "/etc/group")) return ids::grfile.c_str();
    return p;
}
extern "C" FILE *vh_fopen(const char *p, const char *m) __asm__("fopen");
extern "C" FILE *vh_fopen(const char *p, const char *m) {
    static FILE *(*f)(const char*, const char*) = next_fn<FILE *(*)(const char*, const char*)>("fopen");
    return f(redirect(p), m);
}
extern "C" FILE *fopen64(const char *p, const char *m) {
    static FILE *(*f)(const char*, const char*) = next_fn<FILE *(*)(const char*, const char*)>("fopen64");
    return f(redirect(p), m);
}

#ifndef VH_TSAN
// a signal delivered right after this thread has taken its n-th lock
static __thread int tl_lock_signal = 0, tl_signal_no = 0;
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*f)(pthread_mutex_t*) = next_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    int r = f(m);
    if (tl_lock_signal > 0 && --tl_lock_signal == 0) raise(tl_signal_no);
    return r;
}
// ... or right before it wakes others
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) {
    static int (*f)(pthread_cond_t*) = next_fn<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (tl_lock_signal > 0 && --tl_lock_signal == 0) raise(tl_signal_no);
    return f(c);
}
#else
static __thread int tl_lock_signal = 0, tl_signal_no = 0;
#endif

// ---------------------------------------------------------------- P34 shutdown
// process state cannot be reset, so every history runs in a forked child:
// exit 0 ok, 10.. violations, 30.. bounded wait ran out
namespace shut {
    std::atomic<int> requested(0), waiting(0), returned(0), early(0), requests(0);
    void waiter(int delay) {
        if (delay) usleep(delay);
        ++waiting;
        pion::process::wait_for_shutdown();
        if (!requested) ++early;
        ++returned;
    }
    void requester(int delay, int times) {
        if (delay) usleep(delay);
        for (int i = 0; i < times; ++i) { requested = 1; pion::process::shutdown(); ++requests; }
    }
}
struct Shm { std::atomic<int> progress, waiters, returned, requests, signals; };

static int child_history(Rng r, Shm *sh) {
    using namespace shut;
    signal(SIGPROF, SIG_DFL);
    int nw = (int)r.range(1, 5), nr = (int)r.range(0, 3);
    bool sig = nr == 0 || r.chance(60);
    pion::process::initialize();
    std::vector<boost::thread*> th;
    bool quiet = r.chance(60);
    int mode = sig ? (int)r.below(4) : -1;
    // mode 0: plain signal to the process; 1: to this thread; 2: while this thread holds a lock inside the library; 3: burst
    bool wait_here = r.chance(50);
    for (int i = 0; i < nw; ++i) th.push_back(new boost::thread(boost::bind(waiter, r.chance(50) ? 0 : (int)r.below(400))));
    if (quiet) {
        // nobody asked yet: nobody may return
        usleep((useconds_t)r.range(200, 3000));
        if (returned) return 11;
        sh->progress = 1;
    }
    for (int i = 0; i < nr; ++i) th.push_back(new boost::thread(boost::bind(requester, r.chance(50) ? 0 : (int)r.below(600), (int)r.range(1, 3))));
    if (sig) {
        int no = r.chance(50) ? SIGTERM : SIGINT;
        if (r.chance(40)) usleep((useconds_t)r.below(800));
        requested = 1;
        if (mode == 0) { kill(getpid(), no); ++sh->signals; }
        else if (mode == 1) { raise(no); ++sh->signals; }
        else if (mode == 2) {
            tl_signal_no = no; tl_lock_signal = (int)r.range(1, 3); ++sh->signals;
            if (wait_here) { pion::process::wait_for_shutdown(); }
            else pion::process::shutdown();
            if (tl_lock_signal > 0) { tl_lock_signal = 0; raise(no); }
        } else for (int i = 0; i < (int)r.range(2, 6); ++i) { kill(getpid(), i & 1 ? SIGTERM : SIGINT); ++sh->signals; }
    }
    sh->progress = 2;
    if (wait_here) { pion::process::wait_for_shutdown(); if (!requested) return 12; }
    for (size_t i = 0; i < th.size(); ++i) th[i]->join();
    if (early) return 13;
    if (returned != nw) return 14;
    // already requested: further waits and requests return at once
    pion::process::wait_for_shutdown(); pion::process::shutdown(); pion::process::wait_for_shutdown();
    sh->waiters += waiting; sh->returned += returned; sh->requests += requests;
    sh->progress = 3;
    return 0;
}

SCENARIO("P34", "shutdown_histories", 1600, 16000) {
    static Shm *sh = (Shm*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->progress = 0; sh->waiters = 0; sh->returned = 0; sh->requests = 0; sh->signals = 0;
    Rng r(c.rng());
    pid_t p = fork();
    if (p == 0) { arm_cpu(0); _exit(child_history(r, sh)); }
    int st = 0; double t0 = now(); bool done = false;
    done = wait_until([&] { return waitpid(p, &st, WNOHANG) == p; }, 12);
    if (!done) {
        kill(p, SIGKILL); waitpid(p, &st, 0);
        c.hang("shutdown-wait-never-returned", "requested shutdown, but a waiting or requesting call never returned (progress " + std::to_string(sh->progress) + ", signals " + std::to_string(sh->signals) + ")");
        return;
    }
    (void)t0;
    if (WIFSIGNALED(st)) { c.fail("shutdown-killed", "process ended by signal " + std::to_string(WTERMSIG(st)) + " instead of shutting down"); return; }
    int rc = WEXITSTATUS(st);
    if (rc == 11 || rc == 12 || rc == 13) { c.fail("shutdown-wait-returned-early", "wait_for_shutdown returned before shutdown was requested (" + std::to_string(rc) + ")"); return; }
    if (rc) { c.fail("shutdown-history-failed", "child rc " + std::to_string(rc)); return; }
    c.count("shutdown_histories"); c.count("waiters_released", sh->returned); c.count("requests", sh->requests); c.count("signals_delivered", sh->signals);
    c.distinct(mix64(((uint64_t)sh->returned << 24) ^ ((uint64_t)sh->requests << 16) ^ ((uint64_t)sh->signals << 8) ^ r.s));
}

// ---------------------------------------------------------------- P34 daemons
struct Dsm { std::atomic<int> done, bad, again, limit; char what[200]; };
static void daemon_child(Rng r, Dsm *sh) {
    signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL);
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = (rlim_t)r.range(40, 1200); if (rl.rlim_cur > rl.rlim_max) rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl);
    int lim = (int)rl.rlim_cur, n = (int)r.below(12); sh->limit = lim;
    for (int i = 0; i < n; ++i) { int at = (int)r.range(3, lim - 1); int p = open("/dev/zero", O_RDONLY); if (p >= 0 && p != at) { dup2(p, at); if (r.chance(50)) close(p); } }
    if (r.chance(40)) { int p = open("/dev/zero", O_RDONLY); dup2(p, lim - 1); }      // the last one there can be
    for (int i = 0; i < 3; ++i) if (r.chance(25)) close(i);
    umask((mode_t)(r.chance(50) ? 0 : r.below(512)));
    pid_t mine = getpid(), sid = getsid(0);
    pion::process::daemonize();
    // only the daemon comes back, unless the caller was one
    char w[200] = "";
    if (getpid() == mine) snprintf(w, sizeof w, "daemonize returned in the process that called it");
    else if (getsid(0) != getpid() || getpgrp() != getpid() || getsid(0) == sid) snprintf(w, sizeof w, "the daemon is not in a session of its own");
    struct stat nul; stat("/dev/null", &nul);
    for (int i = 0; i <= lim && !w[0]; ++i) {
        struct stat st; bool open_ = fcntl(i, F_GETFD) != -1;
        if (i < 3) { int fl = fcntl(i, F_GETFL); if (!open_ || fstat(i, &st) || st.st_rdev != nul.st_rdev || !S_ISCHR(st.st_mode)) snprintf(w, sizeof w, "standard stream %d is not /dev/null", i); else if ((fl & O_ACCMODE) != O_RDWR) snprintf(w, sizeof w, "standard stream %d is open in mode %d", i, fl & O_ACCMODE); }
        else if (open_) snprintf(w, sizeof w, "descriptor %d of %d was left open", i, lim);
    }
    mode_t m = umask(0); if (!w[0] && m != 027) snprintf(w, sizeof w, "the file creation mask is %03o", (unsigned)m);
    if (!w[0]) {
        // wait for the parent to be gone: then this is a daemon already
        for (int i = 0; i < 2000 && getppid() != 1; ++i) usleep(500);
        if (getppid() == 1) {
            pid_t me = getpid(); int p = open("/dev/zero", O_RDONLY); umask(0111);
            pion::process::daemonize();
            if (getpid() != me || fcntl(p, F_GETFD) == -1 || umask(0) != 0111) snprintf(w, sizeof w, "a process that is a daemon was changed again");
            sh->again = 1;
        }
    }
    if (w[0]) { memcpy(sh->what, w, sizeof w); sh->bad = 1; }
    sh->done = 1;
    _exit(0);
}
SCENARIO("P34", "daemons", 60, 600) {
    static Dsm *sh = (Dsm*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->done = 0; sh->bad = 0; sh->again = 0; sh->limit = 0; sh->what[0] = 0;
    Rng r(c.rng()); fflush(0);
    pid_t p = fork(); if (p < 0) { printf("HARNESS-ERROR fork\n"); fflush(stdout); _exit(4); }
    if (p == 0) { arm_cpu(0); arm_wall(0); daemon_child(r, sh); }
    int st = 0;
    if (!wait_until([&] { return waitpid(p, &st, WNOHANG) == p; }, 15)) { kill(p, SIGKILL); waitpid(p, &st, 0); c.hang("daemonize-caller-never-ended", "the process that asked to become a daemon did not end"); return; }
    if (!wait_until([&] { return sh->done == 1; }, 15)) { c.hang("daemon-not-running", "no daemon continued"); return; }
    CHECK(c, !sh->bad, "daemon-state", std::string(sh->what) + " (limit " + std::to_string(sh->limit) + ")");
    CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "daemonize-caller-status", "wait status " + std::to_string(st));
    c.count("daemons"); c.count("daemonized_again", sh->again); c.distinct(mix64(r()));
}

// ---------------------------------------------------------------- P34 rights
static void ids_reset(Ctx& c, Rng& r) {
    static const uint32_t us[] = { 1, 99, 1000, 32767, 32768, 65534, 65535, 65536, 100000, 2147483647u, 2147483648u, 4294967293u };
    ids::ru = r.chance(70) ? us[r.below(12)] : (uint32_t)r.range(1, 200000);
    int k = (int)r.below(4);
    if (k == 0) { ids::ru = ids::eu = ids::su = 0; }               // root
    else if (k == 1) { ids::eu = ids::ru; ids::su = 0; }           // set-uid program that dropped its rights
    else if (k == 2) { ids::eu = ids::su = ids::ru; }              // ordinary user
    else { ids::eu = ids::ru; ids::ru = 0; ids::su = 0; }          // root that lowered its effective user
    ids::rg = ids::sg = ids::eg = r.chance(50) ? 0 : (uint32_t)r.range(1, 70000);
    ids::fail_next = 0; ids::calls = 0; ids::log.clear(); ids::on = true;
    (void)c;
}
static uint32_t euid_now() { std::lock_guard<std::mutex> l(ids::mu); return ids::eu; }

SCENARIO("P34", "rights_history", 6000, 60000) {
    Rng& r = c.rng;
    ids_reset(c, r);
    uint64_t h = 0;
    for (int step = 0; step < (int)r.range(1, 6); ++step) {
        uint32_t before = ids::eu;
        bool can = before == 0 || ids::ru == 0 || ids::su == 0;
        bool inject = r.chance(15);
        ids::fail_next = inject ? 1 : 0;
        if (inject) can = false;
        ids::calls = 0;
        {
            pion::admin_rights a(r.chance(50));
            ids::fail_next = 0;
            CHECK(c, euid_now() == (can ? 0u : before), "rights-not-acquired", "effective user " + std::to_string(euid_now()) + " after acquiring, was " + std::to_string(before));
            int rel = (int)r.below(4);
            for (int i = 0; i < rel; ++i) {
                a.release();
                CHECK(c, euid_now() == before, "rights-not-released", "effective user " + std::to_string(euid_now()) + " after release, was " + std::to_string(before));
                c.count("releases");
                if (i == 0 && r.chance(50)) {
                    // somebody else becomes root meanwhile; the later releases of a must not touch that
                    pion::admin_rights b;
                    uint32_t now_e = euid_now();
                    a.release();
                    CHECK(c, euid_now() == now_e, "rights-released-twice", "a second release changed the user while another holder had rights");
                    c.count("second_releases_with_other_holder");
                }
            }
            h = mix64(h ^ before ^ (uint64_t)rel << 40 ^ (uint64_t)can << 50);
        }
        CHECK(c, euid_now() == before, "rights-kept-after-destruction", "effective user " + std::to_string(euid_now()) + " after destruction, was " + std::to_string(before));
        c.count(can ? "rights_acquired" : "rights_refused");
        if (before > 32767) c.count("large_user_ids");
    }
    c.distinct(h);
    ids::on = false;
}

SCENARIO("P34", "rights_threads", 400, 4000) {
    Rng& r = c.rng;
    ids_reset(c, r);
    uint32_t before = ids::eu;
    bool can = before == 0 || ids::ru == 0 || ids::su == 0;
    int n = (int)r.range(2, 6), rounds = (int)r.range(3, 20);
    std::atomic<int> inside(0), bad(0), badid(0), acq(0), left(n);
    std::vector<boost::thread*> th;
    for (int i = 0; i < n; ++i) {
        uint64_t s = r();
        th.push_back(new boost::thread([&, s] {
            Rng q(s);
            for (int k = 0; k < rounds; ++k) {
                {
                    pion::admin_rights a(false);
                    if (can) {
                        if (++inside != 1) ++bad;
                        if (euid_now() != 0) ++badid;
                        if (q.chance(30)) usleep((useconds_t)q.below(50));
                        if (euid_now() != 0) ++badid;
                        --inside;
                        if (q.chance(50)) a.release();
                    }
                    ++acq;
                }
                if (q.chance(20)) usleep((useconds_t)q.below(30));
            }
            --left;
        }));
    }
    if (!wait_until([&] { return left == 0; }, 12)) { c.hang("rights-never-granted", "a thread waiting for administrative rights was never let in"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    CHECK(c, bad == 0, "rights-held-twice", "two threads held administrative rights at the same time");
    CHECK(c, badid == 0, "rights-lost-while-held", "rights were taken away while held");
    CHECK(c, euid_now() == before, "rights-kept-after-threads", "effective user changed from " + std::to_string(before) + " to " + std::to_string(euid_now()));
    c.count("threaded_acquisitions", acq);
    c.distinct(mix64(before ^ (uint64_t)n << 40 ^ (uint64_t)rounds << 50));
    ids::on = false;
}

static void put_file(const std::string& p, const std::string& s) { FILE *f = fopen(p.c_str(), "w"); if (!f) { printf("HARNESS-ERROR cannot write %s\n", p.c_str()); exit(4); } fwrite(s.data(), 1, s.size(), f); fclose(f); }

SCENARIO("P34", "run_as", 3000, 30000) {
    Rng& r = c.rng;
    ids_reset(c, r);
    ids::on = false;
    std::string dir = getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : ".";
    ids::pwfile = dir + "/pw"; ids::grfile = dir + "/gr";
    static const char *names[] = { "root", "roo", "rootx", "daemon", "www-data", "a", "b", "user1", "user10", "nobody" };
    bool group = r.chance(50);
    std::string txt; std::map<std::string, uint32_t> ref;
    int n = (int)r.range(0, 10);
    for (int i = 0; i < n; ++i) {
        std::string nm = names[r.below(10)];
        uint32_t id = r.chance(60) ? (uint32_t)r.range(0, 70000) : (uint32_t)r.range(0, 4294967294LL);
        std::string pw = r.chance(30) ? "" : r.chance(50) ? "x" : "root";
        txt += nm + ":" + pw + ":" + std::to_string(id) + ":" + (group ? "u1,u2" : std::to_string(r.below(1000)) + ":Name:/home/x:/bin/sh") + "\n";
        if (!ref.count(nm)) ref[nm] = id;
        if (r.chance(10)) txt += r.chance(50) ? "\n" : "# comment: with:7:colons\n";
    }
    put_file(group ? ids::grfile : ids::pwfile, txt);
    put_file(group ? ids::pwfile : ids::grfile, "root:x:77:\nuser1:x:78:\n");
    std::string who; bool known; uint32_t want = 0;
    if (r.chance(25)) { want = (uint32_t)(r.chance(50) ? r.range(0, 70000) : r.range(0, 4294967294LL)); who = std::to_string(want); known = true; }
    else { who = names[r.below(10)]; known = ref.count(who); if (known) want = ref[who]; }
    if (r.chance(70)) { ids::eu = 0; }
    ids::on = true;
    uint32_t cur = group ? ids::eg : ids::eu;
    bool allowed = ids::eu == 0 || (group ? want == ids::rg || want == ids::sg || want == ids::eg : want == ids::ru || want == ids::su || want == ids::eu);
    long got; std::string thrown;
    try { got = group ? pion::admin_rights::run_as_group(who) : pion::admin_rights::run_as_user(who); } catch (std::exception& e) { thrown = e.what(); }
    uint32_t after = group ? ids::eg : ids::eu;
    ids::on = false;
    std::string d = "run_as_" + std::string(group ? "group" : "user") + "(" + who + ") with file " + show(txt);
    CHECK(c, thrown.empty(), "run-as-threw", d + ": " + thrown);
    if (!known) { CHECK(c, got == (long)cur && after == cur, "run-as-unknown-name", d + " gave " + std::to_string(got)); c.count("unknown_names"); }
    else if (allowed) { CHECK(c, got == (long)want && after == want, "run-as-wrong-id", d + " gave " + std::to_string(got) + ", now " + std::to_string(after)); c.count("ids_switched"); }
    else { CHECK(c, got == -1 && after == cur, "run-as-refused", d + " gave " + std::to_string(got)); c.count("ids_refused"); }
    c.distinct(hash_str(txt + who, want));
}

// ---------------------------------------------------------------- P35
static std::string hexs(const unsigned char *p, size_t n, Rng *r) {
    std::string s; char b[3];
    for (size_t i = 0; i < n; ++i) { sprintf(b, "%02x", p[i]); s += b; }
    if (r) { int k = (int)r->below(3); for (size_t i = 0; i < s.size(); ++i) if (k == 1 || (k == 2 && r->chance(50))) s[i] = (char)toupper(s[i]); }
    return s;
}
static std::string sha256hex(const std::string& s, Rng *r) { unsigned char d[32]; SHA256((const unsigned char*)s.data(), s.size(), d); return hexs(d, 32, r); }
static std::string sha1hex(const std::string& s, Rng *r) { unsigned char d[20]; SHA1((const unsigned char*)s.data(), s.size(), d); return hexs(d, 20, r); }

static std::string gen_name(Rng& r) {
    static const char *n[] = { "", "a", "A", "b", "ab", "alice", "Alice", "alice ", "bob", "root", "user:1", "\xc3\xa9" };
    return r.chance(85) ? n[r.below(12)] : r.chance(50) ? std::string("a\0b", 3) : r.bytes(r.below(40));
}
static std::string gen_pw(Rng& r) {
    static const char *n[] = { "", "a", "b", "secret", "Secret", "secret ", "secre", "pass:word" };
    int k = (int)r.below(10);
    if (k < 6) return n[r.below(8)];
    if (k == 6) return std::string("secret\0x", 8);
    if (k == 7) return std::string("secret\0", 7);
    if (k == 8) return r.bytes(r.below(300));
    return sha256hex(n[r.below(8)], 0);
}
static std::string gen_bad_hash(Rng& r) {
    std::string g = r.chance(50) ? sha256hex("secret", 0) : sha1hex("secret", 0);
    int k = (int)r.below(8);
    if (k == 0) return "";
    if (k == 1) return g.substr(0, g.size() - 1);
    if (k == 2) return g + "0";
    if (k == 3) { g[r.below(g.size())] = "gGzZ xX-+:/@`\0\x80"[r.below(15)]; return g; }
    if (k == 4) return r.from("0123456789abcdef", r.below(90) | 1);
    if (k == 5) return r.bytes(r.chance(50) ? 40 : 64);
    if (k == 6) { g[0] = ' '; return g; }
    return r.from("0123456789abcdef", 32);
}
static bool is_good_hash(const std::string& h) {
    if (h.size() != 40 && h.size() != 64) return false;
    for (size_t i = 0; i < h.size(); ++i) if (!strchr("0123456789abcdefABCDEF", h[i]) || !h[i]) return false;
    return true;
}
static std::string low(std::string s) { for (size_t i = 0; i < s.size(); ++i) s[i] = (char)tolower((unsigned char)s[i]); return s; }

SCENARIO("P35", "user_history", 6000, 60000) {
    Rng& r = c.rng;
    pion::user_manager m;
    std::map<std::string, std::string> ref;    // name -> lower-case hash (length tells the kind)
    std::vector<pion::user_ptr> kept;
    std::map<std::string, std::string> clear;  // name -> the clear password where set that way
    uint64_t h = 1;
    int n = (int)r.range(3, 30);
    for (int i = 0; i < n; ++i) {
        std::string u = gen_name(r), p = gen_pw(r), d;
        int op = (int)r.below(10);
        bool has = ref.count(u) > 0;
        h = hash_str(u + "|" + p, h ^ op);
        if (op < 2) {
            bool ok = m.add_user(u, p);
            CHECK(c, ok == !has, "add-user-result", "add_user(" + show(u) + ") gave " + std::to_string(ok));
            if (ok) { ref[u] = sha256hex(p, 0); clear[u] = p; } else c.count("adds_refused");
            c.count("adds");
        } else if (op == 2) {
            bool ok = m.update_user(u, p);
            CHECK(c, ok == has, "update-user-result", "update_user(" + show(u) + ") gave " + std::to_string(ok));
            if (ok) { ref[u] = sha256hex(p, 0); clear[u] = p; c.count("updates"); } else c.count("updates_refused");
        } else if (op < 6) {
            bool add = op < 5;
            bool bad = r.chance(30);
            std::string hs = bad ? gen_bad_hash(r) : r.chance(50) ? sha1hex(p, &r) : sha256hex(p, &r);
            bool good = is_good_hash(hs);
            bool ok = false, threw = false;
            try { ok = add ? m.add_user_hash(u, hs) : m.update_user_hash(u, hs); } catch (pion::exception&) { threw = true; } catch (std::exception&) { threw = true; }
            bool applies = add ? !has : has;
            if (!applies) CHECK(c, !ok, "hash-result", "hash operation on " + show(u) + " succeeded");
            else if (good) { CHECK(c, ok && !threw, "hash-refused", "valid hash " + show(hs) + " refused"); ref[u] = low(hs); clear.erase(u); c.count(hs.size() == 40 ? "sha1_hashes" : "sha256_hashes"); }
            else { CHECK(c, threw || !ok, "bad-hash-accepted", "hash " + show(hs) + " accepted"); c.count("bad_hashes_refused"); }
        } else if (op == 6) {
            if (r.chance(50)) { pion::user_ptr q = m.get_user(u); if (q) kept.push_back(q); }
            bool ok = m.remove_user(u);
            CHECK(c, ok == has, "remove-user-result", "remove_user(" + show(u) + ") gave " + std::to_string(ok));
            if (ok) { ref.erase(u); clear.erase(u); c.count("removes"); }
        }
        // verification, over the present user set and candidate passwords
        std::string v = r.chance(60) && !ref.empty() ? [&] { std::map<std::string, std::string>::iterator q = ref.begin(); std::advance(q, r.below(ref.size())); return q->first; }() : gen_name(r);
        std::string cp = clear.count(v) && r.chance(50) ? clear[v] : gen_pw(r);
        if (r.chance(15) && clear.count(v)) { cp = clear[v]; if (cp.empty() || r.chance(40)) cp += r.chance(50) ? std::string(1, 0) : "x"; else if (r.chance(50)) cp.resize(cp.size() - 1); else cp[r.below(cp.size())] ^= (char)(1 << r.below(8)); }
        bool want = ref.count(v) && (ref[v].size() == 40 ? sha1hex(cp, 0) == ref[v] : sha256hex(cp, 0) == ref[v]);
        pion::user_ptr q = m.get_user(v, cp);
        CHECK(c, (q.get() != 0) == want, want ? "right-password-refused" : "wrong-password-accepted", "get_user(" + show(v) + ", " + show(cp) + ") " + (q ? "succeeded" : "failed"));
        c.count(want ? "verified" : "not_verified");
        pion::user_ptr e = m.get_user(v);
        CHECK(c, (e.get() != 0) == (ref.count(v) > 0), "user-lookup", "get_user(" + show(v) + ")");
        if (e) {
            CHECK(c, e->get_username() == v, "user-name", "user found under " + show(v) + " is called " + show(e->get_username()));
            CHECK(c, e->match_password(cp) == want, "match-password", "match_password of " + show(v));
            CHECK(c, low(e->get_password()) == ref[v], "stored-password", "stored " + show(e->get_password()) + " for " + show(v));
            if (clear.count(v)) CHECK(c, e->get_password() != clear[v], "clear-password-stored", "stored value equals the clear password");
            if (q) CHECK(c, q == e, "user-object", "two lookups of the same user differ");
        }
        CHECK(c, m.empty() == ref.empty(), "users-empty", "empty() is wrong");
    }
    // a user object taken earlier stays valid after removal
    for (size_t i = 0; i < kept.size(); ++i) { (void)kept[i]->get_username().size(); kept[i]->match_password("x"); }
    // a user without any password matches nothing
    pion::user nu("n"); CHECK(c, !nu.match_password("") && !nu.match_password(gen_pw(r)), "empty-user-matches", "user without a password matched");
    c.distinct(h);
    c.count("histories");
}

// several threads on few names: exactly one of the competing adds / removes of each round wins,
// and a verification never succeeds for a password that no longer (or not yet) is the user's
SCENARIO("P35", "user_threads", 250, 2500) {
    Rng& r = c.rng;
    pion::user_manager m;
    int n = (int)r.range(2, 6), rounds = (int)r.range(10, 40);
    std::atomic<int> turn(0), left(n), adds(0), removes(0), bad(0), verified(0);
    boost::barrier bar(n);
    std::vector<boost::thread*> th;
    std::vector<std::string> fails; std::mutex fm;
    for (int t = 0; t < n; ++t) {
        uint64_t s = r();
        th.push_back(new boost::thread([&, s, t] {
            Rng q(s);
            std::string mine = "own" + std::to_string(t);
            m.add_user(mine, "p0");
            for (int k = 0; k < rounds; ++k) {
                std::string u = "shared" + std::to_string(k), pw = "pw" + std::to_string(t);
                bar.wait();
                if (m.add_user(u, pw)) {
                    ++adds;
                    if (!m.get_user(u, pw)) { std::lock_guard<std::mutex> l(fm); fails.push_back("added user not verified"); }
                }
                // own user: private history
                std::string np = "p" + std::to_string(k + 1);
                if (q.chance(70)) m.update_user(mine, np); else m.update_user_hash(mine, sha1hex(np, 0));
                if (!m.get_user(mine, np)) { std::lock_guard<std::mutex> l(fm); fails.push_back("updated password not accepted"); }
                if (m.get_user(mine, "p" + std::to_string(k))) { std::lock_guard<std::mutex> l(fm); fails.push_back("old password accepted"); }
                ++verified;
                bar.wait();
                if (!m.get_user(u)) { std::lock_guard<std::mutex> l(fm); fails.push_back("added user lost"); }
                bar.wait();
                if (m.remove_user(u)) ++removes;
                if (m.get_user(u)) { std::lock_guard<std::mutex> l(fm); fails.push_back("removed user still there"); }
            }
            --left;
        }));
    }
    if (!wait_until([&] { return left == 0; }, 20)) { c.hang("user-manager-blocked", "user manager calls never returned"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    CHECK(c, fails.empty(), "concurrent-users", fails[0]);
    CHECK(c, adds == rounds, "concurrent-adds", std::to_string(adds) + " of " + std::to_string(rounds) + " competing adds succeeded");
    CHECK(c, removes == rounds, "concurrent-removes", std::to_string(removes) + " of " + std::to_string(rounds) + " competing removes succeeded");
    c.count("contended_names", rounds); c.count("concurrent_updates", verified);
    c.distinct(mix64(r()));
}

int main(int argc, char **argv) { return run(argc, argv, 60, 40); }
