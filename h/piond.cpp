// P38: the programs piond and helloserver, as processes of their own.
#include "vh.hpp"
#include "net.hpp"
#include <sys/wait.h>
#include <sys/prctl.h>
using namespace vh;
int piond_main(int, char**);
int helloserver_main(int, char**);
static std::string scratch() { return getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : "/nonexistent"; }
static std::string so_dir() { const char *d = getenv("VH_SO_DIR"); return d ? d : "."; }
static void spit(const std::string& p, const std::string& d) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) { printf("HARNESS-ERROR cannot write %s\n", p.c_str()); fflush(stdout); _exit(4); } fclose(f); }
static std::string slurp(const std::string& p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
typedef std::vector<std::string> Args;
static int g_n;
static std::string self() { static char b[4096]; static ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return std::string(b, n > 0 ? (size_t)n : 0); }

struct Proc {
    pid_t pid; int st; bool gone; std::string cwd, errf;
    Proc() : pid(-1), st(0), gone(true) {}
    ~Proc() { if (!gone) { kill(pid, SIGKILL); waitpid(pid, &st, 0); } }
    // runs the program in the directory; its first argument is the path it is told to have been started from
    void start(const char *prog, const std::string& dir, const Args& a) {
        cwd = dir; errf = dir + "/stderr"; gone = false; fflush(stdout);
        std::vector<char*> v; for (size_t i = 0; i < a.size(); ++i) v.push_back((char*)a[i].c_str()); v.push_back(0);
        std::string me = self();
        pid = fork();
        if (pid < 0) { printf("HARNESS-ERROR fork: %s\n", strerror(errno)); fflush(stdout); _exit(4); }
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_REAL, &t, NULL); setitimer(ITIMER_PROF, &t, NULL);
            // a check started in the background inherits SIGINT as ignored: give the program the ordinary dispositions
            for (int sg = 1; sg < 32; ++sg) if (sg != SIGKILL && sg != SIGSTOP) signal(sg, SIG_DFL);
            sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, NULL);
            int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); for (int i = 3; i < 64; ++i) close(i);
            if (chdir(dir.c_str())) _exit(9);
            setenv("VH_PROGRAM", prog, 1);
            execv(me.c_str(), &v[0]); _exit(9);
        }
    }
    bool poll() { if (!gone && waitpid(pid, &st, WNOHANG) == pid) gone = true; return gone; }
    bool ended(double limit) { return wait_until([this] { return poll(); }, limit); }
    std::string said() { return slurp(errf); }
    std::string how() { return WIFEXITED(st) ? "exit status " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st)); }
    bool clean() { std::string s = said(); return WIFEXITED(st) && WEXITSTATUS(st) < 2 && s.find("Sanitizer") == std::string::npos && s.find("runtime error") == std::string::npos; }
};
static std::string line(const Args& a) { std::string s; for (size_t i = 1; i < a.size(); ++i) s += (i > 1 ? " " : "") + a[i]; return s; }
static int free_port(Rng& r, bool any) {
    for (int k = 0; k < 200; ++k) {
        int p = (int)r.range(10000, 30000), fd = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)p); a.sin_addr.s_addr = any ? INADDR_ANY : htonl(net::addr());
        bool ok = ::bind(fd, (struct sockaddr*)&a, sizeof a) == 0 && listen(fd, 1) == 0; close(fd); if (ok) return p;
    }
    return 0;
}
static std::string host() { struct in_addr a; a.s_addr = htonl(net::addr()); return inet_ntoa(a); }
// waits until the program accepts connections; false if it ended (or never did: limit)
static bool up(Proc& p, int port, double limit) {
    return wait_until([&] { if (p.poll()) return true; net::Client k; return k.connect(port); }, limit) && !p.poll();
}
struct Dirs {
    std::string base, prog, cwd, plug; std::vector<std::string> links;
    Dirs() {
        base = scratch() + "/p" + std::to_string((long)getpid()) + "-" + std::to_string(g_n++);
        prog = base + "/prog"; cwd = base + "/cwd"; plug = base + "/plug";
        mkdir(base.c_str(), 0755); mkdir(prog.c_str(), 0755); mkdir(cwd.c_str(), 0755); mkdir(plug.c_str(), 0755);
    }
    void link(const std::string& lib, const std::string& dir, const std::string& as = "") { std::string l = dir + "/" + (as.empty() ? lib : as) + ".so"; if (symlink((so_dir() + "/" + lib + ".so").c_str(), l.c_str())) {} }
};
struct Site { std::string resource, service, file_dir, content; };
static std::string get(int port, bool tls, const std::string& path, net::Response& p, net::Client& k, const std::string& head = "GET", const std::string& extra = "") {
    if (k.fd < 0 || k.eof) { k.close(); k.eof = k.err = false; k.buf.clear(); if (!k.connect(port, tls)) return "connection refused"; }
    k.send(head + " " + path + " HTTP/1.1\r\nHost: x\r\n" + extra + "\r\n");
    std::string x = net::read_response(k, p, head == "HEAD", 20);
    if (net::lower(p.header("connection")) == "close") k.eof = true;
    return x;
}
static std::string word(Rng& r) { return r.from("abcXYZ019", (size_t)r.range(1, 8)); }

// the answers of a service at its resource, judged independently; "" if right
static std::string judge(Rng& r, int port, bool tls, const Site& s, Ctx& c) {
    net::Client k; net::Response p; std::string x, q = word(r), v = word(r);
    if (s.service == "HelloService") { x = get(port, tls, s.resource, p, k); if (!x.empty()) return x; if (p.status != 200 || p.body != "<html><body>Hello World!</body></html>\r\n\r\n") return std::to_string(p.status) + " " + show(p.body); }
    else if (s.service == "AllowNothingService") { x = get(port, tls, s.resource, p, k); if (!x.empty()) return x; if (p.status != 405) return std::to_string(p.status); }
    else if (s.service == "EchoService") {
        std::string path = s.resource + (r.chance(50) ? "/" + word(r) : "") ; x = get(port, tls, path + "?" + q + "=" + v, p, k); if (!x.empty()) return x;
        if (p.status != 200 || p.body.find("Resource delivered: " + path + "\r\n") == std::string::npos || p.body.find("\r\n" + q + ": " + v + "\r\n") == std::string::npos) return std::to_string(p.status) + " " + show(p.body);
    } else if (s.service == "CookieService") {
        x = get(port, tls, s.resource, p, k, "GET", "Cookie: " + q + "=" + v + "\r\n"); if (!x.empty()) return x;
        if (p.status != 200 || p.body.find(q) == std::string::npos || p.body.find(v) == std::string::npos) return std::to_string(p.status) + " " + show(p.body);
    } else if (s.service == "FileService") {
        for (int i = 0; i < 2; ++i) { p = net::Response(); x = get(port, tls, s.resource + "/data.txt", p, k); if (!x.empty()) return x; if (p.status != 200 || p.body != s.content) return std::to_string(p.status) + " " + std::to_string(p.body.size()) + " bytes of " + std::to_string(s.content.size()); }
        p = net::Response(); x = get(port, tls, s.resource + "/missing", p, k); if (!x.empty()) return x; if (p.status != 404) return "missing file " + std::to_string(p.status);
    }
    c.count("answers_checked"); c.count("answers_" + s.service);
    return "";
}
static const char *SERVICES[] = { "HelloService", "EchoService", "CookieService", "FileService", "AllowNothingService" };
// a case of a running program ended by signals, in whatever state its connections are
static void finish(Ctx& c, Proc& p, int port, bool tls, const std::string& what) {
    Rng& r = c.rng; std::vector<std::shared_ptr<net::Client> > ks; int n = (int)r.below(6);
    for (int i = 0; i < n; ++i) {
        std::shared_ptr<net::Client> k(new net::Client); bool t = tls && r.chance(70); if (!k->connect(port, t)) { if (t != tls) continue; CHECK(c, p.poll() == false, "ended-by-itself", what + ": " + p.how() + " " + show(p.said())); continue; }
        switch (r.below(5)) {
        case 0: break;                                                                          // says nothing
        case 1: k->send("GET / HTTP/1.1\r\nHo"); break;                                         // stops inside its headers
        case 2: k->send("POST / HTTP/1.1\r\nContent-Length: 500\r\n\r\nabc"); break;            // stops inside its content
        case 3: for (int j = 0; j < 60; ++j) k->send("GET /a HTTP/1.1\r\nHost: x\r\n\r\n"); break;  // does not read
        default: { net::Response q; k->send("GET /b HTTP/1.1\r\nHost: x\r\n\r\n"); if (!tls || k->ssl) net::read_response(*k, q, false, 5); }
        }
        ks.push_back(k);
    }
    c.count("connections_at_the_end", ks.size());
    // these end nothing
    static const int ignored[] = { SIGHUP, SIGPIPE, SIGCHLD, SIGTSTP, SIGTTIN, SIGTTOU };
    if (r.chance(50)) { int m = (int)r.range(1, 4); for (int i = 0; i < m; ++i) kill(p.pid, ignored[r.below(6)]); c.count("ignored_signals", m); if (r.chance(40)) { usleep(3000); CHECK(c, !p.poll(), "ended-by-ignored-signal", what + ": " + p.how()); net::Client k; CHECK(c, k.connect(port), "not-serving-after-ignored-signal", what); } }
    // clients that hang up on it
    if (!ks.empty() && r.chance(40)) { ks.back()->close(r.chance(50)); ks.pop_back(); c.count("hang_ups"); }
    int sig = r.chance(50) ? SIGTERM : SIGINT; double t0 = now(); kill(p.pid, sig); c.count(sig == SIGTERM ? "ended_by_term" : "ended_by_int");
    int again = r.chance(30) ? (int)r.range(1, 5) : 0; for (int i = 0; i < again; ++i) { usleep((useconds_t)r.below(2000)); if (!p.poll()) kill(p.pid, r.chance(50) ? SIGTERM : SIGINT); }
    if (!p.ended(25)) { c.hang("never-ended", what + " after signal " + std::to_string(sig)); bail(); }
    c.count("shutdown_ms", (uint64_t)((now() - t0) * 1000));
    CHECK(c, p.clean() && WEXITSTATUS(p.st) == 0, "bad-end", what + ": " + p.how() + " " + show(p.said(), 1500));
    for (size_t i = 0; i < ks.size(); ++i) CHECK(c, ks[i]->drain(10), "connection-outlived-server", what);
    net::Client k; CHECK(c, !k.connect(port), "listening-after-end", what);
    c.count("clean_ends");
}
SCENARIO("P38", "serve", 160, 2400) {
    Rng& r = c.rng; Dirs d; bool tls = r.chance(25), config = r.chance(45); int port = free_port(r, false);
    Args a, o; a.push_back((r.chance(70) ? d.prog : std::string("../prog")) + "/piond");
    std::vector<Site> sites; std::set<std::string> used; int n = config ? (int)r.range(1, 4) : 1; std::string conf;
    std::string dirs[3] = { d.prog, d.cwd, d.plug }; bool plug = false;
    for (int i = 0; i < n; ++i) {
        Site s; static const char *res[] = { "/x", "/hello", "/a/b", "/x/y", "/f", "/s%20p" }; s.resource = res[r.below(6)]; if (!used.insert(s.resource).second) continue;
        s.service = SERVICES[r.below(5)];
        int w = (int)r.below(3); if (w == 2) plug = true; d.link(s.service, dirs[w]);
        s.file_dir = d.base + (r.chance(30) ? "/fi=les" : "/files") + std::to_string(i); s.content = r.bytes((size_t)r.range(0, 3000));
        std::string name = s.service; if (r.chance(15) && !config) name += ".so"; else if (r.chance(15)) name = dirs[w] + "/" + s.service + ".so";
        if (s.service == "FileService") { mkdir(s.file_dir.c_str(), 0755); spit(s.file_dir + "/data.txt", s.content); }
        std::string slash = r.chance(20) ? "/" : "";
        Args opts; if (s.service == "FileService") { opts.push_back("directory=" + s.file_dir); if (r.chance(30)) opts.push_back("cache=" + std::to_string(r.below(3))); if (r.chance(30)) opts.push_back("scan=" + std::to_string(r.below(4))); if (r.chance(30)) opts.push_back("max_chunk_size=" + std::to_string(r.range(1, 700))); if (r.chance(50)) for (size_t j = opts.size() - 1; j > 0; --j) std::swap(opts[j], opts[r.below(j + 1)]); }
        if (config) { conf += "service " + s.resource + slash + " " + name + "\n"; for (size_t j = 0; j < opts.size(); ++j) conf += "option " + s.resource + slash + " " + opts[j] + "\n"; }
        else for (size_t j = 0; j < opts.size(); ++j) { o.push_back("-o"); o.push_back(opts[j]); }
        if (!config) { s.resource += ""; }
        sites.push_back(s); c.count("services");
        if (!config) { o.push_back("\1" + s.resource + slash); o.push_back("\1" + name); }
    }
    Args tail; Args opt; for (size_t i = 0; i < o.size(); ++i) if (o[i][0] == '\1') tail.push_back(o[i].substr(1)); else opt.push_back(o[i]);
    if (config) { std::string f = d.base + "/s.conf"; bool inside = plug && r.chance(50); if (inside) conf = "path " + d.plug + "\n" + conf; spit(f, conf); if (inside) plug = false; opt.push_back("-c"); opt.push_back(r.chance(70) ? f : "../s.conf"); }
    if (plug) { opt.push_back("-d"); opt.push_back(d.plug); }
    opt.push_back("-i"); opt.push_back(host()); opt.push_back("-p"); opt.push_back(std::to_string(port));
    if (tls) { opt.push_back("-ssl"); opt.push_back(net::pem()); }
    // any order of the options that come with a value (the order among -o stays)
    std::vector<Args> groups, os; for (size_t i = 0; i + 1 < opt.size(); i += 2) { Args g(opt.begin() + (long)i, opt.begin() + (long)i + 2); (g[0] == "-o" ? os : groups).push_back(g); }
    if (r.chance(20)) groups.push_back(Args(1, "-v"));
    for (size_t i = groups.size(); i > 1; --i) std::swap(groups[i - 1], groups[r.below(i)]);
    for (size_t i = 0; i < os.size(); ++i) groups.insert(groups.begin() + (long)(groups.size() ? r.below(groups.size() + 1) : 0), Args());
    size_t oi = 0; for (size_t i = 0; i < groups.size(); ++i) { const Args& g = groups[i].empty() ? os[oi++] : groups[i]; a.insert(a.end(), g.begin(), g.end()); }
    a.insert(a.end(), tail.begin(), tail.end());
    std::string what = line(a) + (config ? " {" + show(conf) + "}" : ""); c.distinct(what);
    Proc p; p.start("piond", d.cwd, a); c.count("piond_started"); if (tls) c.count("tls_started"); if (config) c.count("configured");
    if (!up(p, port, 30)) { if (p.gone) { c.fail("not-serving", what + ": " + p.how() + " " + show(p.said(), 1500)); return; } c.hang("never-listening", what); bail(); }
    int rounds = (int)r.range(1, 3);
    for (int k = 0; k < rounds; ++k) for (size_t i = 0; i < sites.size(); ++i) {
        std::string x = judge(r, port, tls, sites[i], c); if (x == "timeout") { c.hang("no-answer", what); bail(); }
        CHECK(c, x.empty(), "wrong-answer", what + ": " + sites[i].service + " at " + sites[i].resource + ": " + x);
    }
    { net::Client k; net::Response q; std::string x = get(port, tls, "/nowhere/" + word(r), q, k); CHECK(c, x.empty() && q.status == 404, "unknown-resource", what + ": " + x + " " + std::to_string(q.status)); c.count("not_found"); }
    // exactly one of plain and TLS is spoken
    { net::Client k; if (tls) { k.connect(port); k.send("GET /x HTTP/1.1\r\n\r\n"); k.drain(5); CHECK(c, k.buf.find("HTTP/") == std::string::npos, "plain-answer-from-tls-server", what); } else CHECK(c, !k.connect(port, true), "tls-from-plain-server", what); c.count("other_protocol_refused"); }
    finish(c, p, port, tls, what);
}
SCENARIO("P38", "refuse", 160, 2400) {
    Rng& r = c.rng; Dirs d; int port = free_port(r, false); d.link("HelloService", d.prog); d.link("FileService", d.prog);
    Args a; a.push_back(d.prog + "/piond"); Args good; good.push_back("-i"); good.push_back(host()); good.push_back("-p"); good.push_back(std::to_string(port));
    bool usage = true; std::string why; int k = (int)r.below(18); bool tailed = true; std::string res = "/x", svc = "HelloService"; Args bad; int other = -1;
    switch (k) {
    case 0: why = "no resource and no configuration"; tailed = false; break;
    case 1: why = "resource without service"; tailed = false; bad.push_back("/x"); break;
    case 2: why = "option without value"; bad.push_back("-o"); bad.push_back("directory"); break;
    case 3: why = "unknown option"; bad.push_back(r.chance(50) ? "-x" : r.chance(50) ? "--help" : r.chance(50) ? "-ssll" : "-"); break;
    case 4: why = "three arguments"; bad.push_back("/y"); break;
    case 5: why = "last option lacks its argument"; tailed = false; { static const char *l[] = { "-p", "-i", "-c", "-d", "-o", "-ssl" }; bad.push_back(l[r.below(6)]); } break;
    case 6: why = "missing plug-in directory"; bad.push_back("-d"); bad.push_back(d.base + "/none"); usage = false; break;
    case 7: why = "bad address"; good[1] = r.chance(50) ? "localhost" : r.chance(50) ? "" : "300.1.2.3"; usage = false; break;
    // these start and fail
    case 8: why = "unknown service"; svc = "NoService"; usage = false; break;
    case 9: why = "missing configuration"; bad.push_back("-c"); bad.push_back(d.base + "/none.conf"); tailed = false; usage = false; break;
    case 10: why = "bad configuration"; spit(d.base + "/b.conf", "service /x HelloService\nservice /y NoService\n"); bad.push_back("-c"); bad.push_back(d.base + "/b.conf"); tailed = false; usage = false; break;
    case 11: why = "option the service does not know"; bad.push_back("-o"); bad.push_back("colour=blue"); usage = false; break;
    case 12: why = "directory of the file service missing"; svc = "FileService"; bad.push_back("-o"); bad.push_back("directory=" + d.base + "/none"); usage = false; break;
    case 13: why = "missing certificate"; bad.push_back("-ssl"); bad.push_back(d.base + "/none.pem"); usage = false; break;
    case 14: why = "certificate that is none"; spit(d.base + "/x.pem", "hello\n"); bad.push_back("-ssl"); bad.push_back(d.base + "/x.pem"); usage = false; break;
    case 15: why = "file service without directory"; svc = "FileService"; usage = false; break;
    case 16: { why = "port in use"; usage = false; other = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons((uint16_t)port); s.sin_addr.s_addr = htonl(net::addr()); if (::bind(other, (struct sockaddr*)&s, sizeof s) || listen(other, 5)) { close(other); return; } break; }
    default: { why = "library that is none"; spit(d.prog + "/BadService.so", r.bytes(300)); svc = "BadService"; usage = false; }
    }
    bool first = r.chance(50) && k != 5 && k != 1 && k != 4;
    if (first) a.insert(a.end(), bad.begin(), bad.end());
    a.insert(a.end(), good.begin(), good.end());
    if (!first) a.insert(a.end(), bad.begin(), bad.end());
    if (tailed) { a.push_back(res); a.push_back(svc); }
    Proc p; p.start("piond", d.cwd, a); std::string what = why + ": " + line(a); c.distinct(what);
    bool listened = false; double t0 = now(); bool ended = false;
    while (now() - t0 < 30) { if (p.poll()) { ended = true; break; } if (other < 0) { net::Client q; if (q.connect(port)) { listened = true; if (k != 12 && k != 15) break; } } usleep(300); }
    if (k == 15 && !ended) { c.count("file_service_without_directory"); finish(c, p, port, false, what); return; }
    if (other >= 0) close(other);
    CHECK(c, !listened, "served-although-refused", what);
    if (!ended) { c.hang("refusal-never-ended", what); bail(); }
    CHECK(c, p.clean(), "refusal-crashed", what + ": " + p.how() + " " + show(p.said(), 1500));
    c.count("refused"); c.count("refused_" + std::to_string(k));
    if (usage || k == 6 || k == 7) { CHECK(c, WEXITSTATUS(p.st) == 1, "refusal-status", what + ": " + p.how()); CHECK(c, !p.said().empty(), "refusal-silent", what); }
    if (usage) { std::string s = p.said(); CHECK(c, s.find("usage:") != std::string::npos, "no-usage", what + ": " + show(s)); c.count("usage_shown"); }
}
// signals at any moment since the start
SCENARIO("P38", "early_signals", 120, 1600) {
    Rng& r = c.rng; Dirs d; int port = free_port(r, false); d.link("HelloService", d.prog); bool tls = r.chance(30);
    Args a; a.push_back(d.prog + "/piond"); a.push_back("-i"); a.push_back(host()); a.push_back("-p"); a.push_back(std::to_string(port)); if (tls) { a.push_back("-ssl"); a.push_back(net::pem()); } a.push_back("/x"); a.push_back("HelloService");
    Proc p; p.start("piond", d.cwd, a); int sig = r.chance(50) ? SIGTERM : SIGINT; static double typical = 0.1;
    usleep((useconds_t)(r.below(1000) * 1e-3 * typical * 1.3e6)); kill(p.pid, sig); std::string what = line(a);
    if (!p.ended(25)) { c.hang("never-ended", what + " after an early signal " + std::to_string(sig)); bail(); }
    bool by_sig = WIFSIGNALED(p.st) && WTERMSIG(p.st) == sig;      // before the program took over the signals
    CHECK(c, by_sig || (p.clean() && WEXITSTATUS(p.st) == 0), "bad-end", what + ": " + p.how() + " " + show(p.said(), 1500));
    net::Client k; CHECK(c, !k.connect(port), "listening-after-end", what);
    c.count(by_sig ? "before_signal_handlers" : "after_signal_handlers"); c.distinct(c.index * 2 + by_sig);
    if (c.index % 10 == 0) { Proc q; q.start("piond", d.cwd, a); double t0 = now(); if (!up(q, port, 30)) { if (q.gone) { c.fail("not-serving", what + ": " + q.how() + " " + show(q.said(), 1500)); return; } c.hang("never-listening", what); bail(); } typical = now() - t0; finish(c, q, port, tls, what); }
}
SCENARIO("P38", "helloserver", 80, 1200) {
    Rng& r = c.rng; Dirs d; Proc p; int port = 0; Args a; bool ok = false;
    for (int k = 0; k < 6 && !ok; ++k) {
        port = free_port(r, true); a.clear(); a.push_back(d.prog + "/helloserver"); a.push_back(std::to_string(port));
        p.start("helloserver", d.cwd, a); ok = up(p, port, 30); if (!ok && !p.gone) { c.hang("never-listening", line(a)); bail(); }
        if (!ok) CHECK(c, p.clean(), "crashed", p.how() + " " + show(p.said(), 1500));
    }
    CHECK(c, ok, "not-serving", line(a) + ": " + p.how() + " " + show(p.said(), 1500));
    int n = (int)r.range(1, 40); std::vector<std::shared_ptr<net::Client> > ks; c.count("hellos_started");
    for (int i = 0; i < n; ++i) { std::shared_ptr<net::Client> k(new net::Client); CHECK(c, k->connect(port), "refused", line(a)); if (r.chance(30)) k->send(r.bytes((size_t)r.below(200))); if (r.chance(15)) { k->close(r.chance(50)); continue; } ks.push_back(k); }
    for (size_t i = 0; i < ks.size(); ++i) {
        bool e = ks[i]->drain(20); if (!e) { c.hang("greeting-not-ended", line(a)); bail(); }
        // data nobody read makes the kernel cut the greeting off: what arrives is still its beginning
        std::string g = "Hello there!\r\n"; CHECK(c, ks[i]->buf == g || (ks[i]->err && g.compare(0, ks[i]->buf.size(), ks[i]->buf) == 0), "wrong-greeting", show(ks[i]->buf));
        c.count(ks[i]->buf == g ? "greetings" : "greetings_cut");
    }
    c.distinct((uint64_t)n * 1000 + ks.size());
    int sig = r.chance(50) ? SIGTERM : SIGINT; std::vector<std::shared_ptr<net::Client> > late; for (int i = 0; i < (int)r.below(4); ++i) { std::shared_ptr<net::Client> k(new net::Client); if (k->connect(port)) late.push_back(k); }
    kill(p.pid, sig); if (!p.ended(25)) { c.hang("never-ended", line(a)); bail(); }
    CHECK(c, p.clean() && WEXITSTATUS(p.st) == 0, "bad-end", line(a) + ": " + p.how() + " " + show(p.said(), 1500));
    for (size_t i = 0; i < late.size(); ++i) { CHECK(c, late[i]->drain(10), "connection-outlived-server", line(a)); CHECK(c, std::string("Hello there!\r\n").compare(0, late[i]->buf.size(), late[i]->buf) == 0, "wrong-greeting", show(late[i]->buf)); }
    c.count("clean_ends");
}
int main(int argc, char **argv) {
    const char *prog = getenv("VH_PROGRAM");
    if (prog) { std::string p = prog; unsetenv("VH_PROGRAM"); return p == "piond" ? piond_main(argc, argv) : helloserver_main(argc, argv); }
    G().bail_on_fail = true; signal(SIGPIPE, SIG_IGN);
    return run(argc, argv, 120, 170);
}
