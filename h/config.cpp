// P33: service configuration files.
#include "httpenv.hpp"
#include <pion/http/plugin_server.hpp>
#include <pion/plugin.hpp>
#include <sys/stat.h>
typedef EnvT<pion::http::plugin_server> PEnv;
struct Event { std::string lib, what, resource, name, value; const void *obj; };
static std::mutex g_mu; static std::vector<Event> g_ev;
extern "C" __attribute__((visibility("default"))) void vh_service_event(const char *lib, const char *what, const void *obj, const char *resource, const char *name, const char *value) {
    Event e = { lib, what, resource, name, value, obj }; std::lock_guard<std::mutex> l(g_mu); g_ev.push_back(e);
}
static std::string scratch() { return getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : "/nonexistent"; }
static std::string so_dir() { const char *d = getenv("VH_SO_DIR"); return d ? d : "."; }
static void spit(const std::string& p, const std::string& d) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) { printf("HARNESS-ERROR cannot write %s\n", p.c_str()); fflush(stdout); _exit(4); } fclose(f); }
static std::string b64(const std::string& s) { static const char *d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0); o += d[v >> 18]; o += d[v >> 12 & 63]; o += i + 1 < s.size() ? d[v >> 6 & 63] : '='; o += i + 2 < s.size() ? d[v & 63] : '='; } return o; }
static std::string strip(const std::string& s) { return !s.empty() && s[s.size() - 1] == '/' ? s.substr(0, s.size() - 1) : s; }

// the reference reading of a configuration
struct Model {
    std::vector<std::string> dirs; std::map<std::string, std::string> services; std::vector<std::string> options;   // "resource|name|value"
    std::string auth; std::map<std::string, std::string> users; std::set<std::string> restricted;
    bool has_lib(const std::string& n) const { for (size_t i = 0; i < dirs.size(); ++i) if (access((dirs[i] + "/" + n + ".so").c_str(), R_OK) == 0) return true; return false; }
};
static std::string word(Rng& r, const char *alpha = "abcXYZ019_-.$=/#") { std::string o; size_t n = r.range(1, 8), l = strlen(alpha); for (size_t i = 0; i < n; ++i) o += alpha[r.below(l)]; return o; }
static std::string text(Rng& r) { std::string o = word(r); size_t n = r.below(3); for (size_t i = 0; i < n; ++i) o += (r.chance(80) ? " " : "\t") + word(r, "abc=# /\xe4.:"); return o; }
static std::string gap(Rng& r) { std::string o; size_t n = r.chance(70) ? 1 : r.range(1, 4); for (size_t i = 0; i < n; ++i) o += r.chance(75) ? ' ' : '\t'; return o; }
static std::string cased(Rng& r, std::string s) { int m = (int)r.below(4); for (size_t i = 0; i < s.size(); ++i) if (m == 1 || (m == 2 && r.chance(50))) s[i] = (char)toupper(s[i]); return s; }

// a directive that applies (good) or does not, given what came before; "" if there is none of that kind now
static std::string directive(Rng& r, Model& m, bool good, const std::vector<std::string>& dirs, std::string& why) {
    static const char *res[] = { "/a", "/b", "/c/d", "/c", "/e/", "/hello.x", "/f%20g", "/", "h" };
    static const char *libs[] = { "CfgOne", "CfgTwo", "CfgThree" };
    std::string sp = gap(r);
    if (good) switch (r.below(9)) {
    case 0: { if (r.chance(10)) return cased(r, "path") + sp + dirs[0] + "/none"; std::string d = dirs[r.below(dirs.size())]; m.dirs.push_back(d); return cased(r, "path") + sp + d; }
    case 1: case 2: case 3: {
        std::string x = res[r.below(9)], l = libs[r.below(3)]; if (m.services.count(strip(x)) || !m.has_lib(l)) return "";
        m.services[strip(x)] = l; return cased(r, "service") + sp + x + gap(r) + l; }
    case 4: case 5: {
        if (m.services.empty()) return ""; std::map<std::string, std::string>::iterator i = m.services.begin(); std::advance(i, r.below(m.services.size()));
        std::string n = r.chance(95) ? word(r, "abcxyz_09. ") : "", v = r.chance(85) ? text(r) : ""; while (!n.empty() && (n[0] == ' ')) n.erase(0, 1);
        if (i->first.empty()) return "";
        m.options.push_back(i->first + "|" + n + "|" + v); return cased(r, "option") + sp + i->first + (r.chance(20) ? "/" : "") + gap(r) + n + "=" + v; }
    case 6: { std::string a = r.chance(50) ? "basic" : "cookie"; if (!m.auth.empty() && r.chance(80)) return ""; m.auth = a; m.users.clear(); m.restricted.clear(); return cased(r, "auth") + sp + a; }
    case 7: { if (m.auth.empty()) return ""; std::string x = res[r.below(8)]; m.restricted.insert(strip(x)); return cased(r, "restrict") + sp + x; }
    default: { if (m.auth.empty()) return ""; std::string u = word(r, "abcAB09_-."), p = text(r); m.users.insert(std::make_pair(u, p)); return cased(r, "user") + sp + u + gap(r) + p; }
    }
    std::string x = m.services.empty() ? "/zz" : m.services.begin()->first; if (x.empty()) x = "/";
    switch (r.below(16)) {
    case 0: why = "unknown directive"; return (r.chance(50) ? "services" : r.chance(50) ? "pat" : "include") + sp + "x y";
    case 1: why = "directive without value"; return (r.chance(50) ? "path" : "auth") + (r.chance(50) ? sp : "");
    case 2: why = "directive without value"; return "service" + (r.chance(50) ? sp : "");
    case 3: why = "service without a name"; return "service" + sp + "/n" + (r.chance(50) ? sp : "");
    case 4: why = "unknown service"; return "service" + sp + "/nn" + sp + "CfgNone";
    case 5: if (m.services.empty() || m.services.begin()->first.empty()) return ""; why = "resource used twice"; return "service" + sp + x + (r.chance(30) ? "/" : "") + sp + m.services.begin()->second;
    case 6: if (m.services.empty()) return ""; why = "option without ="; return "option" + sp + x + sp + "name";
    case 7: why = "option of a resource without service"; return "option" + sp + "/none" + sp + "a=b";
    case 8: if (m.services.empty()) return ""; why = "option the service refuses"; return "option" + sp + x + sp + "refuse=1";
    case 9: why = "unknown authentication"; return "auth" + sp + (r.chance(50) ? "digest" : "Basic ");
    case 10: if (!m.auth.empty()) return ""; why = "restrict before auth"; return "restrict" + sp + "/a";
    case 11: if (!m.auth.empty()) return ""; why = "user before auth"; return "user" + sp + "u" + sp + "p";
    case 12: why = "line starting with a blank"; return sp + "path" + sp + dirs[0];
    case 13: why = "directive with other characters"; return (r.chance(50) ? "pa1th" : r.chance(50) ? "path=" : "1path") + sp + dirs[0];
    case 14: if (m.auth.empty()) return ""; why = "user without password"; return "user" + sp + "u" + (r.chance(50) ? sp : "");
    default: why = "directive name only"; return r.chance(50) ? "option" : "user";
    }
}
static int g_n;
SCENARIO("P33", "files", 400, 6000) {
    Rng& r = c.rng; Model m; pion::plugin::reset_plugin_directories(); { std::lock_guard<std::mutex> l(g_mu); g_ev.clear(); }
    std::string base = scratch() + "/c" + std::to_string((long)getpid()) + "-" + std::to_string(g_n++); mkdir(base.c_str(), 0755);
    std::vector<std::string> dirs; dirs.push_back(so_dir());
    for (int i = 0; i < 2; ++i) { std::string d = base + "/d" + std::to_string(i); mkdir(d.c_str(), 0755); dirs.push_back(d); }
    static const char *libs[] = { "CfgOne", "CfgTwo", "CfgThree" };
    // each library may lie in any one of the directories
    std::string home[3]; dirs.erase(dirs.begin());
    for (int i = 0; i < 3; ++i) { home[i] = dirs[r.below(2)] + "/" + libs[i] + ".so"; if (symlink((so_dir() + "/" + libs[i] + ".so").c_str(), home[i].c_str())) {} }
    std::string t, why, bad; int n = (int)r.range(0, 18), bad_at = r.chance(35) ? (int)r.below(n + 1) : -1; bool last_newline = true;
    if (r.chance(70)) { for (int i = 0; i < 2; ++i) { t += "path " + dirs[i] + "\n"; m.dirs.push_back(dirs[i]); } }
    int good = 0;
    for (int i = 0; i <= n; ++i) {
        static const char *eol[] = { "\n", "\n", "\r\n", "\r", "\n\n", "\r\n\r\n\n" };
        if (last_newline && r.chance(15)) t += std::string("#") + (r.chance(50) ? text(r) : "service /x CfgNone") + eol[r.below(6)];
        if (i == bad_at) { std::string d; for (int k = 0; k < 40 && d.empty(); ++k) d = directive(r, m, false, dirs, why); t += d + (i == n && r.chance(50) ? "" : eol[r.below(6)]); bad = why; if (d.empty()) bad.clear(); continue; }
        if (i == n) break;
        std::string d = directive(r, m, true, dirs, why); if (d.empty()) continue; ++good;
        last_newline = !(i + 1 >= n && bad_at < 0 && r.chance(40));
        t += d + (last_newline ? eol[r.below(6)] : "");
    }
    if (!bad.empty() && bad_at < n && r.chance(50) && t[t.size() - 1] != '\n') t += "\n";
    std::string file = base + "/services.conf"; bool missing = r.chance(3); if (!missing) spit(file, t);
    if (missing) bad = "missing file";
    PEnv e(r, 5, 2); std::string got;
    try {
        if (r.chance(25)) { pion::plugin::add_plugin_directory(base); e.srv->load_service_config(r.chance(50) ? "services" : "services.conf"); }
        else e.srv->load_service_config(r.chance(50) ? file : base + "/services");
    } catch (std::exception& x) { got = x.what(); if (got.empty()) got = "error"; }
    std::string d = show(t.substr(0, 1500)); c.distinct(hash_str(t));
    if (!bad.empty()) { c.count("refused"); CHECK(c, !got.empty(), "bad-accepted", bad + ": " + d); }
    else {
        CHECK(c, got.empty(), "good-refused", got + ": " + d); c.count("accepted"); c.count("directives", good); if (!last_newline) c.count("no_final_newline");
        // what the services saw
        std::vector<std::string> opts; std::map<const void*, std::string> made;
        { std::lock_guard<std::mutex> l(g_mu); for (size_t i = 0; i < g_ev.size(); ++i) { Event& v = g_ev[i]; if (v.what == "option") opts.push_back(v.resource + "|" + v.name + "|" + v.value); if (v.what == "create") made[v.obj] = v.lib; } }
        CHECK(c, made.size() == m.services.size(), "services-made", std::to_string(made.size()) + " services instead of " + std::to_string(m.services.size()) + ": " + d);
        for (size_t i = 0; i < std::max(opts.size(), m.options.size()); ++i)
            CHECK(c, i < opts.size() && i < m.options.size() && opts[i] == m.options[i], "options-applied", "option " + std::to_string(i) + ": " + (i < opts.size() ? show(opts[i]) : "none") + " instead of " + (i < m.options.size() ? show(m.options[i]) : "none") + " from " + d);
        c.count("options", opts.size());
        e.start();
        c.count("started"); std::map<std::string, std::string> started; { std::lock_guard<std::mutex> l(g_mu); for (size_t i = 0; i < g_ev.size(); ++i) if (g_ev[i].what == "start") started[g_ev[i].resource] = g_ev[i].lib; }
        CHECK(c, started == m.services, "services-started", "from " + d);
        net::Client k; CHECK(c, k.connect(e.port, e.tls), "connect", "after loading a configuration");
        for (std::map<std::string, std::string>::iterator i = m.services.begin(); i != m.services.end(); ++i) {
            if (!i->first.empty() && i->first[0] != '/') continue;
            bool closed = false; for (std::set<std::string>::iterator j = m.restricted.begin(); j != m.restricted.end(); ++j) if (!m.users.empty() && i->first.compare(0, j->size(), *j) == 0 && (i->first.size() == j->size() || i->first[j->size()] == '/')) closed = true;
            for (int round = 0; round < (closed ? 3 : 1); ++round) {
                std::string hd; bool admit = !closed; std::string u, p;
                if (closed && round) {
                    if (m.users.empty()) break;
                    std::map<std::string, std::string>::iterator w = m.users.begin(); std::advance(w, r.below(m.users.size())); u = w->first; p = w->second; if (round == 1) p += "x";
                    admit = round == 2;
                    if (m.auth == "basic") hd = "Authorization: Basic " + b64(u + ":" + p) + "\r\n";
                    else {
                        static const char hexd[] = "0123456789ABCDEF"; std::string eu, ep; for (size_t q = 0; q < u.size(); ++q) { eu += '%'; eu += hexd[(u[q] >> 4) & 15]; eu += hexd[u[q] & 15]; } for (size_t q = 0; q < p.size(); ++q) { ep += '%'; ep += hexd[(p[q] >> 4) & 15]; ep += hexd[p[q] & 15]; }
                        net::Response lp; CHECK(c, k.send("GET /login?user=" + eu + "&pass=" + ep + " HTTP/1.1\r\nHost: a\r\n\r\n"), "send", "login"); std::string x = net::read_response(k, lp, false, 20);
                        if (x == "timeout") { c.hang("no-answer", "login"); bail(); }
                        std::string ck = lp.header("set-cookie"); size_t a = ck.find('"'), b = a == std::string::npos ? a : ck.find('"', a + 1);
                        CHECK(c, (b != std::string::npos) == admit, "login", "login of " + show(u) + " gave " + std::to_string(lp.status) + " " + show(ck) + " from " + d);
                        if (b != std::string::npos) hd = "Cookie: " + ck.substr(0, b + 1) + "\r\n"; c.count("logins");
                    }
                }
                net::Response p2; CHECK(c, k.send("GET " + i->first + "/q HTTP/1.1\r\nHost: a\r\n" + hd + "\r\n"), "send", "request");
                std::string x = net::read_response(k, p2, false, 20); if (x == "timeout") { c.hang("no-answer", "GET"); bail(); }
                CHECK(c, x.empty(), "no-answer", x);
                bool served = p2.body == "served by " + i->second + " at " + i->first + " for q";
                CHECK(c, served == admit && (p2.status == 200) == admit, "wrong-access", "GET " + i->first + "/q " + (closed ? round == 0 ? "without credentials" : round == 1 ? "with a wrong password" : "with credentials" : "(open)") + " gave " + std::to_string(p2.status) + " " + show(p2.body.substr(0, 80)) + " from " + d);
                c.count(admit ? "served" : "protected");
            }
        }
        k.close();
    }
    // the libraries go with the server: no worker may still be inside their code
    { std::shared_ptr<PEnv::HServer> keep = e.srv; e.end(c); }
    std::map<const void*, int> alive; { std::lock_guard<std::mutex> l(g_mu); for (size_t i = 0; i < g_ev.size(); ++i) { if (g_ev[i].what == "create") ++alive[g_ev[i].obj]; if (g_ev[i].what == "destroy") --alive[g_ev[i].obj]; } }
    for (std::map<const void*, int>::iterator i = alive.begin(); i != alive.end(); ++i) CHECK(c, i->second == 0, "service-not-destroyed", d);
    for (int i = 0; i < 3; ++i) unlink(home[i].c_str());
    unlink(file.c_str()); rmdir((base + "/d0").c_str()); rmdir((base + "/d1").c_str()); rmdir(base.c_str());
}
int main(int argc, char **argv) { G().bail_on_fail = true; return run(argc, argv, 120, 170); }
