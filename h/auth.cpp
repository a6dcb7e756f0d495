// P26 basic authentication, P27 cookie sessions.
#include "httpenv.hpp"
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/user.hpp>
#include <openssl/sha.h>
#include <dlfcn.h>
#include <time.h>

// The clock of the process can be moved forward: sessions age without waiting.
static std::atomic<long> g_clock_offset(0);
extern "C" time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    time_t r = ts.tv_sec + g_clock_offset.load();
    if (t) *t = r;
    return r;
}
static uint64_t hs(const std::string& s) { return hash_str(s); }
static std::string strip(std::string s) { if (!s.empty() && s[s.size() - 1] == '/') s.resize(s.size() - 1); return s; }
static std::string some_path(Rng& r, bool any = true) {
    static const char *seg[] = { "a", "b", "ab", "a-b", "a!", "a.b", "A", "admin" };
    std::string s; int n = (int)r.range(any ? 0 : 1, 3);
    for (int i = 0; i < n; ++i) { s += "/"; s += seg[r.below(8)]; }
    if (r.chance(20)) s += "/";
    return s;
}
static bool under(const std::set<std::string>& v, const std::string& p) {
    for (std::set<std::string>::const_iterator i = v.begin(); i != v.end(); ++i)
        if (p.size() >= i->size() && p.compare(0, i->size(), *i) == 0 && (p.size() == i->size() || p[i->size()] == '/')) return true;
    return false;
}
static std::string b64(const std::string& s) {
    static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o; size_t i = 0;
    for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += A[v & 63]; }
    if (i + 1 == s.size()) { unsigned v = (unsigned char)s[i] << 16; o += A[v >> 18]; o += A[v >> 12 & 63]; o += "=="; }
    else if (i + 2 == s.size()) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += "="; }
    return o;
}
static std::string pct(const std::string& s) {
    static const char d[] = "0123456789ABCDEF"; std::string o;
    for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (isalnum(c)) o += (char)c; else { o += '%'; o += d[c >> 4]; o += d[c & 15]; } }
    return o;
}
// the handler of everything: who it was called for and on which path
struct Calls { std::atomic<int> n; Calls() : n(0) {} };
static pion::http::server::request_handler_t echo(std::shared_ptr<Calls> k) {
    return [k](const request_ptr& q, const connection_ptr& c) {
        ++k->n;
        response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c)));
        pion::user_ptr u = q->get_user();
        w << "user=" << (u ? u->get_username() : std::string("(none)")) << " path=" << q->get_resource(); w->send();
    };
}
static std::string ask(net::Client& k, int port, bool tls, const std::string& text, net::Response& p, bool head = false) {
    if (k.fd < 0 || k.eof) { k.close(); k.eof = k.err = false; k.buf.clear(); if (!k.connect(port, tls)) return "connection refused"; }
    if (!k.send(text)) return "send failed";
    return net::read_response(k, p, head, 25);
}
#define ASK(c, k, e, text, p, head) do { std::string x_ = ask(k, (e).port, (e).tls, text, p, head); \
    if (x_ == "timeout") { (c).hang("no-answer", show(text)); bail(); } \
    CHECK(c, x_.empty(), "no-answer", show(text) + ": " + x_); } while (0)

// ---------------------------------------------------------------- P26
static std::string some_name(Rng& r) {
    static const char *n[] = { "al", "alice", "Alice", "alicea", "bob", "b", "bob ", "x:y" };
    return n[r.below(7)];
}
static std::string some_pass(Rng& r) {
    static const char *n[] = { "pw", "PW", "pw1", "p:w", ":", "", "a longer password with blanks", "\xc3\xa4\xff" };
    return n[r.below(8)];
}
struct BasicModel {
    std::map<std::string, std::string> users; std::set<std::string> restricted, permitted;
    bool guarded(const std::string& path) const {
        if (users.empty()) return false;
        std::string p = strip(path);
        return under(restricted, p) && !under(permitted, p);
    }
};
struct Creds { std::string header; bool well_formed; std::string user, pass, kind; };
static Creds make_creds(Rng& r, const BasicModel& m, const std::vector<std::pair<std::string, std::string> >& old) {
    Creds c; c.well_formed = false; c.kind = "none";
    int k = (int)r.below(12);
    std::string u, p;
    if (!m.users.empty() && r.chance(70)) { std::map<std::string, std::string>::const_iterator i = std::next(m.users.begin(), (long)r.below(m.users.size())); u = i->first; p = i->second; }
    else if (!old.empty() && r.chance(70)) { const std::pair<std::string, std::string>& o = old[r.below(old.size())]; u = o.first; p = o.second; }
    else { u = some_name(r); p = some_pass(r); }
    if (!old.empty() && r.chance(25)) { const std::pair<std::string, std::string>& o = old[r.below(old.size())]; u = o.first; p = o.second; }
    if (k == 0) return c;
    if (k <= 6) { c.well_formed = true; c.kind = "pair"; }
    else if (k == 7) { c.well_formed = true; c.kind = "other password"; switch (r.below(5)) { case 0: p += "x"; break; case 1: p = p.substr(0, p.size() / 2); break; case 2: p += std::string(1, '\0'); break; case 3: p = some_pass(r); break; default: p = ""; } }
    else if (k == 8) { c.well_formed = true; c.kind = "other user"; switch (r.below(4)) { case 0: u += "x"; break; case 1: u = u.substr(0, u.size() / 2); break; case 2: for (size_t i = 0; i < u.size(); ++i) u[i] = (char)toupper(u[i]); break; default: u += std::string(1, '\0'); } }
    else {
        c.kind = "malformed"; std::string e = b64(u + ":" + p);
        switch (r.below(9)) {
        case 0: c.header = "Basic " + b64(u + p == "" || (u + p).find(':') != std::string::npos ? std::string("nocolon") : u + p); break;
        case 1: c.header = "Basic " + b64(":" + p); break;
        case 2: c.header = "Basic"; break;
        case 3: c.header = "Basic " + e.substr(0, (e.size() - 1) / 4 * 4 + 1); break;   // no such length
        case 4: c.header = "Basic !" + e; break;
        case 5: c.header = e; break;
        case 6: c.header = "Digest " + e; break;
        case 7: c.header = "Basic " + u + ":" + p; break;
        default: c.header = "Bearer " + e;
        }
        return c;
    }
    c.user = u; c.pass = p; c.header = "Basic " + b64(u + ":" + p);
    // a name is what stands before the first colon
    size_t i = u.find(':'); if (i != std::string::npos) { c.user = u.substr(0, i); c.pass = u.substr(i + 1) + ":" + p; }
    return c;
}
static std::string hashed(Rng& r, const std::string& p) {      // the digest an administrator would put into a user file
    unsigned char d[32]; size_t n = r.chance(50) ? 20 : 32; if (n == 20) SHA1((const unsigned char*)p.data(), p.size(), d); else SHA256((const unsigned char*)p.data(), p.size(), d);
    std::string o; char b[3]; for (size_t i = 0; i < n; ++i) { snprintf(b, 3, r.chance(50) ? "%02x" : "%02X", d[i]); o += b; } return o;
}
SCENARIO("P26", "decisions", 300, 4000) {
    Rng& r = c.rng;
    Env e(r, 8, 3);
    std::shared_ptr<Calls> calls(new Calls); int expected = 0;
    pion::user_manager_ptr um(new pion::user_manager);
    std::string realm = r.chance(50) ? "PION" : "the realm " + std::to_string(r.below(100));
    boost::shared_ptr<pion::http::basic_auth> auth(new pion::http::basic_auth(um, r.chance(50) ? realm : "other"));
    auth->set_option("realm", realm);
    BasicModel m; std::vector<std::pair<std::string, std::string> > old; uint64_t h = 0;
    e.srv->add_resource("", echo(calls));
    e.srv->set_authentication(auth);
    std::map<std::string, std::string> redirects;
    for (size_t i = 0, n = r.below(3); i < n; ++i) { std::string a = "/r" + std::to_string(i), b = strip(some_path(r, false)); e.srv->add_redirect(a, b); redirects[a] = b; }
    for (size_t i = 0, n = r.below(3); i < n; ++i) { std::string p = some_path(r); auth->add_restrict(p); m.restricted.insert(strip(p)); }
    e.start();
    net::Client k;
    int ops = (int)r.range(15, 70);
    for (int i = 0; i < ops; ++i) {
        int o = (int)r.below(20);
        if (o == 0) { std::string p = some_path(r); auth->add_restrict(p); m.restricted.insert(strip(p)); }
        else if (o == 1 && r.chance(50)) { std::string p = some_path(r, false); auth->add_permit(p); m.permitted.insert(strip(p)); }
        else if (o <= 4) {
            std::string u = some_name(r), p = some_pass(r); bool ok, by_hash = r.chance(25);
            switch (r.below(4)) {
            case 0: case 1: ok = by_hash ? um->add_user_hash(u, hashed(r, p)) : auth->add_user(u, p); CHECK(c, ok == !m.users.count(u), "user-added", u); if (ok) m.users[u] = p; break;
            case 2: ok = by_hash ? um->update_user_hash(u, hashed(r, p)) : auth->update_user(u, p); if (by_hash) c.count("users_changed_by_hash"); CHECK(c, ok == (m.users.count(u) > 0), "user-updated", u); if (ok) { old.push_back(std::make_pair(u, m.users[u])); m.users[u] = p; c.count("password_changes"); } break;
            default: ok = auth->remove_user(u); CHECK(c, ok == (m.users.count(u) > 0), "user-removed", u); if (ok) { old.push_back(std::make_pair(u, m.users[u])); m.users.erase(u); c.count("user_removals"); }
            }
        } else if (o == 5 && r.chance(20)) { g_clock_offset += r.range(1, 400); }
        else {
            std::string path = r.chance(50) && !m.restricted.empty() ? *std::next(m.restricted.begin(), (long)r.below(m.restricted.size())) : some_path(r, false);
            if (r.chance(20) && !m.permitted.empty()) path = *std::next(m.permitted.begin(), (long)r.below(m.permitted.size()));
            if (r.chance(15) && !redirects.empty()) path = std::next(redirects.begin(), (long)r.below(redirects.size()))->first;
            switch (r.below(6)) { case 0: path += "/"; break; case 1: path += "/x"; break; case 2: path += "x"; break; default: break; }
            if (path.empty() || path[0] != '/') path = "/" + path;
            std::string target = redirects.count(strip(path)) ? redirects[strip(path)] : path;
            Creds cr = make_creds(r, m, old);
            bool head = r.chance(5);
            std::string t = std::string(head ? "HEAD " : "GET ") + path + (r.chance(20) ? "?q=1" : "") + " HTTP/1.1\r\nHost: a\r\n";
            if (!cr.header.empty()) t += std::string(r.chance(80) ? "Authorization" : "AUTHORIZATION") + ": " + cr.header + "\r\n";
            t += "\r\n";
            net::Response p; ASK(c, k, e, t, p, head);
            bool guarded = m.guarded(target), known = cr.well_formed && m.users.count(cr.user) && m.users[cr.user] == cr.pass && !cr.user.empty();
            std::string d = path + (target != path ? " -> " + target : "") + " with " + cr.kind + " " + show(cr.header) + (cr.well_formed ? " (" + show(cr.user + ":" + cr.pass) + ")" : "");
            h = mix64(h ^ hs(t) ^ (guarded ? 1 : 2));
            if (guarded && !known) {
                CHECK(c, p.status == 401, "admitted-without-credentials", d + " gave " + std::to_string(p.status) + " " + show(p.body));
                CHECK(c, p.header("www-authenticate") == "Basic realm=\"" + realm + "\"", "realm-missing", d + ": " + show(p.header("www-authenticate")));
                c.count("refused"); if (cr.kind == "malformed") c.count("malformed_refused"); if (cr.well_formed) c.count("wrong_credentials_refused");
            } else {
                ++expected;
                CHECK(c, p.status == 200, guarded ? "refused-valid-credentials" : "open-path-refused", d + " gave " + std::to_string(p.status));
                if (guarded) { if (!head) CHECK(c, p.body.compare(0, 5 + cr.user.size() + 1, "user=" + cr.user + " ") == 0, "wrong-user", d + ": " + show(p.body)); c.count("admitted"); }
                else c.count("open_requests");
            }
            CHECK(c, calls->n == expected, "handler-calls", d + ": " + std::to_string(calls->n) + " handler calls instead of " + std::to_string(expected));
        }
    }
    c.distinct(h); if (e.tls) c.count("tls_rounds");
    k.close(); e.srv->set_authentication(pion::http::auth_ptr()); e.end(c);
}
// users change while requests are checked
SCENARIO("P26", "changes", 40, 400) {
    Rng& r = c.rng;
    Env e(r, 0, 6);
    std::shared_ptr<Calls> calls(new Calls);
    pion::user_manager_ptr um(new pion::user_manager);
    boost::shared_ptr<pion::http::basic_auth> auth(new pion::http::basic_auth(um));
    auth->add_user("steady", "s1"); auth->add_user("flip", "f0"); auth->add_restrict("/in");
    e.srv->add_resource("", echo(calls)); e.srv->set_authentication(auth);
    e.start();
    inj::lock_delay_pct = r.chance(50) ? (int)r.range(1, 100) : 0;
    std::atomic<int> go(1), left(0); std::vector<boost::thread*> th; std::mutex mu; std::string err;
    int nc = (int)r.range(2, 5);
    uint64_t ms = r(); boost::thread mutator([&, ms] {
        Rng q(ms); int n = 0; while (go) { ++n;
            if (q.chance(50)) auth->update_user("flip", "f" + std::to_string(n % 2)); else if (q.chance(50)) { auth->remove_user("gone"); } else auth->add_user("gone", "g");
            if (q.chance(20)) auth->add_restrict("/in/" + std::to_string(n % 50)); if (q.chance(10)) auth->add_permit("/out/" + std::to_string(n % 50));
            if (q.chance(10)) g_clock_offset += 100;
        } });
    for (int i = 0; i < nc; ++i) { uint64_t s = r(); ++left; th.push_back(new boost::thread([&, s] {
        Rng q(s); net::Client k; std::string x;
        for (int j = 0; j < 40 && x.empty(); ++j) {
            static const char *cr[] = { "steady:s1", "steady:s2", "flip:f0", "flip:f1", "flip:f2", "gone:g", "gone:h", "" };
            static const int want[] = { 1, 0, -1, -1, 0, -1, 0, 0 };
            int w = (int)q.below(8); bool open = q.chance(20);
            net::Response p; x = ask(k, e.port, false, std::string("GET ") + (open ? "/out/1" : "/in/1") + " HTTP/1.1\r\n" + (cr[w][0] ? "Authorization: Basic " + b64(cr[w]) + "\r\n" : std::string()) + "\r\n", p);
            if (!x.empty()) break;
            if (open) { if (p.status != 200) x = "open path gave " + std::to_string(p.status); continue; }
            std::string u = std::string(cr[w]).substr(0, std::string(cr[w]).find(':'));
            if (p.status == 200 && (want[w] == 0 || p.body.compare(0, 6 + u.size(), "user=" + u + " "))) x = std::string(cr[w]) + " admitted: " + show(p.body);
            else if (p.status != 200 && p.status != 401) x = "status " + std::to_string(p.status);
            else if (p.status == 401 && want[w] == 1) x = std::string(cr[w]) + " refused";
            c.count("requests_during_changes");
        }
        if (!x.empty()) { std::lock_guard<std::mutex> l(mu); err = x; }
        --left; })); }
    if (!wait_until([&] { return left == 0; }, 90)) { c.hang("clients-stuck", "authenticating clients"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    go = 0; mutator.join(); inj::off();
    if (err == "timeout") { c.hang("no-answer", "during user changes"); bail(); }
    CHECK(c, err.empty(), "decision-during-changes", err);
    // what holds now, whatever was answered before
    auth->update_user("flip", "f0"); auth->remove_user("gone"); net::Client k; net::Response p;
    static const char *cr[] = { "flip:f0", "flip:f1", "gone:g", "steady:s1" }; static const int want[] = { 200, 401, 401, 200 };
    for (int i = 0; i < 4; ++i) { net::Response q; ASK(c, k, e, std::string("GET /in HTTP/1.1\r\nAuthorization: Basic ") + b64(cr[i]) + "\r\n\r\n", q, false);
        CHECK(c, q.status == want[i], q.status == 200 ? "admitted-without-credentials" : "refused-valid-credentials", std::string(cr[i]) + " after the changes gave " + std::to_string(q.status)); c.count("decisions_after_changes"); }
    c.distinct(mix64(r()));
    k.close(); e.srv->set_authentication(pion::http::auth_ptr()); e.end(c);
}

// ---------------------------------------------------------------- P27
static std::string cookie_of(const net::Response& p) {
    typedef std::multimap<std::string, std::string>::const_iterator I;
    for (I i = p.h.lower_bound("set-cookie"); i != p.h.upper_bound("set-cookie"); ++i) {
        std::string v = i->second; size_t a = v.find("pion_session_id=");
        if (a != 0) continue;
        v = v.substr(16); v = v.substr(0, v.find(';'));
        if (v.size() >= 2 && v[0] == '"') v = v.substr(1, v.size() - 2);
        return v;
    }
    return "";
}
struct Session { std::string user; long used; };
SCENARIO("P27", "sessions", 250, 3000) {
    Rng& r = c.rng;
    Env e(r, 8, 3);
    std::shared_ptr<Calls> calls(new Calls); int expected = 0;
    pion::user_manager_ptr um(new pion::user_manager);
    std::string redirect = r.chance(40) ? "/signin" : "", login = r.chance(70) ? "/login" : "/in/enter", logout = r.chance(70) ? "/logout" : "/in/leave";
    boost::shared_ptr<pion::http::cookie_auth> auth(r.chance(50) ? new pion::http::cookie_auth(um, login, logout, redirect) : new pion::http::cookie_auth(um));
    auth->set_option("login", login); auth->set_option("logout", logout); auth->set_option("redirect", redirect);
    std::map<std::string, std::string> users; std::set<std::string> restricted, permitted;
    users["ann"] = "a pw"; users["ben"] = "b&=%"; users["Ann"] = "other"; for (std::map<std::string, std::string>::iterator i = users.begin(); i != users.end(); ++i) auth->add_user(i->first, i->second);
    std::string base = r.chance(30) ? "" : "/in";
    auth->add_restrict(base); restricted.insert(base);
    if (r.chance(50)) { auth->add_permit("/in/free"); permitted.insert("/in/free"); }
    e.srv->add_resource("", echo(calls)); e.srv->set_authentication(auth);
    e.start();
    std::map<std::string, Session> live; std::vector<std::string> dead; std::set<std::string> issued; net::Client k; uint64_t h = 0;
    int ops = (int)r.range(15, 60);
    for (int i = 0; i < ops; ++i) {
        int o = (int)r.below(10); long now_s = (long)time(0);
        // the cookie this request carries
        std::string ck, kind = "none";
        switch (r.below(8)) {
        case 0: break;
        case 1: case 2: case 3: case 4: if (!live.empty()) { ck = std::next(live.begin(), (long)r.below(live.size()))->first; kind = "issued"; } break;
        case 5: if (!dead.empty()) { ck = dead[r.below(dead.size())]; kind = "ended"; } break;
        case 6: if (!live.empty()) { ck = std::next(live.begin(), (long)r.below(live.size()))->first; kind = "altered"; switch (r.below(4)) { case 0: ck.resize(ck.size() - 1 - r.below(2)); break; case 1: { size_t p = r.below(ck.size() - 2); ck[p] = ck[p] == 'A' ? 'B' : 'A'; break; } case 2: for (size_t j = 0; j < ck.size(); ++j) ck[j] = (char)(isupper((unsigned char)ck[j]) ? tolower(ck[j]) : toupper(ck[j])); break; default: ck += "x"; } if (live.count(ck)) { ck.clear(); kind = "none"; } } break;
        default: ck = b64(r.bytes(20)); kind = "forged";
        }
        std::string hdr = ck.empty() ? "" : std::string("Cookie: ") + (r.chance(30) ? "other=1; " : "") + "pion_session_id=" + ck + (r.chance(20) ? "; last=2" : "") + "\r\n";
        if (o < 2) {                         // login
            std::string u = r.chance(70) ? (r.chance(50) ? "ann" : r.chance(70) ? "ben" : "Ann") : r.chance(50) ? "nobody" : "ANN";
            std::string pw = users.count(u) && r.chance(75) ? users[u] : r.chance(50) ? "wrong" : "";
            std::string url = r.chance(30) ? (r.chance(60) ? "/in/start?x=1" : std::string("/x\r\nSet-Cookie: pion_session_id=evil\r\n\r\nbody") + r.bytes(r.below(4))) : "";
            bool ok = users.count(u) && users[u] == pw, post = r.chance(25);
            std::string q = "user=" + pct(u) + "&pass=" + pct(pw) + (url.empty() ? "" : "&url=" + pct(url));
            std::string t = post ? "POST " + login + " HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(q.size()) + "\r\n" + hdr + "\r\n" + q
                                 : "GET " + login + (r.chance(20) ? "/" : "") + "?" + q + " HTTP/1.1\r\n" + hdr + "\r\n";
            net::Response p; ASK(c, k, e, t, p, false);
            std::string nc = cookie_of(p), d = "login " + u + ":" + pw + (post ? " (POST)" : "");
            CHECK(c, p.h.count("set-cookie") == (ok ? 1u : 0u), ok ? "login-without-session" : "session-without-login", d + " gave " + std::to_string(p.status) + " with " + std::to_string(p.h.count("set-cookie")) + " cookies");
            CHECK(c, k.buf.empty(), "more-than-one-answer", d + ": " + show(k.buf.substr(0, 100)));
            if (ok) {
                CHECK(c, nc.size() >= 16 && nc != "evil", "weak-session", d + ": session identifier " + show(nc));
                CHECK(c, issued.insert(nc).second, "session-reused", d + ": session identifier " + nc + " issued before");
                if (url.empty()) CHECK(c, p.status == 204, "login-answer", d + " gave " + std::to_string(p.status)); 
                else { CHECK(c, p.status == 302 && p.h.count("location") == 1, "login-answer", d + " gave " + std::to_string(p.status)); if (url.find('\r') == std::string::npos) CHECK(c, p.header("location") == url, "login-redirect", d + ": " + show(p.header("location"))); else c.count("hostile_redirects"); }
                Session s; s.user = u; s.used = now_s; live[nc] = s; c.count("logins");
            } else { CHECK(c, redirect.empty() ? p.status == 401 : p.status == 302 && p.header("location") == redirect, "failed-login-answer", d + " gave " + std::to_string(p.status)); c.count("failed_logins"); }
            h = mix64(h ^ hs(d));
        } else if (o == 2) {                 // logout
            std::string url = r.chance(35) ? (r.chance(60) ? "/in/bye?x=1" : std::string("/x\r\nSet-Cookie: pion_session_id=evil\r\n\r\nbody") + r.bytes(r.below(4))) : "";
            net::Response p; ASK(c, k, e, "GET " + logout + (r.chance(20) ? "/" : "") + (url.empty() ? "" : "?url=" + pct(url)) + " HTTP/1.1\r\n" + hdr + "\r\n", p, false);
            CHECK(c, p.status == (url.empty() ? 204 : 302), "logout-answer", "logout gave " + std::to_string(p.status));
            CHECK(c, k.buf.empty() && cookie_of(p) != "evil", "more-than-one-answer", "logout with url " + show(url) + ": " + show(k.buf.substr(0, 100)));
            if (!url.empty()) { c.count("logouts_with_redirect"); if (url.find('\r') == std::string::npos) CHECK(c, p.header("location") == url, "logout-redirect", show(p.header("location"))); else CHECK(c, p.h.count("location") == 1, "logout-redirect", p.line); }
            if (live.count(ck)) { live.erase(ck); dead.push_back(ck); c.count("logouts"); }
            h = mix64(h ^ 5);
        } else if (o == 3) {                 // time passes; nothing close to the limit
            long step = r.chance(50) ? r.range(5, 1500) : r.range(1500, 5000), t2 = now_s + step; bool close = false;
            for (std::map<std::string, Session>::iterator j = live.begin(); j != live.end(); ++j) { long age = t2 - j->second.used; if (age > 3560 && age < 3640) close = true; }
            if (close) continue;
            g_clock_offset += step; c.count("clock_steps"); h = mix64(h ^ (uint64_t)step);
        } else {
            static const char *paths[] = { "/in", "/in/", "/in/doc", "/in/free/x", "/inx", "/open", "/signin", "/in/free", "/loginx", "/login/x" };
            std::string path = paths[r.below(10)]; if (!redirect.empty() && r.chance(15)) { static const char *tails[] = { "2", "/x", ".html", "x" }; path = redirect + tails[r.below(4)]; c.count("near_redirect_requests"); }
            net::Response p; ASK(c, k, e, "GET " + path + " HTTP/1.1\r\n" + hdr + "\r\n", p, false);
            bool guarded = under(restricted, strip(path)) && !under(permitted, strip(path)) && !(path == redirect);
            bool valid = live.count(ck) > 0; long age = valid ? (long)time(0) - live[ck].used : 0;
            bool alive = valid && age <= 3600; std::string d = path + " with " + kind + " cookie" + (valid ? " last used " + std::to_string(age) + " s ago" : "");
            h = mix64(h ^ hs(path + kind) ^ (uint64_t)alive);
            if (guarded && !alive) {
                CHECK(c, redirect.empty() ? p.status == 401 : p.status == 302 && p.header("location") == redirect, "admitted-without-session", d + " gave " + std::to_string(p.status) + " " + show(p.body));
                c.count("refused"); if (valid) { c.count("expired_refused"); live.erase(ck); dead.push_back(ck); } else if (kind != "none") c.count("bad_cookies_refused");
            } else {
                ++expected;
                CHECK(c, p.status == 200, guarded ? "session-refused" : "open-path-refused", d + " gave " + std::to_string(p.status));
                if (guarded) { CHECK(c, p.body.compare(0, 6 + live[ck].user.size(), "user=" + live[ck].user + " ") == 0, "wrong-user", d + ": " + show(p.body)); live[ck].used = now_s; c.count("admitted"); if (age > 1800) c.count("old_sessions_admitted"); }
                else c.count("open_requests");
            }
            CHECK(c, calls->n == expected, "handler-calls", d + ": " + std::to_string(calls->n) + " handler calls instead of " + std::to_string(expected));
        }
    }
    c.distinct(h); if (e.tls) c.count("tls_rounds");
    k.close(); e.srv->set_authentication(pion::http::auth_ptr()); e.end(c);
}
// many users log in, use and end their sessions at the same time
SCENARIO("P27", "many", 40, 400) {
    Rng& r = c.rng;
    Env e(r, 0, 6);
    std::shared_ptr<Calls> calls(new Calls);
    pion::user_manager_ptr um(new pion::user_manager);
    boost::shared_ptr<pion::http::cookie_auth> auth(new pion::http::cookie_auth(um));
    int n = (int)r.range(2, 6);
    for (int i = 0; i < n; ++i) auth->add_user("u" + std::to_string(i), "p" + std::to_string(i));
    auth->add_restrict("/in"); e.srv->add_resource("", echo(calls)); e.srv->set_authentication(auth);
    e.start();
    inj::lock_delay_pct = r.chance(50) ? (int)r.range(1, 100) : 0;
    std::atomic<int> left(n); std::vector<boost::thread*> th; std::mutex mu; std::string err; std::set<std::string> all;
    for (int i = 0; i < n; ++i) { uint64_t s = r(); th.push_back(new boost::thread([&, s, i] {
        Rng q(s); net::Client k; std::string x, me = std::to_string(i); std::vector<std::string> mine, ended;
        for (int j = 0; j < 40 && x.empty(); ++j) {
            net::Response p; int o = (int)q.below(4);
            if (o == 0 || mine.empty()) {
                x = ask(k, e.port, false, "GET /login?user=u" + me + "&pass=p" + me + " HTTP/1.1\r\n\r\n", p); if (!x.empty()) break;
                std::string ck = cookie_of(p); if (p.status != 204 || ck.empty()) { x = "login gave " + std::to_string(p.status) + " " + ck; break; }
                std::lock_guard<std::mutex> l(mu); if (!all.insert(ck).second) x = "session identifier issued twice: " + ck;
                mine.push_back(ck); c.count("logins");
            } else if (o == 1) {
                size_t w = q.below(mine.size()); std::string ck = mine[w]; mine.erase(mine.begin() + (long)w);
                x = ask(k, e.port, false, "GET /logout HTTP/1.1\r\nCookie: pion_session_id=" + ck + "\r\n\r\n", p); if (x.empty() && p.status != 204) x = "logout gave " + std::to_string(p.status); ended.push_back(ck); c.count("logouts");
            } else {
                bool dead = !ended.empty() && q.chance(40); std::string ck = dead ? ended[q.below(ended.size())] : mine[q.below(mine.size())];
                x = ask(k, e.port, false, "GET /in/x HTTP/1.1\r\nCookie: pion_session_id=" + ck + "\r\n\r\n", p); if (!x.empty()) break;
                if (p.status != (dead ? 401 : 200)) x = std::string(dead ? "ended" : "current") + " session gave " + std::to_string(p.status);
                else if (!dead && p.body.compare(0, 7 + me.size(), "user=u" + me + " ")) x = "session of u" + me + ": " + show(p.body);
                c.count(dead ? "refused" : "admitted");
            }
        }
        if (!x.empty()) { std::lock_guard<std::mutex> l(mu); err = x; }
        --left; })); }
    if (!wait_until([&] { return left == 0; }, 90)) { c.hang("clients-stuck", "clients with sessions"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    inj::off();
    if (err == "timeout") { c.hang("no-answer", "concurrent sessions"); bail(); }
    CHECK(c, err.empty(), "concurrent-sessions", err);
    c.distinct(mix64(r()));
    e.srv->set_authentication(pion::http::auth_ptr()); e.end(c);
}

// sessions belong to the authentication object that issued them, whenever it was created
SCENARIO("P27", "several", 40, 400) {
    Rng& r = c.rng;
    Env e(r, 0, 2);
    std::shared_ptr<Calls> calls(new Calls);
    pion::user_manager_ptr um(new pion::user_manager); um->add_user("ann", "pw");
    size_t n = 2 + r.below(4); std::vector<boost::shared_ptr<pion::http::cookie_auth> > au;
    for (size_t i = 0; i < n; ++i) { pion::user_manager_ptr own(new pion::user_manager); own->add_user("ann", "pw"); au.push_back(boost::shared_ptr<pion::http::cookie_auth>(new pion::http::cookie_auth(r.chance(50) ? um : own))); au.back()->add_restrict("/in"); }
    e.srv->add_resource("", echo(calls)); e.srv->set_authentication(au[0]); e.start();
    net::Client k; std::map<std::string, size_t> owner; int turns = (int)r.range(4, 16);
    for (int t = 0; t < turns; ++t) {
        size_t w = r.below(n); e.srv->set_authentication(au[w]); net::Response p;
        for (int l = (int)r.below(3); l >= 0; --l) {
            ASK(c, k, e, "GET /login?user=ann&pass=pw HTTP/1.1\r\n\r\n", p, false); std::string ck = cookie_of(p);
            CHECK(c, p.status == 204 && ck.size() >= 16, "login-without-session", std::to_string(p.status));
            CHECK(c, owner.insert(std::make_pair(ck, w)).second, "session-reused", "session identifier " + ck + " issued by object " + std::to_string(w) + " and before by object " + std::to_string(owner[ck])); c.count("logins"); p = net::Response();
        }
        for (std::map<std::string, size_t>::iterator i = owner.begin(); i != owner.end(); ++i) {
            net::Response q; ASK(c, k, e, "GET /in/x HTTP/1.1\r\nCookie: pion_session_id=" + i->first + "\r\n\r\n", q, false);
            CHECK(c, q.status == (i->second == w ? 200 : 401), "session-of-another-object", "session of object " + std::to_string(i->second) + " gave " + std::to_string(q.status) + " with object " + std::to_string(w));
            c.count(i->second == w ? "admitted" : "foreign_sessions_refused");
        }
    }
    c.distinct(mix64(r())); k.close(); e.srv->set_authentication(pion::http::auth_ptr()); e.end(c);
}
int main(int argc, char **argv) { G().bail_on_fail = true; return run(argc, argv, 120, 170); }
