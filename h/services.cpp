// P37, P40: the bundled echo, cookie, hello and allow-nothing services.
#include "httpenv.hpp"
#include "httpgen.hpp"
#include <pion/http/plugin_server.hpp>
#include <pion/http/basic_auth.hpp>
#include "EchoService.hpp"
#include "CookieService.hpp"
#include "HelloService.hpp"
#include "AllowNothingService.hpp"
#include <boost/filesystem/fstream.hpp>
#include "FileService.hpp"
#include <pion/http/cookie_auth.hpp>
#include <sys/stat.h>
#include <dirent.h>
typedef EnvT<pion::http::plugin_server> SEnv;
using vh::show;
static uint64_t hs(const std::string& s) { return hash_str(s); }
typedef std::pair<std::string, std::string> kv_t;
typedef std::multiset<kv_t> mset;
static std::string hex_enc(Rng& r, const std::string& s, int extra) {
    static const char up[] = "0123456789ABCDEF", lo[] = "0123456789abcdef"; std::string o;
    for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; const char *d = r.chance(50) ? up : lo; if (c == ' ' && r.chance(40)) o += '+'; else if (isalnum(c) && !r.chance(extra)) o += (char)c; else { o += '%'; o += d[c >> 4]; o += d[c & 15]; } }
    return o;
}
static std::string b64(const std::string& s) {
    static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
    for (size_t i = 0; i < s.size(); i += 3) { size_t n = s.size() - i; unsigned v = (unsigned char)s[i] << 16 | (n > 1 ? (unsigned char)s[i + 1] << 8 : 0) | (n > 2 ? (unsigned char)s[i + 2] : 0); o += A[v >> 18]; o += A[v >> 12 & 63]; o += n > 1 ? A[v >> 6 & 63] : '='; o += n > 2 ? A[v & 63] : '='; }
    return o;
}
static std::string ask(net::Client& k, SEnv& e, const std::string& text, net::Response& p, bool head, Rng& r) {
    for (int i = 0; ; ++i) {
        bool fresh = k.fd < 0 || k.eof;
        if (fresh) { k.close(); k.eof = k.err = false; k.buf.clear(); if (!k.connect(e.port, e.tls)) return "connection refused"; }
        if (!net::send_pieces(k, text, r)) { if (!fresh && i == 0) { k.eof = true; continue; } }
        std::string x = net::read_response(k, p, head, 25);
        if (p.status && (net::lower(p.header("connection")) == "close" || p.version == "1.0")) k.eof = true;
        if (x == "eof" && !fresh && i == 0) continue;
        return x;
    }
}
#define ASK(c, k, e, text, p, head) do { std::string x_ = ask(k, e, text, p, head, c.rng); \
    if (x_ == "timeout") { (c).hang("no-answer", show(std::string(text).substr(0, 200))); bail(); } \
    CHECK(c, x_.empty(), "no-answer", show(std::string(text).substr(0, 300)) + ": " + x_); } while (0)

// takes each of the expected lines, in any order, off the front of s; what did not fit, or ""
static std::string take_lines(std::string& s, const std::string& end, mset want, const std::string& what) {
    std::vector<std::string> ls; for (mset::iterator i = want.begin(); i != want.end(); ++i) ls.push_back(i->first + ": " + i->second + "\r\n");
    std::sort(ls.begin(), ls.end(), [](const std::string& a, const std::string& b) { return a.size() > b.size(); });
    while (!ls.empty()) {
        size_t i = 0; while (i < ls.size() && s.compare(0, ls[i].size(), ls[i])) ++i;
        if (i == ls.size()) return what + ": found " + show(s.substr(0, 80)) + " instead of " + show(ls[0]) + " or " + std::to_string(ls.size() - 1) + " others";
        s.erase(0, ls[i].size()); ls.erase(ls.begin() + (long)i);
    }
    if (s.compare(0, end.size(), end)) return what + " followed by " + show(s.substr(0, 80)) + " instead of " + show(end);
    s.erase(0, end.size()); return "";
}
static std::string take(std::string& s, const std::string& w) { if (s.compare(0, w.size(), w)) return "found " + show(s.substr(0, 120)) + " instead of " + show(w.substr(0, 120)); s.erase(0, w.size()); return ""; }

SCENARIO("P37", "echo", 400, 6000) {
    Rng& r = c.rng; SEnv e(r, 12); static const char *bases[] = { "/echo", "/e", "/a/b/echo", "/echo2" }; std::string base = bases[r.below(4)];
    e.srv->add_service(base, new pion::plugins::EchoService); e.srv->add_redirect("/old", base); e.srv->add_redirect("/older", base + "/x");
    if (base != "/echo2" && r.chance(50)) e.srv->add_service("/hi", new pion::plugins::HelloService);
    bool auth = r.chance(40); std::string user = r.chance(50) ? "al" : "Some One", pass = "p:w d";
    if (auth) { pion::user_manager_ptr um(new pion::user_manager); pion::http::auth_ptr a(new pion::http::basic_auth(um, "echo")); a->add_user(user, pass); a->add_restrict(base); e.srv->set_authentication(a); }
    e.start(); net::Client k; uint64_t h = 0; int n = (int)r.range(2, 14);
    for (int q = 0; q < n; ++q) {
        // the request, with everything it says
        static const std::vector<std::string> ms = { "GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD" }; std::string m = r.chance(85) ? r.pick(ms) : "X" + r.from(hg::TOKEN, r.below(12));
        bool head = m == "HEAD", old = q + 1 == n && r.chance(30); std::string orig, res, sub;
        if (r.chance(40)) { std::string s = hg::gen_resource(r); sub = s.substr(0, 200); while (!sub.empty() && sub[sub.size() - 1] == '/') sub.resize(sub.size() - 1); }
        int rd = (int)r.below(5); if (rd == 0) { orig = "/old"; res = base; } else if (rd == 1) { orig = "/older"; res = base + "/x"; } else orig = res = base + sub;
        if (rd > 1 && r.chance(20)) orig = res = base + sub + "/"; else if (rd <= 1 && r.chance(30)) orig += "/";
        mset queries, cookies, headers; std::string qs, form; bool has_form = r.chance(25) && !head;
        for (int part = 0; part < (has_form ? 2 : 1); ++part) {
            std::string& t = part ? form : qs; if (!part && r.chance(40)) continue;
            for (int i = (int)r.range(part ? 0 : 1, 5); i > 0; --i) { std::string a = r.chance(60) ? r.from("abcXYZ_1", 1 + r.below(6)) : "n" + r.bytes(r.below(6)), b = r.chance(20) ? "" : r.chance(60) ? r.from("abc 012", r.below(20)) : r.bytes(r.below(30)); a.erase(std::remove(a.begin(), a.end(), '\0'), a.end()); b.erase(std::remove(b.begin(), b.end(), '\0'), b.end()); t += (t.empty() ? "" : "&") + hex_enc(r, a, 20) + "=" + hex_enc(r, b, 20); queries.insert(kv_t(a, b)); }
        }
        std::string t = m + " " + orig + (qs.empty() ? "" : "?" + qs) + " HTTP/1." + (old ? "0" : "1") + "\r\n"; std::vector<kv_t> hl; hl.push_back(kv_t("Host", "localhost"));
        for (int i = (int)r.below(6); i > 0; --i) { std::string a = hg::gen_hname(r), l = hg::lower(a), b = hg::gen_value(r, r.chance(5) ? 2000 : 40); if (l == "connection" || l == "host" || l == "authorization" || l == "expect") continue; hl.push_back(kv_t(a, b)); }
        if (r.chance(50)) { std::string ck; for (int i = (int)r.range(1, 4); i > 0; --i) { std::string a = r.from("abcdef_XY", 1 + r.below(6)), b = r.from("abc0123=-", r.below(12)); ck += (ck.empty() ? "" : "; ") + a + "=" + (r.chance(30) ? "\"" + b + "\"" : b); cookies.insert(kv_t(a, b)); } hl.push_back(kv_t("Cookie", ck)); }
        if (auth) hl.push_back(kv_t("Authorization", "Basic " + b64(user + ":" + pass)));
        if (r.chance(30)) hl.push_back(kv_t("Connection", r.chance(50) && !old ? "Keep-Alive" : "close"));
        std::string body = has_form ? form : head || m == "GET" ? (r.chance(15) ? r.bytes(20) : std::string()) : r.chance(30) ? std::string() : r.bytes(r.below(r.chance(20) ? 30000 : 200)); bool chunked = !old && !has_form && !body.empty() && r.chance(35); std::string wire_body = body;
        if (has_form) hl.push_back(kv_t("Content-Type", r.chance(70) ? "application/x-www-form-urlencoded" : "application/x-www-form-urlencoded; charset=utf-8"));
        if (chunked) { hl.push_back(kv_t("Transfer-Encoding", "chunked")); wire_body.clear(); for (size_t o = 0; o < body.size();) { size_t z = 1 + r.below(body.size() - o); char b[24]; snprintf(b, sizeof b, "%zx\r\n", z); wire_body += b + body.substr(o, z) + "\r\n"; o += z; } wire_body += "0\r\n\r\n"; }
        else if (!body.empty() || has_form || r.chance(40)) hl.push_back(kv_t("Content-Length", std::to_string(body.size())));
        for (size_t i = 0; i < hl.size(); ++i) { size_t j = i + r.below(hl.size() - i); std::swap(hl[i], hl[j]); t += hl[i].first + ": " + hl[i].second + "\r\n"; headers.insert(hl[i]); }
        t += "\r\n" + wire_body; h = mix64(h ^ hs(t));
        net::Response p; ASK(c, k, e, t, p, head);
        std::string d = " for " + show(t.substr(0, 400));
        CHECK(c, p.status == 200 && p.header("content-type") == "text/plain", "echo-status", p.line + " " + show(p.header("content-type")) + d);
        c.count("requests_echoed"); if (rd <= 1) c.count("redirects_echoed"); if (head) { c.count("heads"); continue; }
        std::string s = p.body, x;
        x = take(s, "[Request Echo]\r\n\r\nRequest method: " + m + "\r\nResource originally requested: " + orig + "\r\nResource delivered: " + res + "\r\nQuery string: " + qs + "\r\nHTTP version: 1." + (old ? "0" : "1") + "\r\nContent length: " + std::to_string(body.size()) + "\r\n\r\n[Request Headers]\r\n\r\n"); CHECK(c, x.empty(), "echo-request", x + d);
        x = take_lines(s, "\r\n[Query Parameters]\r\n\r\n", headers, "headers"); CHECK(c, x.empty(), "echo-headers", x + d);
        x = take_lines(s, "\r\n[Cookie Parameters]\r\n\r\n", queries, "query parameters"); CHECK(c, x.empty(), "echo-queries", x + d);
        x = take_lines(s, "\r\n[POST Content]\r\n\r\n", cookies, "cookies"); CHECK(c, x.empty(), "echo-cookies", x + d);
        x = take(s, body.empty() ? std::string() : body + "\r\n\r\n"); CHECK(c, x.empty(), "echo-content", x + d);
        CHECK(c, s == (auth ? "[USER Info]\r\n\r\nUser authenticated, username: " + user + "\r\n" : std::string()), "echo-user", show(s.substr(0, 120)) + d);
        c.count("headers_echoed", headers.size()); c.count("queries_echoed", queries.size()); c.count("cookies_echoed", cookies.size()); if (!body.empty()) c.count("contents_echoed"); if (auth) c.count("users_echoed"); if (body.size() < 20) c.sample(show(t.substr(0, 300)));
    }
    c.distinct(h); k.close(); e.srv->set_authentication(pion::http::auth_ptr()); e.end(c);
}

// ---------------------------------------------------------------- a page as a browser reads it
struct Item { bool tag; std::string s; };       // tag with its attributes, or text
static std::string unescape(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        size_t e = s[i] == '&' ? s.find(';', i) : std::string::npos; if (e == std::string::npos) { o += s[i]; continue; }
        std::string n = s.substr(i + 1, e - i - 1); char ch = 0;
        if (n == "lt") ch = '<'; else if (n == "gt") ch = '>'; else if (n == "amp") ch = '&'; else if (n == "quot") ch = '"'; else if (n == "apos") ch = '\'';
        else if (n.size() > 1 && n[0] == '#') ch = (char)(n[1] == 'x' || n[1] == 'X' ? strtol(n.c_str() + 2, 0, 16) : strtol(n.c_str() + 1, 0, 10));
        if (!ch) { o += s[i]; continue; } o += ch; i = e;
    }
    return o;
}
static bool page(const std::string& s, std::vector<Item>& v) {
    std::string t;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '<') { t += s[i]; continue; }
        if (!t.empty()) { Item x = { false, t }; v.push_back(x); t.clear(); }
        char q = 0; ++i; for (; i < s.size() && (q || s[i] != '>'); ++i) { if (q) { if (s[i] == q) q = 0; } else if (s[i] == '"' || s[i] == '\'') q = s[i]; t += s[i]; }
        if (i == s.size()) return false;
        Item x = { true, t }; v.push_back(x); t.clear();
    }
    if (!t.empty()) { Item x = { false, t }; v.push_back(x); }
    return true;
}
static bool ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \r\n\t"), b = s.find_last_not_of(" \r\n\t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static bool ascii(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] < 32 || (unsigned char)s[i] > 126) return false; return true; }
static std::string url_dec(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '+') o += ' '; else if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; return o; }
static bool plain(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if (!isalnum((unsigned char)s[i]) && s[i] != '_' && s[i] != '-') return false; return true; }
static bool hostile(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] < 32 || s[i] == '"' || s[i] == 127) return true; return false; }
static std::string some_text(Rng& r) {
    static const char *bad[] = { "<script>alert(1)</script>", "a\r\nX-Injected: 1", "a\r\n\r\n<html>", "a\nSet-Cookie: z=1", "x\"; Path=/evil; y=\"", "\"><b>", "'><i>", "&lt;b&gt;", "a&b", "</li></ul>", "a;b=c", "a\rb", "\x01\x02", "<", ">", "%3Cb%3E" };
    switch (r.below(6)) { case 0: case 1: return r.from("abcXYZ012_-", 1 + r.below(10)); case 2: return bad[r.below(16)]; case 3: { std::string s = bad[r.below(16)]; return r.from("ab", r.below(4)) + s + r.from("yz<>\"", r.below(3)); } case 4: return r.from("ab<>&\"'/=;, \r\n", 1 + r.below(12)); default: { std::string s = r.bytes(1 + r.below(12)); s.erase(std::remove(s.begin(), s.end(), '\0'), s.end()); return s; } }
}
SCENARIO("P37", "cookies", 400, 6000) {
    Rng& r = c.rng; SEnv e(r, 8); e.srv->add_service("/cookie", new pion::plugins::CookieService); e.start(); net::Client k; uint64_t h = 0;
    for (int q = (int)r.range(3, 16); q > 0; --q) {
        int act = (int)r.below(6); std::string name = some_text(r), value = some_text(r), qs; if (r.chance(8)) name.clear(); if (r.chance(8)) value.clear();
        if (act <= 2) qs = "action=" + hex_enc(r, "Add Cookie", 10) + "&cookie_name=" + hex_enc(r, name, 10) + "&cookie_value=" + hex_enc(r, value, 10);
        else if (act == 3) qs = "action=delete&cookie_name=" + hex_enc(r, name, 10);
        else if (act == 4) qs = "action=" + hex_enc(r, some_text(r), 10);
        if (r.chance(10)) qs += "&x=" + hex_enc(r, some_text(r), 10);
        std::string res = "/cookie"; if (r.chance(25)) { std::string s = hg::gen_resource(r).substr(0, 40); if (r.chance(50)) s += "\"><script>"; while (!s.empty() && s[s.size() - 1] == '/') s.resize(s.size() - 1); res += s; }
        std::vector<std::string> raw; std::multiset<kv_t> ck;
        for (int i = (int)r.below(3); i > 0; --i) { std::string t; for (int j = (int)r.range(1, 3); j > 0; --j) { std::string a = r.from("abcXY", 1 + r.below(4)) + (r.chance(20) ? r.from("<>&'", 1 + r.below(4)) : ""), b = r.chance(70) ? r.from("ab01", r.below(6)) : r.from("ab<>&", r.below(9)); t += (t.empty() ? "" : "; ") + a + "=" + b; ck.insert(kv_t(a, b)); } raw.push_back(t); }
        bool post = r.chance(30), head = !post && r.chance(8);
        std::string t = std::string(post ? "POST " : head ? "HEAD " : "GET ") + res + (qs.empty() || post ? "" : "?" + qs) + " HTTP/1.1\r\nHost: a\r\n"; for (size_t i = 0; i < raw.size(); ++i) t += "Cookie: " + raw[i] + "\r\n";
        if (post) t += "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(qs.size()) + "\r\n"; t += "\r\n"; if (post) t += qs;
        h = mix64(h ^ hs(t)); net::Response p; ASK(c, k, e, t, p, head); std::string d = " for " + show(t.substr(0, 500));
        CHECK(c, k.buf.empty(), "response-split", show(k.buf.substr(0, 100)) + d);
        CHECK(c, p.status == 200 && p.header("content-type") == "text/html", "cookie-status", p.line + d);
        size_t sc = 0; for (std::multimap<std::string, std::string>::iterator i = p.h.begin(); i != p.h.end(); ++i) { if (i->first == "set-cookie") ++sc; else CHECK(c, i->first == "content-type" || i->first == "content-length" || i->first == "connection" || i->first == "transfer-encoding" || i->first == "date" || i->first == "server", "header-injected", show(i->first + ": " + i->second) + d); }
        bool add = act <= 2, del = act == 3; c.count("cookie_pages");
        if (add || del) {
            bool must = !name.empty() && plain(name) && (del || (!value.empty() && plain(value))), mustnt = name.empty() || hostile(name) || name.find_first_of("=;, ") != std::string::npos || (add && (value.empty() || hostile(value)));
            CHECK(c, !(must && sc != 1), "cookie-not-set", show(name) + "=" + show(value) + d); CHECK(c, !(mustnt && sc), "bad-cookie-set", show(p.header("set-cookie")) + d); CHECK(c, sc <= 1, "cookies-set", d);
            if (sc) { std::string w = name + "=\"" + (add ? value : std::string()) + "\"; Version=1; Path=/" + (add ? "" : "; Max-Age=0"); CHECK(c, p.header("set-cookie") == w, "wrong-cookie", show(p.header("set-cookie")) + " instead of " + show(w) + d); c.count(add ? "cookies_added" : "cookies_deleted"); } else c.count("cookies_refused");
        } else CHECK(c, sc == 0, "cookie-unasked", show(p.header("set-cookie")) + d);
        if (head) continue;
        std::vector<Item> v; CHECK(c, page(p.body, v), "page-broken", show(p.body.substr(0, 300)) + d);
        // tags: exactly the ones of the page itself
        std::string tags, all; std::multiset<kv_t> listed; std::multiset<std::string> rawl; std::string li, h2, para; bool inp = false; size_t links = 0;
        for (size_t i = 0; i < v.size(); ++i) {
            if (!v[i].tag) { if (inp) para += v[i].s; else if (ends(tags, " li ")) li = trim(v[i].s); if (ends(tags, " li ") && h2 == "Cookie Headers") { std::string u = unescape(trim(v[i].s)); CHECK(c, u.compare(0, 7, "Cookie:") == 0, "page-text", show(u) + d); rawl.insert(trim(u.substr(7))); } if (ends(tags, " h2 ")) h2 = trim(v[i].s); continue; }
            std::string n = v[i].s.substr(0, v[i].s.find_first_of(" \t\r\n")); tags += n + " "; if (n == "p") inp = true; if (n == "/p") inp = false;
            if (n == "a") {
                ++links; size_t a = v[i].s.find("href=\""), b = a == std::string::npos ? a : v[i].s.find('"', a + 6); CHECK(c, b == v[i].s.size() - 1, "page-link", show(v[i].s) + d);
                std::string u = unescape(v[i].s.substr(a + 6, b - a - 6)), w = "?action=delete&cookie_name="; size_t z = u.rfind(w); CHECK(c, z != std::string::npos, "page-link", show(u) + d);
                if (ascii(res)) CHECK(c, u.substr(0, z) == res, "page-link", show(u) + d); std::string cn = url_dec(u.substr(z + w.size())); size_t co = unescape(li).find(": "); if (co == std::string::npos) { li += " "; co = unescape(li).find(": "); }
                CHECK(c, co != std::string::npos && unescape(li).substr(0, co) == cn, "page-link", "cookie " + show(li) + " links to " + show(u) + d); listed.insert(kv_t(cn, trim(unescape(li).substr(co + 2))));
            }
            if (n == "form") { size_t a = v[i].s.find("action=\""), b = a == std::string::npos ? a : v[i].s.find('"', a + 8); CHECK(c, b != std::string::npos, "page-form", show(v[i].s) + d); if (ascii(res)) CHECK(c, unescape(v[i].s.substr(a + 8, b - a - 8)) == res, "page-form", show(v[i].s) + d); CHECK(c, trim(v[i].s.substr(b + 1)) == "method=\"POST\"", "page-form", show(v[i].s) + d); }
        }
        std::string w = "html head title /title /head body h1 /h1 "; if (act <= 4) w += "p /p "; w += "h2 /h2 "; if (!raw.empty()) { w += "ul "; for (size_t i = 0; i < raw.size(); ++i) w += "li "; w += "/ul "; } w += "h2 /h2 "; if (!ck.empty()) { w += "ul "; for (size_t i = 0; i < ck.size(); ++i) w += "li a /a "; w += "/ul "; } w += "h2 /h2 p form input br input br input /p /form /body /html ";
        std::string tg; for (size_t i = 0; i < tags.size(); ++i) tg += tags[i]; { std::string o; for (size_t i = 0; i < tg.size();) { size_t j = tg.find(' ', i); std::string n = tg.substr(i, j - i); if (n == "/p") n = "/p"; if (n != "/li") o += n + " "; i = j + 1; } tg = o; }
        { size_t i; while ((i = tg.find("/p /form")) != std::string::npos) tg.replace(i, 8, "/form /p"); while ((i = w.find("/p /form")) != std::string::npos) w.replace(i, 8, "/form /p"); }
        CHECK(c, tg == w, "page-structure", show(tg) + " instead of " + show(w) + d + " body " + show(p.body.substr(0, 600)));
        std::multiset<std::string> rw(raw.begin(), raw.end()); CHECK(c, rawl == rw, "page-headers", std::to_string(rawl.size()) + " cookie headers listed instead of " + std::to_string(rw.size()) + d);
        CHECK(c, listed == ck, "page-cookies", std::to_string(listed.size()) + " cookies listed instead of " + std::to_string(ck.size()) + d); c.count("cookies_listed", ck.size());
        std::string pt = unescape(para.substr(0, para.find("]") == std::string::npos ? para.size() : para.rfind("]") + 1));
        if (act <= 4) { bool err = pt.find("[Error:") != std::string::npos; CHECK(c, err == (act == 4 || !sc), "page-report", show(pt) + d); if (sc && add && ascii(name + value)) CHECK(c, pt.find("[Added cookie " + name + "=" + value + "]") != std::string::npos, "page-report", show(pt) + d); if (sc && del && ascii(name)) CHECK(c, pt.find("[Deleted cookie " + name + "]") != std::string::npos, "page-report", show(pt) + d); }
    }
    c.distinct(h); k.close(); e.end(c);
}
SCENARIO("P37", "fixed_answers", 150, 2500) {
    Rng& r = c.rng; SEnv e(r, 15); e.srv->add_service("/hello", new pion::plugins::HelloService); e.srv->add_service("/no", new pion::plugins::AllowNothingService); e.start();
    int clients = (int)r.range(1, 3); uint64_t s0 = r.next(); std::vector<std::string> bad(clients); std::atomic<int> stuck(0), hi(0), no(0);
    arm_wall(120);
    { boost::thread_group g; for (int w = 0; w < clients; ++w) g.create_thread([&, w] {
        Rng q(s0 + (uint64_t)w); net::Client k; if (!k.connect(e.port, e.tls)) { bad[w] = "connect"; return; }
        for (int b = 0; b < 4; ++b) {
            std::string t; std::vector<std::pair<bool, bool> > want; int n = (int)q.range(1, 6); bool last = b == 3;
            for (int i = 0; i < n; ++i) { static const char *ms[] = { "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS" }; std::string m = ms[q.below(6)]; bool hello = q.chance(50); std::string body = m[0] == 'P' ? q.bytes(q.below(60)) : ""; want.push_back(std::make_pair(hello, m == "HEAD")); t += m + " " + (hello ? "/hello" : "/no") + (q.chance(30) ? "/sub" : "") + " HTTP/1.1\r\nHost: a\r\n" + (last && i + 1 == n ? "Connection: close\r\n" : "") + (m[0] == 'P' ? "Content-Length: " + std::to_string(body.size()) + "\r\n" : "") + "\r\n" + body; }
            if (!net::send_pieces(k, t, q)) { bad[w] = "send"; return; }
            for (int i = 0; i < n; ++i) {
                net::Response p; std::string x = net::read_response(k, p, want[i].second, 30); if (x == "timeout") { ++stuck; return; } std::string d = show(t.substr(0, 300)) + " answer " + std::to_string(i) + ": " + x + " " + p.line + " " + show(p.body);
                std::string text = want[i].first ? "<html><body>Hello World!</body></html>\r\n\r\n" : "<html><body>No, you can't.</body></html>\r\n\r\n";
                if (!x.empty() || p.status != (want[i].first ? 200 : 405) || (!want[i].second && p.body != text) || p.h.count("allow") != (want[i].first ? 0u : 1u) || (want[i].second && p.header("content-length") != std::to_string(text.size()) && p.h.count("content-length"))) { bad[w] = d; return; }
                if (!want[i].first && p.header("allow") != "GET") { bad[w] = "Allow: " + p.header("allow") + " " + d; return; }
                ++(want[i].first ? hi : no);
            }
        }
        if (!k.drain(20) || !k.buf.empty()) bad[w] = "more than the answers: " + show(k.buf);
    }); g.join_all(); }
    arm_wall(0);
    if (stuck) { c.hang("no-answer", "hello and refusals"); bail(); }
    for (int w = 0; w < clients; ++w) CHECK(c, bad[w].empty(), "wrong-answer", bad[w]);
    c.count("hellos", hi); c.count("refusals", no); c.distinct(s0); e.end(c);
}
// ---------------------------------------------------------------- P40: refusals and error pages
static std::string lower(std::string s) { for (size_t i = 0; i < s.size(); ++i) s[i] = (char)tolower((unsigned char)s[i]); return s; }
// what is wrong with a page, or ""; its text without tags goes to text, its title to title
static std::string page_fault(const std::string& body, std::string& text, std::string& title) {
    std::vector<Item> v; if (!page(body, v)) return "a tag is not closed";
    std::vector<std::string> open; bool seen = false, ended = false; std::set<std::string> had;
    for (size_t i = 0; i < v.size(); ++i) {
        if (!v[i].tag) {
            if (v[i].s.find('>') != std::string::npos) return "a bare > in the text";
            for (size_t a = v[i].s.find('&'); a != std::string::npos; a = v[i].s.find('&', a + 1)) { size_t e = v[i].s.find(';', a); if (e == std::string::npos || e > a + 9) return "a bare & in the text"; }
            if (open.empty()) { if (!trim(v[i].s).empty()) return "text outside the page: " + show(v[i].s.substr(0, 60)); continue; }
            if (open.back() == "title") title += v[i].s; else text += v[i].s;
            continue;
        }
        std::string n = lower(v[i].s.substr(0, v[i].s.find_first_of(" \t\r\n")));
        if (n.empty()) return "an empty tag"; if (n[0] == '!') { if (seen) return "a declaration inside the page"; continue; }
        if (ended) return "something follows the page"; if (n == "meta" || n == "br" || n == "input") continue;
        if (n[0] != '/') { if (!seen && n != "html") return "starts with " + n; seen = true; open.push_back(n); had.insert(n); if (n != "p" && n != "strong" && n != "html" && n != "head" && n != "title" && n != "body" && n != "h1") return "unexpected tag " + show(v[i].s.substr(0, 60)); continue; }
        if (open.empty() || open.back() != n.substr(1)) return n + " closes " + (open.empty() ? "nothing" : open.back());
        open.pop_back(); text += "\n"; if (open.empty()) ended = true;
    }
    if (!ended) return seen ? "not closed: " + open.back() : "no page";
    if (!had.count("head") || !had.count("title") || !had.count("body") || !had.count("h1")) return "a part of the page is missing";
    return "";
}
// text in valid UTF-8 that XML can carry, with markup in it
static std::string utf_text(Rng& r, size_t max) {
    static const char *p[] = { "<", ">", "&", "\"", "'", "<b>", "</p>", "<script>", "&lt;", "&#60;", "]]>", "<!--", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "%3C", " ", "a", "Zz", "0", "/", ";", "{}", "=", "</body></html>" };
    std::string s; size_t n = r.below(max + 1); while (s.size() < n) s += p[r.below(25)]; return s;
}
static std::string hexs(const std::string& s) { static const char *d = "0123456789abcdef"; std::string o; for (size_t i = 0; i < s.size(); ++i) { o += d[(unsigned char)s[i] >> 4]; o += d[s[i] & 15]; } return o; }
static std::string unhexs(const std::string& s) { std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return o; }
struct oops : public boost::exception {};
static void throw_std(const pion::http::request_ptr& q, const pion::tcp::connection_ptr&) { throw std::runtime_error(unhexs(q->get_query("m"))); }
static void throw_boost(const pion::http::request_ptr&, const pion::tcp::connection_ptr&) { throw oops(); }
static void forbid(const pion::http::request_ptr& q, const pion::tcp::connection_ptr& c) { pion::http::server::handle_forbidden_request(q, c, unhexs(q->get_query("m"))); }
static void disallow(const pion::http::request_ptr& q, const pion::tcp::connection_ptr& c) { pion::http::server::handle_method_not_allowed(q, c, unhexs(q->get_query("m"))); }
struct Dir {    // scratch files, removed again
    std::string d; std::vector<std::string> fs;
    Dir(const Ctx& c) { const char *s = getenv("VH_SCRATCH"); d = std::string(s ? s : "/nonexistent") + "/s" + std::to_string((long)getpid()) + "-" + std::to_string(c.index); if (mkdir(d.c_str(), 0755) || mkdir((d + "/sub").c_str(), 0755)) { printf("HARNESS-ERROR mkdir %s: %s\n", d.c_str(), strerror(errno)); exit(2); } }
    ~Dir() { for (size_t i = 0; i < fs.size(); ++i) unlink((d + "/" + fs[i]).c_str()); rmdir((d + "/sub").c_str()); rmdir(d.c_str()); }
};
SCENARIO("P40", "pages", 500, 8000) {
    Rng& r = c.rng; SEnv e(r, 10); Dir dir(c);
    e.srv->add_resource("/throw", &throw_std); e.srv->add_resource("/boost", &throw_boost); e.srv->add_resource("/forbid", &forbid); e.srv->add_resource("/disallow", &disallow); e.srv->add_redirect("/loop", "/loop2"); e.srv->add_redirect("/loop2", "/loop");
    e.srv->add_service("/files", new pion::plugins::FileService); e.srv->set_service_option("/files", "directory", dir.d);
    e.srv->add_service("/up", new pion::plugins::FileService); e.srv->set_service_option("/up", "directory", dir.d); e.srv->set_service_option("/up", "writable", "true");
    std::string realm = r.from("abc XYZ01_-", 1 + r.below(10)), login = r.chance(50) ? "/login" : ""; int au = (int)r.below(3); pion::http::auth_ptr a; pion::user_manager_ptr um(new pion::user_manager);
    if (au == 1) a.reset(new pion::http::basic_auth(um, realm)); else if (au == 2) a.reset(new pion::http::cookie_auth(um, "/in", "/out", login));
    if (a) { a->add_user("u", "p"); a->add_restrict("/private"); e.srv->set_authentication(a); }
    e.start(); net::Client k; uint64_t h = 0;
    for (int q = (int)r.range(3, 16); q > 0; --q) {
        std::string m, res, qs, body, text, extra; unsigned status; std::map<std::string, std::string> also; bool last = false; std::string phrase;
        static const char *ms[] = { "GET", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH" }; m = ms[r.below(7)]; std::string msg = utf_text(r, 40), tail = "/" + utf_text(r, 30); for (size_t i = 0; i < tail.size(); ++i) if (tail[i] == ' ' || tail[i] == '?' || tail[i] == '#') tail[i] = '+'; while (tail.size() > 1 && tail[tail.size() - 1] == '/') tail.resize(tail.size() - 1); if (tail == "/") tail.clear();
        int kind = (int)r.below(18);
        switch (kind) {
        case 0: status = 404; phrase = "Not Found"; res = "/nowhere" + tail; text = res; break;
        case 1: status = 404; phrase = "Not Found"; res = "/n" + r.from("abc", 3) + hg::gen_resource(r).substr(0, 60); break;
        case 2: status = 500; res = "/throw" + tail; text = msg; qs = "m=" + hexs(msg); break;
        case 3: status = 500; res = "/boost" + tail; break;
        case 4: status = 500; res = r.chance(50) ? "/loop" : "/loop2"; break;
        case 5: status = 403; phrase = "Forbidden"; res = "/forbid" + tail; text = res; extra = msg; qs = "m=" + hexs(msg); break;
        case 6: { static const char *al[] = { "GET", "GET, HEAD", "", "PUT,DELETE", "X-1" }; std::string w = al[r.below(5)]; status = 405; phrase = "Method Not Allowed"; if (r.chance(30)) m = "X" + r.from(hg::TOKEN, r.below(12)); res = "/disallow" + tail; text = m; qs = "m=" + hexs(w); if (!w.empty()) also["allow"] = w; break; }
        case 7: status = 404; phrase = "Not Found"; m = "GET"; res = "/files/none" + r.from("ab&<>'\"", r.below(8)); text = res; break;
        case 8: status = 403; phrase = "Forbidden"; m = "GET"; res = "/files/sub"; text = res; break;
        case 9: status = 403; phrase = "Forbidden"; m = "GET"; res = "/files/../n" + r.from("ab&<>'\"", r.below(8)); text = res; break;
        case 10: status = 405; phrase = "Method Not Allowed"; { static const char *w[] = { "PUT", "POST", "DELETE" }; m = w[r.below(3)]; } res = "/files/x"; text = m; also["allow"] = "GET, HEAD"; break;
        case 11: status = 501; phrase = "Not Implemented"; m = "X" + r.from(hg::TOKEN, r.below(12)); res = r.chance(50) ? "/files/x" : "/up/x"; text = m; break;
        case 12: status = 201; phrase = "Created"; m = r.chance(50) ? "PUT" : "POST"; { std::string f = "n" + std::to_string(q) + r.from("ab&<>'\"", r.below(6)); dir.fs.push_back(f); res = "/up/" + f; } text = res; body = r.bytes(1 + r.below(30)); also["location"] = res; break;
        case 13: status = 404; phrase = "Not Found"; m = r.chance(50) ? "PUT" : "POST"; res = "/up/none/f" + r.from("ab&<>'\"", r.below(6)); text = res; body = r.bytes(r.below(30)); break;
        case 14: { static const char *w[] = { "GET /\x01 HTTP/1.1\r\n\r\n", "G(T / HTTP/1.1\r\n\r\n", "GET / HTXP/1.1\r\n\r\n", "GET / HTTP/x.1\r\n\r\n", "GET /a HTTP/1.1\r\nA\x02: b\r\n\r\n", "<script> / HTTP/1.1\r\n\r\n" }; status = 400; phrase = "Bad Request"; res = w[r.below(6)]; last = true; break; }
        case 16: status = 500; m = r.chance(50) ? "PUT" : "POST"; { std::string f = "full" + std::to_string(q) + r.from("ab&<>'\"", r.below(6)); if (symlink("/dev/full", (dir.d + "/" + f).c_str())) continue; dir.fs.push_back(f); res = "/up/" + f; } text = res; body = r.bytes(1 + r.below(30)); break;
        case 17: status = 404; phrase = "Not Found"; m = "DELETE"; res = "/up/none" + r.from("ab&<>'\"", r.below(8)); text = res; break;
        default: if (!a) continue; res = "/private" + tail; if (au == 1) { status = 401; phrase = "Unauthorized"; also["www-authenticate"] = "Basic realm=\"" + realm + "\""; } else if (login.empty()) { status = 401; phrase = "Unauthorized"; } else { status = 302; phrase = "Found"; also["location"] = login; }
        }
        bool head = !last && (kind <= 6 || (kind >= 7 && kind <= 9) || kind == 15) && r.chance(8); if (head) { m = "HEAD"; if (kind == 6) text = m; }
        std::string t = last ? res : m + " " + res + (qs.empty() ? "" : "?" + qs) + " HTTP/1." + (r.chance(15) ? "0" : "1") + "\r\nHost: a\r\n" + (body.empty() && (m[0] != 'P' || r.chance(50)) ? "" : "Content-Length: " + std::to_string(body.size()) + "\r\n") + (r.chance(10) ? "Connection: close\r\n" : "") + "\r\n" + body;
        h = mix64(h ^ hs(t)); net::Response p; ASK(c, k, e, t, p, head); std::string d = " for " + show(t.substr(0, 400));
        CHECK(c, p.status == status, "wrong-status", p.line + " instead of " + std::to_string(status) + d);
        CHECK(c, p.line.size() > 13 && (phrase.empty() || p.line.substr(13) == phrase), "wrong-phrase", show(p.line) + d);
        CHECK(c, k.buf.empty(), "more-than-the-answer", show(k.buf.substr(0, 100)) + d);
        for (std::multimap<std::string, std::string>::iterator i = p.h.begin(); i != p.h.end(); ++i) { if (also.count(i->first)) continue; CHECK(c, i->first == "content-type" || i->first == "content-length" || i->first == "connection" || i->first == "transfer-encoding" || i->first == "date" || i->first == "server", "header-added", show(i->first + ": " + i->second) + d); }
        for (std::map<std::string, std::string>::iterator i = also.begin(); i != also.end(); ++i) CHECK(c, p.h.count(i->first) == 1 && p.header(i->first) == i->second, "header-wrong", i->first + " " + std::to_string(p.h.count(i->first)) + " " + show(p.header(i->first)) + " instead of " + show(i->second) + d);
        c.count("status_" + std::to_string(status)); if (head) { c.count("heads"); continue; }
        CHECK(c, !p.h.count("content-type") || p.header("content-type").compare(0, 9, "text/html") == 0, "content-type", show(p.header("content-type")) + d);
        std::string pt, title, x = page_fault(p.body, pt, title); CHECK(c, x.empty(), "page-broken", x + ": " + show(p.body.substr(0, 500)) + d);
        CHECK(c, title.find(std::to_string(status)) != std::string::npos || (title.find_first_of("0123456789") == std::string::npos && pt.find(std::to_string(status)) != std::string::npos), "page-without-status", show(p.body.substr(0, 300)) + d);
        std::string u = unescape(pt); CHECK(c, u.find(text) != std::string::npos && u.find(extra) != std::string::npos, "page-text", show(text) + (extra.empty() ? "" : " or " + show(extra)) + " not in " + show(u.substr(0, 400)) + d);
        c.count("pages"); if (kind == 16) c.count("write_errors"); if (text.find_first_of("<>&\"'") != std::string::npos || extra.find_first_of("<>&\"'") != std::string::npos) c.count("pages_with_markup_text"); if (last) c.count("malformed"); c.sample(show(t.substr(0, 200)) + " -> " + p.line);
    }
    c.distinct(h); k.close(); e.srv->set_authentication(pion::http::auth_ptr()); e.end(c);
}
int main(int argc, char **argv) { G().bail_on_fail = true; return run(argc, argv, 120, 170); }
