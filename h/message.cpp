// Monitors for the string grammars around HTTP messages (P07), message write/read (P08) and the message object model (P12).
#include "httpgen.hpp"
#include "net.hpp"
#include <pion/tcp/connection.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
#include <pion/algorithm.hpp>
#include <sstream>
using namespace hg;
using pion::http::parser;
typedef std::multiset<std::pair<std::string, std::string> > mset;

static mset to_mset(const pion::ihash_multimap& d, bool fold = false) { mset m; for (auto& kv : d) m.insert(std::make_pair(fold ? lower(kv.first) : kv.first, kv.second)); return m; }
static std::string show(const mset& m) { std::string s; size_t n = 0; for (auto& kv : m) { s += "[" + vh::show(kv.first, 60) + "=" + vh::show(kv.second, 60) + "]"; if (++n > 12) { s += "..."; break; } } return s; }
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// reference percent-decoding: %XX with XX hexadecimal and not 00 is one byte, '+' is a blank, all else is itself
static std::string ref_decode(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '+') o += ' ';
        else if (s[i] == '%' && i + 2 < s.size() && hexv(s[i+1]) >= 0 && hexv(s[i+2]) >= 0 && hexv(s[i+1]) * 16 + hexv(s[i+2])) { o += (char)(hexv(s[i+1]) * 16 + hexv(s[i+2])); i += 2; }
        else o += s[i];
    }
    return o;
}
static bool ctl(unsigned char c) { return c < 32 || c == 127; }
static std::vector<std::string> split(const std::string& s, char sep) { std::vector<std::string> v; size_t p = 0, q; while ((q = s.find(sep, p)) != std::string::npos) { v.push_back(s.substr(p, q - p)); p = q + 1; } v.push_back(s.substr(p)); return v; }

// ---------------------------------------------------------------- P07
static bool ref_urlencoded(const std::string& in, mset& out) {
    std::string s; for (unsigned char ch : in) { if (ch == '\r' || ch == '\n' || ch == '\t') continue; if (ctl(ch)) return false; s += (char)ch; }
    for (auto& piece : split(s, '&')) {
        size_t e = piece.find('='); std::string name = piece.substr(0, e);
        if (name.size() > 1024) return false;
        if (e == std::string::npos) { if (!name.empty()) out.insert(std::make_pair(ref_decode(name), "")); continue; }
        if (name.empty()) continue;
        for (auto& v : split(piece.substr(e + 1), ',')) out.insert(std::make_pair(ref_decode(name), ref_decode(v)));
    }
    return true;
}
static std::string block(const std::string& s, std::unique_ptr<char[]>& b) { b.reset(new char[s.size() ? s.size() : 1]); memcpy(b.get(), s.data(), s.size()); return s; }
SCENARIO("P07", "url_encoded", 60000, 1000000) {
    Rng& r = c.rng; std::string in;
    switch (r.below(5)) {
        case 0: in = r.from("ab=&,", r.below(14)); break;
        case 1: in = r.from("ab%2=&,+F0\r\n\t", r.below(40)); break;
        case 2: { size_t n = 1 + r.below(6); for (size_t i = 0; i < n; ++i) in += (i ? "&" : "") + pion::algorithm::url_encode(r.bytes(r.below(8))) + "=" + pion::algorithm::url_encode(r.bytes(r.below(12))); break; }
        case 3: in = r.bytes(r.below(30)); break;
        default: in = r.from("ab=&,", r.below(20)); if (!in.empty()) in[r.below(in.size())] = (char)r.next();
    }
    std::unique_ptr<char[]> b; block(in, b);
    pion::ihash_multimap d, d2; mset want;
    bool ok = parser::parse_url_encoded(d, b.get(), in.size()), wok = ref_urlencoded(in, want);
    CHECK(c, ok == wok, "urlencoded-acceptance", "in=" + vh::show(in) + " got " + std::to_string(ok));
    if (ok) CHECK(c, to_mset(d) == want, "urlencoded-pairs", "in=" + vh::show(in) + " got " + show(to_mset(d)) + " want " + show(want));
    parser::parse_url_encoded(d2, in); CHECK(c, to_mset(d2) == to_mset(d), "urlencoded-not-repeatable", vh::show(in));
    c.count(ok ? "query_strings_accepted" : "query_strings_refused"); c.count("query_pairs", d.size());
    if (d.size() > 1) { c.distinct(hash_str(in)); c.sample("query " + vh::show(in) + " -> " + show(want)); }
}
static bool ref_attr(const std::string& n, bool sc) {
    if (n.empty() || n[0] == '$') return true; if (!sc) return false;
    static const char *a[] = { "comment", "domain", "max-age", "path", "secure", "version", "expires", "httponly" };
    std::string l = lower(n); for (auto x : a) if (l == x) return true; return false;
}
static bool ref_cookies(const std::string& s, bool sc, mset& out) {
    size_t i = 0, n = s.size();
    while (i < n) {
        std::string name, val;
        while (i < n && s[i] != '=' && s[i] != ';' && s[i] != ',') { if (s[i] != ' ') { if (ctl(s[i])) return false; name += s[i]; } ++i; }
        if (name.size() > 1024) return false;
        bool has_value = i < n && s[i] == '='; if (i < n) ++i;
        if (has_value) {
            while (i < n && s[i] == ' ') ++i;
            if (i < n && (s[i] == '"' || s[i] == '\'')) {
                size_t e = s.find(s[i], i + 1); val = s.substr(i + 1, e == std::string::npos ? std::string::npos : e - i - 1);
                if (e == std::string::npos) i = n; else { i = s.find_first_of(";,", e + 1); i = i == std::string::npos ? n : i + 1; }
            } else {
                size_t e = s.find_first_of(";,", i); val = s.substr(i, e == std::string::npos ? std::string::npos : e - i); i = e == std::string::npos ? n : e + 1;
                for (unsigned char ch : val) if (ctl(ch)) return false;
            }
        }
        if (!ref_attr(name, sc)) out.insert(std::make_pair(name, val));
    }
    return true;
}
SCENARIO("P07", "cookies", 60000, 1000000) {
    Rng& r = c.rng; std::string in; bool sc = r.chance(50);
    switch (r.below(5)) {
        case 0: in = r.from("ab=;, \"'", r.below(16)); break;
        case 1: { static const char *names[] = { "a", "SESSION", "Path", "max-age", "$Path", "x y", "", "Expires", "secure", "HttpOnly", "pathx", "Version", "domain", "comment" };
            size_t n = 1 + r.below(5); for (size_t i = 0; i < n; ++i) { in += names[r.below(14)]; if (r.chance(80)) { in += r.chance(80) ? "=" : " = "; if (r.chance(40)) { char q = r.chance(60) ? '"' : '\''; in += q; in += r.from("ab;, =x'", r.below(8)); if (r.chance(85)) in += q; if (r.chance(20)) in += "junk"; } else in += r.from("abcd \"'=%", r.below(9)); } in += r.chance(70) ? "; " : r.chance(50) ? "," : ";"; } break; }
        case 2: in = r.bytes(r.below(24)); break;
        default: in = r.from("ab=;, \"'$", r.below(30)); if (!in.empty() && r.chance(50)) in[r.below(in.size())] = (char)r.next();
    }
    std::unique_ptr<char[]> b; block(in, b);
    pion::ihash_multimap d, d2; mset want;
    bool ok = parser::parse_cookie_header(d, b.get(), in.size(), sc), wok = ref_cookies(in, sc, want);
    CHECK(c, ok == wok, "cookie-acceptance", "in=" + vh::show(in) + " set-cookie=" + std::to_string(sc) + " got " + std::to_string(ok));
    if (ok) CHECK(c, to_mset(d) == want, "cookie-pairs", "in=" + vh::show(in) + " set-cookie=" + std::to_string(sc) + " got " + show(to_mset(d)) + " want " + show(want));
    parser::parse_cookie_header(d2, in, sc); CHECK(c, to_mset(d2) == to_mset(d), "cookie-not-repeatable", vh::show(in));
    c.count(ok ? "cookie_headers_accepted" : "cookie_headers_refused"); c.count("cookies_seen", d.size());
    if (d.size() > 1) { c.distinct(hash_str(in, 3 + sc)); c.sample("cookie " + vh::show(in)); }
}
static std::string ref_b64(const std::string& s) {
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; size_t i = 0;
    for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i+1] << 8 | (unsigned char)s[i+2]; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += A[v & 63]; }
    if (s.size() - i == 1) { unsigned v = (unsigned char)s[i] << 16; o += A[v >> 18]; o += A[v >> 12 & 63]; o += "=="; }
    if (s.size() - i == 2) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i+1] << 8; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += "="; }
    return o;
}
SCENARIO("P07", "multipart", 30000, 400000) {
    Rng& r = c.rng; std::string bnd = r.chance(50) ? "----WebKitFormBoundary" + r.from("abcXYZ019", 8) : r.from("abcdefXYZ0189'()+_-./:", 1 + r.below(30));
    std::string ct = "multipart/form-data; "; std::string low = "bB";
    if (r.chance(20)) ct += "charset=utf-8; ";
    ct += "boundary="; int q = r.below(4); ct += q == 0 ? "\"" + bnd + "\"" : bnd; if (q == 1) ct += "; charset=utf-8"; if (q == 2 && r.chance(50)) ct += " ";
    std::string body; if (r.chance(15)) body += "preamble text\r\n";
    mset want; size_t n = r.below(6); bool last_closed = true;
    for (size_t i = 0; i < n; ++i) {
        body += "--" + bnd + "\r\n";
        std::string name = r.from("abcdefghij 012;=\xe4.-", 1 + r.below(10)); bool named = r.chance(92);
        int nhdr = 0; std::string type; std::vector<std::string> hs;
        std::string cd = r.chance(80) ? "Content-Disposition" : "content-disposition"; cd += r.chance(85) ? ": " : ":"; cd += "form-data";
        bool fn_first = r.chance(15), fn_after = r.chance(30);
        if (fn_first) cd += "; filename=\"f" + std::to_string(i) + ".txt\"";
        if (named) cd += "; name=\"" + name + "\"";
        if (fn_after) cd += "; filename=\"g.bin\"";
        hs.push_back(cd);
        if (r.chance(50)) { static const char *ty[] = { "text/plain", "TEXT/html; charset=x", "image/png", "application/octet-stream", "Text/css" }; type = ty[r.below(5)]; hs.push_back((r.chance(70) ? "Content-Type: " : "content-type:  ") + type); }
        if (r.chance(20)) hs.push_back("X-Extra: " + r.from("abc :;=\"", r.below(12)) + "z");
        if (r.chance(8)) hs.push_back("X-Empty:");
        if (r.chance(5)) hs.push_back("X-Novalue");
        for (size_t k = hs.size(); k > 1; --k) std::swap(hs[k-1], hs[r.below(k)]);
        for (auto& h : hs) { body += h + "\r\n"; ++nhdr; }
        body += "\r\n";
        std::string data; switch (r.below(5)) { case 0: break; case 1: data = r.bytes(r.below(60)); break; case 2: data = r.from("\r\n-", r.below(12)); break; default: data = r.from("hello world\r\n--x", r.below(80)); }
        if (data.find("--" + bnd) != std::string::npos) data.clear();
        body += data + "\r\n";
        // data must not form the delimiter together with the CRLF behind it; skip such rare cases
        bool text = type.empty() || lower(type.substr(0, 5)) == "text/";
        if (named) { std::string v = text ? data : "data:" + type + "; base64, " + ref_b64(data); want.insert(std::make_pair(name, v)); }
    }
    body += "--" + bnd + "--" + (r.chance(70) ? "\r\n" : r.chance(50) ? "" : "\r\nepilogue");
    (void)last_closed;
    std::unique_ptr<char[]> b; block(body, b);
    pion::ihash_multimap d; bool ok = parser::parse_multipart_form_data(d, ct, b.get(), body.size());
    CHECK(c, ok, "multipart-refused", "type=" + ct + " body=" + vh::show(body, 600));
    CHECK(c, to_mset(d) == want, "multipart-fields", "type=" + ct + " body=" + vh::show(body, 700) + " got " + show(to_mset(d)) + " want " + show(want));
    c.count("forms"); c.count("form_fields", want.size());
    // the same form through a request
    if (r.chance(30)) {
        std::string w = "POST /f HTTP/1.1\r\nContent-Type: " + ct + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
        pion::http::request rq; parser p(true); boost::system::error_code ec; std::unique_ptr<char[]> b2; block(w, b2); p.set_read_buffer(b2.get(), w.size());
        boost::tribool rc = p.parse(rq, ec);
        CHECK(c, rc == true && to_mset(rq.get_queries()) == want, "multipart-request-fields", vh::show(w, 700) + " got " + show(to_mset(rq.get_queries())));
        c.count("forms_in_requests");
    }
    if (n) { c.distinct(hash_str(body, 5)); if (body.size() < 300) c.sample("form " + vh::show(body)); }
}
SCENARIO("P07", "form_requests", 10000, 150000) {
    Rng& r = c.rng; std::string q = r.from("abc=&,%4+", r.below(16)), body = r.from("abc=&,%4+", r.below(30));
    static const char *cts[] = { "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8", "text/plain", "" };
    int k = r.below(4); bool chunked = r.chance(40);
    std::string w = std::string(r.chance(50) ? "POST" : "PUT") + " /r" + (q.empty() ? "" : "?" + q) + " HTTP/1.1\r\n"; if (k < 3) w += std::string("Content-Type: ") + cts[k] + "\r\n";
    if (chunked) { char hx[20]; snprintf(hx, sizeof hx, "%zx\r\n", body.size()); w += "Transfer-Encoding: chunked\r\n\r\n" + (body.empty() ? "" : hx + body + "\r\n") + "0\r\n\r\n"; }
    else w += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    mset want; if (!q.empty()) ref_urlencoded(q, want); if (k < 2) ref_urlencoded(body, want);
    pion::http::request rq; parser p(true); boost::system::error_code ec; std::unique_ptr<char[]> b2; block(w, b2); p.set_read_buffer(b2.get(), w.size());
    boost::tribool rc = p.parse(rq, ec);
    CHECK(c, rc == true, "form-request-refused", vh::show(w));
    CHECK(c, to_mset(rq.get_queries()) == want, "form-request-pairs", vh::show(w) + " got " + show(to_mset(rq.get_queries())) + " want " + show(want));
    c.count("form_requests"); if (want.size() > 1) c.distinct(hash_str(w, 6));
}
SCENARIO("P07", "uris", 40000, 400000) {
    Rng& r = c.rng; static const char *pr[] = { "http", "https", "HTTP", "HTTPS", "ftp", "" }; std::string proto = pr[r.below(6)];
    std::string host = r.chance(95) ? r.from("abcxyz019.-", 1 + r.below(15)) : ""; std::string u = proto.empty() ? "" : proto + "://"; u += host;
    int port = proto == "http" || proto == "HTTP" ? 80 : proto == "https" || proto == "HTTPS" ? 443 : 0; bool ok = !host.empty();
    if (r.chance(50)) { int k = r.below(10); if (k < 7) { int v = r.chance(30) ? (r.chance(50) ? 65535 : 0) : r.below(65536); u += ":" + std::to_string(v); port = v; } else { ok = false; static const char *bad[] = { "65536", "x", "", "-1", "99999999999", "8o", "70000", "80 " }; u += std::string(":") + bad[r.below(8)]; } }
    std::string path = "/", query;
    if (r.chance(70)) { path = "/" + r.from("abc/%20:.-", r.below(20)); if (path.size() > 1 && path[1] == '/') path[1] = 'b'; { size_t z; while ((z = path.find("://")) != std::string::npos) path.erase(z, 1); } u += path; if (path.size() && path[path.size()-1] == ':') { path += 'x'; u += 'x'; } if (r.chance(50)) { query = r.from("abc=&?/#", r.below(15)); u += "?" + query; } }
    std::string gp = "stale", gh = "stale", gpath = "stale", gq = "stale=1"; boost::uint16_t gport = 4711;
    bool g = parser::parse_uri(u, gp, gh, gport, gpath, gq);
    CHECK(c, g == ok, "uri-acceptance", u + " got " + std::to_string(g));
    if (ok) CHECK(c, gp == proto && gh == host && gport == port && gpath == path && gq == query, "uri-parts", u + " -> " + gp + "|" + gh + "|" + std::to_string(gport) + "|" + gpath + "|" + gq);
    c.count(ok ? "uris_accepted" : "uris_refused"); c.distinct(hash_str(u, 7));
}
SCENARIO("P07", "forwarded_for", 30000, 300000) {
    Rng& r = c.rng; size_t n = r.below(6); std::string h, want; bool found = false;
    for (size_t i = 0; i < n; ++i) {
        if (i) h += r.chance(70) ? ", " : r.chance(50) ? "," : " ";
        if (r.chance(10)) { h += r.chance(50) ? "unknown" : "_hidden"; continue; }
        int a, b, x = r.below(256), y = r.below(256); bool priv;
        switch (r.below(7)) { case 0: a = 10; b = r.below(256); break; case 1: a = 127; b = r.below(256); break; case 2: a = 192; b = r.chance(70) ? 168 : r.below(256); break; case 3: a = 172; b = r.chance(80) ? 14 + r.below(20) : r.below(256); break; default: a = r.below(256); b = r.below(256); }
        priv = a == 10 || a == 127 || (a == 192 && b == 168) || (a == 172 && b >= 16 && b <= 31);
        char t[32]; snprintf(t, sizeof t, "%d.%d.%d.%d", a, b, x, y); h += t; if (!priv && !found) { found = true; want = t; }
    }
    std::string got; bool g = parser::parse_forwarded_for(h, got);
    CHECK(c, g == found && (!g || got == want), "forwarded-for", h + " -> " + got + " want " + want);
    c.count(found ? "public_address_found" : "no_public_address"); c.distinct(hash_str(h, 8));
}

// ---------------------------------------------------------------- P08
static std::string gen_token(Rng& r, size_t max) { return r.from(TOKEN, 1 + r.below(max)); }
static bool reserved(const std::string& n) { static const char *x[] = { "content-length", "transfer-encoding", "connection", "cookie", "set-cookie", "content-type" }; std::string l = lower(n); for (auto y : x) if (l == y) return true; return false; }
struct Built { mset headers, cookies; std::string first, content; };
template <class M> static Built fill(Rng& r, M& m, bool content_ok) {
    Built b; size_t n = r.below(8);
    for (size_t i = 0; i < n; ++i) { std::string k = r.chance(70) ? gen_token(r, 12) : std::string("X-Rep"), v = gen_value(r, r.chance(5) ? 2000 : 30); if (reserved(k)) continue; m.add_header(k, v); b.headers.insert(std::make_pair(lower(k), v)); }
    std::set<std::string> seen; n = r.chance(40) ? r.below(4) : 0;
    for (size_t i = 0; i < n; ++i) { std::string k = r.from("abcdefgh", 1 + r.below(6)) + "ck", v = r.from("abcXYZ019-_.", 1 + r.below(12)); if (!seen.insert(k + "=" + v).second) continue; m.add_cookie(k, v); b.cookies.insert(std::make_pair(lower(k), v)); }
    if (content_ok && r.chance(70)) { b.content = gen_body(r, r.chance(10) ? 60000 : 3000); static_cast<pion::http::message&>(m).set_content(b.content); }
    if (r.chance(20)) m.set_version_minor(0);
    return b;
}
static mset drop(const pion::ihash_multimap& h, const char *name) { mset m; for (auto& kv : h) if (lower(kv.first) != name) m.insert(std::make_pair(lower(kv.first), kv.second)); return m; }
static void check_back(Ctx& c, pion::http::message& m, const Built& b, const char *ck, const std::string& wire, bool keep = true) {
    CHECK(c, m.is_valid(), "readback-invalid", vh::show(wire));
    CHECK(c, m.get_first_line() == b.first, "readback-first-line", vh::show(m.get_first_line()) + " want " + vh::show(b.first) + " wire " + vh::show(wire));
    CHECK(c, m.get_content_length() == b.content.size() && std::string(m.get_content(), m.get_content_length()) == b.content, "readback-content", "len " + std::to_string(m.get_content_length()) + " want " + std::to_string(b.content.size()) + " " + vh::show(wire));
    mset w = b.headers; w.insert(std::make_pair("connection", keep ? "Keep-Alive" : "close")); w.insert(std::make_pair("content-length", std::to_string(b.content.size())));
    CHECK(c, drop(m.get_headers(), ck) == w, "readback-headers", "got " + show(drop(m.get_headers(), ck)) + " want " + show(w) + " wire " + vh::show(wire));
    CHECK(c, to_mset(m.get_cookies(), true) == b.cookies, "readback-cookies", "got " + show(to_mset(m.get_cookies(), true)) + " want " + show(b.cookies));
    c.count("headers_compared", w.size());
}
template <class M, class R> static void round_trip(Ctx& c, M& m, R& back, Built& b, const char *ck) {
    std::ostringstream o1, o2; boost::system::error_code ec; b.first = m.get_first_line();
    std::size_t n1 = m.write(o1, ec); CHECK(c, !ec && n1 == o1.str().size(), "write-count", "returned " + std::to_string(n1) + " wrote " + std::to_string(o1.str().size()));
    std::size_t n2 = m.write(o2, ec); CHECK(c, n2 == n1 && o1.str() == o2.str(), "second-write-differs", vh::show(o1.str()) + " THEN " + vh::show(o2.str()));
    std::ostringstream o3; m.write(o3, ec, true);
    CHECK(c, o3.str() == o1.str().substr(0, o1.str().size() - b.content.size()), "headers-only-write", vh::show(o3.str()));
    // an independent look at the framing of what was written
    std::string w = o1.str(); size_t he = w.find("\r\n\r\n");
    CHECK(c, he != std::string::npos && w.substr(he + 4) == b.content, "written-framing", vh::show(w));
    std::istringstream in(w + (c.rng.chance(50) ? "GET /next HTTP/1.1\r\n\r\n" : "")); 
    std::size_t rn = back.read(in, ec);
    CHECK(c, !ec && rn == w.size(), "read-count", "read " + std::to_string(rn) + " of " + std::to_string(w.size()) + " " + ec.message() + " " + vh::show(w));
    check_back(c, back, b, ck, w);
    // failing output is reported
    struct Full : std::streambuf { size_t left; Full(size_t n) : left(n) {} int overflow(int ch) { if (!left) return EOF; --left; return ch; } std::streamsize xsputn(const char*, std::streamsize n) { std::streamsize k = std::min<size_t>(left, n); left -= k; return k; } };
    Full fb(c.rng.below(w.size())); std::ostream fo(&fb); boost::system::error_code fec; m.write(fo, fec); CHECK(c, !!fec, "write-failure-unreported", "");
    // input that ends early is reported
    size_t cut = c.rng.below(w.size()); std::istringstream tin(w.substr(0, cut)); boost::system::error_code tec; R t(back); t.read(tin, tec);
    CHECK(c, !!tec && !t.is_valid(), "truncated-read-unreported", "cut at " + std::to_string(cut) + " of " + vh::show(w));
    c.count("truncated_reads_reported");
    c.count("messages_round_tripped"); c.count("bytes_written", w.size()); c.distinct(hash_str(w)); if (w.size() < 250) c.sample(vh::show(w));
}
SCENARIO("P08", "requests", 16000, 250000) {
    Rng& r = c.rng; pion::http::request m; static const char *ms[] = { "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS" };
    m.set_method(r.chance(80) ? ms[r.below(6)] : gen_token(r, 10)); std::string res = gen_resource(r); m.set_resource(res);
    if (r.chance(50)) { std::string q = gen_query(r); if (!q.empty()) m.set_query_string(q); }
    Built b = fill(r, m, true); pion::http::request back; round_trip(c, m, back, b, "cookie"); if (c.failed) return;
    CHECK(c, back.get_method() == m.get_method() && back.get_resource() == res && back.get_query_string() == m.get_query_string(), "readback-request-line", "");
    c.count("requests");
}
SCENARIO("P08", "responses", 16000, 250000) {
    Rng& r = c.rng; std::string rm = r.chance(15) ? "HEAD" : "GET"; pion::http::response m(rm);
    static const unsigned codes[] = { 200, 201, 301, 400, 404, 500, 503, 204, 304, 206, 207, 418, 599 }; unsigned code = codes[r.below(13)]; m.set_status_code(code); m.set_status_message(gen_value(r, 20));
    bool body = rm != "HEAD" && code != 204 && code != 304; Built b = fill(r, m, body);
    pion::http::response back(rm); round_trip(c, m, back, b, "set-cookie"); if (c.failed) return;
    CHECK(c, back.get_status_code() == code && back.get_status_message() == m.get_status_message(), "readback-status-line", "");
    c.count("responses");
}
SCENARIO("P08", "head_responses", 4000, 60000) {
    // a response to HEAD announces a length but carries no content; the next one on the stream must be intact
    Rng& r = c.rng; size_t len = r.below(1000); std::string te = r.chance(50) ? "Content-Length: " + std::to_string(len) : "Transfer-Encoding: chunked";
    std::string w = "HTTP/1.1 200 OK\r\n" + te + "\r\nX-A: b\r\n\r\n"; std::istringstream in(w + "HTTP/1.1 404 No\r\nContent-Length: 3\r\n\r\nabc");
    pion::http::request q; q.set_method("HEAD"); pion::http::response a(q); boost::system::error_code ec; size_t n = a.read(in, ec);
    CHECK(c, !ec && n == w.size() && a.is_valid() && a.get_content_length() == 0, "head-response-read", "read " + std::to_string(n) + " of " + std::to_string(w.size()) + " " + te);
    pion::http::response a2; n = a2.read(in, ec); CHECK(c, !ec && a2.get_status_code() == 404 && std::string(a2.get_content(), a2.get_content_length()) == "abc", "response-after-head", te);
    c.count("head_responses"); c.distinct(mix64(len * 2 + (te[0] == 'C')));
}
SCENARIO("P08", "until_close_reads", 6000, 100000) {
    // a response without a length is complete where the input ends
    Rng& r = c.rng; Opt o; o.max_body = r.chance(10) ? 60000 : 400; Msg x; do x = gen(r, false, o); while (x.kind != B_EOF); std::string w = x.wire();
    std::istringstream in(w); pion::http::response m("GET"); boost::system::error_code ec; size_t n = m.read(in, ec);
    CHECK(c, !ec && n == w.size(), "until-close-read", "read " + std::to_string(n) + " of " + std::to_string(w.size()) + " " + ec.message() + " " + vh::show(w));
    CHECK(c, m.is_valid() && std::string(m.get_content(), m.get_content_length()) == x.body && m.get_status_code() == x.code, "until-close-content", "length " + std::to_string(m.get_content_length()) + " of " + std::to_string(x.body.size()) + " " + vh::show(w));
    c.count("until_close_reads"); c.distinct(hash_str(w, 5));
}
SCENARIO("P08", "chunked_reads", 6000, 100000) {
    Rng& r = c.rng; Opt o; o.allow_eof = false; bool req = r.chance(50); Msg x = gen(r, req, o), y = gen(r, req, o); if (!req) { x.request_method = "GET"; }
    if (!req && (x.kind == B_NONE)) return;
    std::istringstream in(x.wire() + y.wire()); boost::system::error_code ec; size_t n;
    if (req) { pion::http::request m; n = m.read(in, ec); CHECK(c, !ec && n == x.wire().size() && std::string(m.get_content(), m.get_content_length()) == x.body && m.get_method() == x.method, "stream-read", vh::show(x.wire())); }
    else { pion::http::response m("GET"); n = m.read(in, ec); CHECK(c, !ec && n == x.wire().size() && std::string(m.get_content(), m.get_content_length()) == x.body && m.get_status_code() == x.code, "stream-read", vh::show(x.wire())); }
    c.count("stream_reads"); c.distinct(hash_str(x.wire(), 4));
}

// over a connection: what is sent at one end is received at the other, message by message
struct Conn {
    boost::asio::io_service io; boost::asio::ip::tcp::acceptor acc; boost::asio::ssl::context sctx; std::shared_ptr<pion::tcp::connection> k;
    Conn() : acc(io, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4(net::addr()), 0)), sctx(boost::asio::ssl::context::sslv23) { acc.listen(); sctx.use_certificate_file(net::pem(), boost::asio::ssl::context::pem); sctx.use_private_key_file(net::pem(), boost::asio::ssl::context::pem); }
    std::string accept(bool tls) { k.reset(tls ? new pion::tcp::connection(io, sctx) : new pion::tcp::connection(io)); boost::system::error_code ec = k->accept(acc); if (!ec && tls) ec = k->handshake_server(); return ec ? "accept: " + ec.message() : ""; }
};
static void received(Ctx& c, pion::http::message& m, const Msg& x, size_t max, const std::string& body, const std::string& at, bool content = true) {
    CHECK(c, m.is_valid(), "received-invalid", at);
    if (content) CHECK(c, std::string(m.get_content(), m.get_content_length()) == body.substr(0, max), "received-content", "length " + std::to_string(m.get_content_length()) + " of " + std::to_string(body.size()) + at);
    pairs_t want = x.headers; want.insert(want.end(), x.trailers.begin(), x.trailers.end()); mset w; for (auto& kv : want) w.insert(std::make_pair(lower(kv.first), kv.second));
    CHECK(c, to_mset(m.get_headers(), true) == w, "received-headers", "got " + show(to_mset(m.get_headers(), true)) + " want " + show(w) + at);
    if (x.req) { pion::http::request& q = dynamic_cast<pion::http::request&>(m); CHECK(c, q.get_method() == x.method && q.get_resource() == x.resource && q.get_query_string() == x.query, "received-first-line", m.get_first_line() + at); }
    else { pion::http::response& p = dynamic_cast<pion::http::response&>(m); CHECK(c, p.get_status_code() == x.code && p.get_status_message() == x.reason, "received-first-line", m.get_first_line() + at); }
}
static pion::http::message *fresh(bool req, const std::string& rm) { if (req) return new pion::http::request; return new pion::http::response(rm); }
SCENARIO("P08", "received_messages", 1500, 20000) {
    Rng& r = c.rng; bool req = r.chance(50), tls = r.chance(12); size_t n = 1 + r.below(5); std::vector<Msg> ms; std::string wire;
    for (size_t i = 0; i < n; ++i) {
        Opt o; o.allow_eof = i + 1 == n; o.max_body = r.chance(20) ? 40000 : 600; Msg m = gen(r, req, o); bool last = i + 1 == n;
        pairs_t h; for (auto& kv : m.headers) if (lower(kv.first) != "connection") h.push_back(kv); m.headers.swap(h);
        if (!last) m.vmin = 1; if (r.chance(30)) m.headers.push_back(std::make_pair(r.chance(80) ? "Connection" : "connection", last && r.chance(50) ? r.chance(50) ? "close" : "Close" : "Keep-Alive"));
        render(r, m); wire += m.wire(); ms.push_back(m);
    }
    int end = (int)r.below(4); size_t cut = wire.size(); Msg& z = ms[n - 1]; size_t zstart = wire.size() - z.wire().size();
    if (end == 0 && !z.wire().empty()) cut = zstart + r.below(z.wire().size());   // the last one is cut short
    bool honly = end == 1; size_t max = r.chance(25) ? r.below(700) : (size_t)-1; uint64_t ss = r.next();
    std::shared_ptr<Conn> k(new Conn); int port = k->acc.local_endpoint().port(); std::atomic<int> left(1); std::string serr;
    boost::thread t([&] { Rng q(ss); net::Client p; if (!p.connect(port, tls)) serr = "connect"; else { net::send_pieces(p, wire.substr(0, cut), q); if (q.chance(50)) usleep(q.below(3000)); p.half_close(); usleep(500); p.drain(20); } --left; });
    struct Join { boost::thread& t; std::shared_ptr<Conn>& k; ~Join() { if (k->k) k->k->close(); if (t.joinable()) t.join(); } } join = { t, k };
    std::string e = k->accept(tls); CHECK(c, e.empty(), "accept", e);
    arm_wall(60);
    for (size_t i = 0; i < n; ++i) {
        Msg& x = ms[i]; bool last = i + 1 == n, keep = x.vmin == 1; for (auto& kv : x.headers) if (lower(kv.first) == "connection" && lower(kv.second) == "close") keep = false;
        std::string at = " message " + std::to_string(i) + " of " + std::to_string(n) + " tls=" + std::to_string(tls) + " max=" + std::to_string((long)max) + " cut=" + std::to_string(last ? cut - zstart : 0) + " in=" + vh::show(x.wire(), 600);
        std::unique_ptr<pion::http::message> m(fresh(req, x.request_method)); boost::system::error_code ec; size_t got;
        bool ho = last && honly; if (ho || max != (size_t)-1) got = m->receive(*k->k, ec, ho, max); else got = m->receive(*k->k, ec);
        bool isshort = last && cut < wire.size(); size_t have = isshort ? cut - zstart : x.wire().size();
        if (isshort && !(x.kind == B_EOF && have >= x.head.size())) {
            CHECK(c, !!ec && !m->is_valid(), "short-message-unreported", at); CHECK(c, got <= have, "received-count", std::to_string(got) + at); c.count("short_messages_reported"); break;
        }
        std::string body = ho ? "" : x.kind == B_EOF ? x.body.substr(0, have - x.head.size()) : x.body; Msg y = x; if (ho) y.trailers.clear();
        CHECK(c, !ec, "receive-failed", ec.message() + at);
        received(c, *m, y, max, body, at, !ho); if (c.failed) return;
        CHECK(c, got == (ho ? x.head.size() : have), "received-count", std::to_string(got) + " of " + std::to_string(have) + at);
        if (x.kind == B_EOF && !ho) keep = false;
        CHECK(c, k->k->get_keep_alive() == keep, "received-lifecycle", "keep " + std::to_string(k->k->get_keep_alive()) + at);
        if (ho) {   // the rest of the message is still there to be read
            std::string rest; const char *a, *b; if (!keep || k->k->get_pipelined()) { k->k->load_read_pos(a, b); rest.assign(a, b - a); }
            while (rest.size() < x.tail.size()) { size_t left = std::min<size_t>(x.tail.size() - rest.size(), 8192), g = r.chance(50) ? k->k->read_some(ec) : k->k->read(boost::asio::transfer_at_least(left), ec); if (ec) break; rest.append(k->k->get_read_buffer().data(), g); }
            CHECK(c, rest == x.tail, "rest-after-headers", vh::show(rest) + at); c.count("headers_only_received");
        }
        c.count("messages_received"); if (tls) c.count("messages_received_over_tls"); if (k->k->get_pipelined()) c.count("pipelined_received");
        if (!keep) break;
    }
    arm_wall(0); CHECK(c, serr.empty(), "sender", serr); c.distinct(hash_str(wire, cut * 4 + honly)); if (wire.size() < 250) c.sample("received " + vh::show(wire));
}
SCENARIO("P08", "sent_and_received", 600, 8000) {
    Rng& r = c.rng; bool req = r.chance(50), tls = r.chance(12); size_t n = 1 + r.below(5);
    std::vector<std::unique_ptr<pion::http::message> > ms; std::vector<Built> bs; std::vector<std::string> rms, head; std::vector<bool> keep;
    for (size_t i = 0; i < n; ++i) {
        std::string rm = !req && r.chance(15) ? "HEAD" : "GET"; std::unique_ptr<pion::http::message> m(fresh(req, rm)); Built b; bool k = i + 1 < n || r.chance(50);
        if (req) { pion::http::request& q = dynamic_cast<pion::http::request&>(*m); q.set_method(r.chance(50) ? "POST" : gen_token(r, 10)); q.set_resource(gen_resource(r)); b = fill(r, q, true); }
        else { pion::http::response& p = dynamic_cast<pion::http::response&>(*m); static const unsigned codes[] = { 200, 404, 500, 204, 304 }; unsigned code = codes[r.below(5)]; p.set_status_code(code); p.set_status_message(gen_value(r, 20)); b = fill(r, p, rm != "HEAD" && code != 204 && code != 304); }
        if (k) m->set_version_minor(1);
        b.first = m->get_first_line(); ms.push_back(std::move(m)); bs.push_back(b); rms.push_back(rm); keep.push_back(k);
    }
    std::shared_ptr<Conn> k(new Conn); boost::asio::ip::tcp::endpoint ep = k->acc.local_endpoint(); std::string serr; std::vector<size_t> sent(n, 0); bool by_name = r.chance(50);
    boost::thread t([&] {
        boost::asio::ssl::context cctx(boost::asio::ssl::context::sslv23); std::unique_ptr<pion::tcp::connection> o(tls ? new pion::tcp::connection(k->io, cctx) : new pion::tcp::connection(k->io));
        boost::system::error_code ec = by_name ? o->connect(ep.address(), ep.port()) : o->connect(ep); if (!ec && tls) ec = o->handshake_client(); if (ec) { serr = "connect: " + ec.message(); return; }
        for (size_t i = 0; i < n; ++i) {
            o->set_lifecycle(keep[i] ? pion::tcp::connection::LIFECYCLE_KEEPALIVE : pion::tcp::connection::LIFECYCLE_CLOSE);
            sent[i] = ms[i]->send(*o, ec); if (ec) { serr = "send: " + ec.message(); return; }
        }
        boost::system::error_code e2; o->get_socket().shutdown(boost::asio::ip::tcp::socket::shutdown_send, e2); char ch[512]; e2.clear(); while (!e2) o->get_socket().read_some(boost::asio::buffer(ch), e2); o->close();
    });
    struct Join { boost::thread& t; std::shared_ptr<Conn>& k; ~Join() { if (k->k) k->k->close(); if (t.joinable()) t.join(); } } join = { t, k };
    std::string e = k->accept(tls); CHECK(c, e.empty(), "accept", e);
    arm_wall(60);
    std::vector<size_t> got(n, 0);
    for (size_t i = 0; i < n; ++i) {
        std::unique_ptr<pion::http::message> back(fresh(req, rms[i])); boost::system::error_code ec; std::string at = " message " + std::to_string(i) + " of " + std::to_string(n) + " tls=" + std::to_string(tls) + " content=" + std::to_string(bs[i].content.size());
        got[i] = back->receive(*k->k, ec); CHECK(c, !ec, "receive-failed", ec.message() + at);
        check_back(c, *back, bs[i], req ? "cookie" : "set-cookie", at, keep[i]); if (c.failed) return;
        if (keep[i]) CHECK(c, k->k->get_keep_alive(), "received-lifecycle", at); else CHECK(c, !k->k->get_keep_alive(), "received-lifecycle", at);
        c.count("messages_sent_and_received");
        if (!k->k->get_keep_alive()) { CHECK(c, i + 1 == n, "received-lifecycle", at); break; }
    }
    arm_wall(0); k->k->close(); t.join(); CHECK(c, serr.empty(), "send-failed", serr); for (size_t i = 0; i < n; ++i) CHECK(c, got[i] == sent[i], "sent-count", std::to_string(sent[i]) + " sent " + std::to_string(got[i]) + " received");
    c.distinct(mix64(r.next()));
}

// ---------------------------------------------------------------- P12
struct Dict {   // reference: case-insensitive multimap
    mset v;
    void add(const std::string& k, const std::string& x) { v.insert(std::make_pair(lower(k), x)); }
    void del(const std::string& k) { std::string l = lower(k); for (auto i = v.begin(); i != v.end(); ) if (i->first == l) i = v.erase(i); else ++i; }
    void change(const std::string& k, const std::string& x) { del(k); add(k, x); }
    bool has(const std::string& k) const { auto i = v.lower_bound(std::make_pair(lower(k), std::string())); return i != v.end() && i->first == lower(k); }
    bool is(const std::string& k, const std::string& x) const { return v.count(std::make_pair(lower(k), x)) != 0; }
};
struct Model {
    bool req; Dict h, ck, q; std::string method, resource, orig, qs, reason, content; unsigned code; int vmaj, vmin; bool valid, chunks; size_t clen; int status; bool miss, after;
    Model() : req(true), method("GET"), resource(""), code(200), vmaj(1), vmin(1), valid(false), chunks(false), clen(0), status(0), miss(false), after(false) { reason = "OK"; }
    std::string first() const {
        std::string ver = "HTTP/" + std::to_string(vmaj) + "." + std::to_string(vmin);
        return req ? method + " " + resource + (qs.empty() ? "" : "?" + qs) + " " + ver : ver + " " + std::to_string(code) + " " + reason;
    }
};
static std::string opname;
static std::string randcase(Rng& r, std::string s) { for (auto& ch : s) if (r.chance(50)) { if (ch >= 'a' && ch <= 'z') ch -= 32; else if (ch >= 'A' && ch <= 'Z') ch += 32; } return s; }
static void compare(Ctx& c, Rng& r, pion::http::message& m, const Model& x, const std::vector<std::string>& keys, const std::string& trace) {
    CHECK(c, to_mset(m.get_headers(), true) == x.h.v, "headers-differ", "after " + trace + ": " + show(to_mset(m.get_headers(), true)) + " want " + show(x.h.v));
    CHECK(c, to_mset(m.get_cookies(), true) == x.ck.v, "cookies-differ", "after " + trace);
    const pion::http::message& cm = m;
    std::string k = randcase(r, r.pick(keys));
    CHECK(c, cm.has_header(k) == x.h.has(k) && (x.h.has(k) ? x.h.is(k, cm.get_header(k)) : cm.get_header(k).empty()), "header-lookup", k + " after " + trace);
    CHECK(c, cm.has_cookie(k) == x.ck.has(k) && (x.ck.has(k) ? x.ck.is(k, cm.get_cookie(k)) : cm.get_cookie(k).empty()), "cookie-lookup", k + " after " + trace);
    if (r.chance(60)) CHECK(c, cm.get_first_line() == x.first(), "stale-first-line", "got " + vh::show(cm.get_first_line()) + " want " + vh::show(x.first()) + " after " + trace);
    CHECK(c, cm.get_content_length() == x.clen, "content-length", std::to_string(cm.get_content_length()) + " want " + std::to_string(x.clen) + " after " + trace);
    CHECK(c, cm.get_content_buffer_size() == x.content.size() && std::string(cm.get_content(), x.content.size()) == x.content && cm.get_content()[x.content.size()] == 0, "content", "after " + trace);
    CHECK(c, cm.get_version_major() == x.vmaj && cm.get_version_minor() == x.vmin && cm.is_valid() == x.valid && cm.get_chunks_supported() == x.chunks && (int)cm.get_status() == x.status && cm.has_missing_packets() == x.miss && cm.has_data_after_missing_packets() == x.after, "flags", "after " + trace);
    bool ka = !x.h.is("connection", "close"); if (!x.h.has("connection") || ka) CHECK(c, cm.check_keep_alive() == (ka && (x.vmaj > 1 || (x.vmaj == 1 && x.vmin >= 1))), "keep-alive", "after " + trace);
    if (x.req) {
        pion::http::request& q = dynamic_cast<pion::http::request&>(m);
        CHECK(c, to_mset(q.get_queries(), true) == x.q.v, "queries-differ", "after " + trace);
        CHECK(c, q.get_method() == x.method && q.get_resource() == x.resource && q.get_original_resource() == x.orig && q.get_query_string() == x.qs, "request-fields", "after " + trace);
        CHECK(c, q.has_query(k) == x.q.has(k) && (x.q.has(k) ? x.q.is(k, q.get_query(k)) : q.get_query(k).empty()), "query-lookup", k + " after " + trace);
    } else {
        pion::http::response& q = dynamic_cast<pion::http::response&>(m);
        CHECK(c, q.get_status_code() == x.code && q.get_status_message() == x.reason, "response-fields", "after " + trace);
    }
}
template <class M> struct Pair { M m; Model x; };
static void specific(Rng& r, pion::http::request& m, Model& x, std::string& t, const std::vector<std::string>& keys) {
    std::string k = randcase(r, r.pick(keys)), v = r.from("ab01 &=%", r.below(6));
    switch (r.below(11)) {
        case 0: x.method = gen_token(r, 5); m.set_method(x.method); t += "set_method;"; break;
        case 1: x.resource = x.orig = "/" + r.from("ab/", r.below(5)); m.set_resource(x.resource); t += "set_resource;"; break;
        case 2: x.resource = "/" + r.from("cd/", r.below(5)); m.change_resource(x.resource); t += "change_resource;"; break;
        case 3: x.qs = r.from("ab=&", r.below(6)); m.set_query_string(x.qs); t += "set_query_string;"; break;
        case 4: m.add_query(k, v); x.q.add(k, v); t += "add_query(" + k + ");"; break;
        case 5: m.change_query(k, v); x.q.change(k, v); t += "change_query(" + k + ");"; break;
        case 6: m.delete_query(k); x.q.del(k); t += "delete_query(" + k + ");"; break;
        case 7: { m.use_query_params_for_query_string(); x.qs = m.get_query_string(); t += "use_query_params_for_query_string;"; mset w; ref_urlencoded(x.qs, w); mset wl; for (auto& kv : w) wl.insert(std::make_pair(lower(kv.first), kv.second)); if (wl != x.q.v) x.qs = "<does not decode to the parameters>"; break; }
        case 8: { m.use_query_params_for_post_content(); x.content = std::string(m.get_content(), m.get_content_length()); x.clen = x.content.size(); x.method = "POST"; x.h.change("Content-Type", "application/x-www-form-urlencoded"); t += "use_query_params_for_post_content;"; mset w, wl; ref_urlencoded(x.content, w); for (auto& kv : w) wl.insert(std::make_pair(lower(kv.first), kv.second)); if (wl != x.q.v) x.content = "<bad>"; break; }
        case 9: { std::string s = r.bytes(r.below(20)); m.set_content(s.data(), s.size()); if (!s.empty()) { x.content = s; x.clen = s.size(); } t += "set_content(ptr," + std::to_string(s.size()) + ");"; break; }
        default: { std::string s = r.bytes(r.below(20)); m.set_content(s); x.content = s; x.clen = s.size(); t += "set_content;"; }
    }
}
static std::string day(unsigned long t) { time_t tt = t; struct tm g; gmtime_r(&tt, &g); char b[64]; strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &g); return b; }
static void specific(Rng& r, pion::http::response& m, Model& x, std::string& t, const std::vector<std::string>&) {
    switch (r.below(5)) {
        case 0: x.code = 100 + r.below(500); m.set_status_code(x.code); t += "set_status_code;"; break;
        case 1: x.reason = r.from("abc ", r.below(8)); m.set_status_message(x.reason); t += "set_status_message;"; break;
        case 2: { unsigned long tm = r.next() & 0x7fffffff; m.set_last_modified(tm); x.h.change("Last-Modified", day(tm)); t += "set_last_modified;"; break; }
        case 3: { std::string n = gen_token(r, 4), before; m.set_cookie(n, "v"); x.h.add("Set-Cookie", m.make_set_cookie_header(n, "v", "/")); t += "set_cookie;"; break; }
        default: { pion::http::request q; q.set_version_minor(r.below(2)); m.update_request_info(q); if (q.get_version_minor() == 1) x.chunks = true; t += "update_request_info;"; }
    }
}
static void reset_specific(pion::http::request&, Model& x) { x.method = ""; x.resource = x.orig = x.qs = ""; x.q.v.clear(); }
static void reset_specific(pion::http::response&, Model& x) { x.code = 200; x.reason = "OK"; }
template <class M> static void model_run(Ctx& c, bool req) {
    Rng& r = c.rng; std::vector<std::string> keys; keys.push_back("a"); keys.push_back("Content-Type"); keys.push_back("connection"); for (int i = 0; i < 4; ++i) keys.push_back(gen_token(r, 3));
    if (r.chance(40)) { std::string nm; for (int i = 0; i < 3; ++i) nm += (char)(0x80 + r.below(128)); keys.push_back(nm); }
    std::vector<std::unique_ptr<M> > ms; std::vector<Model> xs; ms.emplace_back(new M); Model x0; x0.req = req; x0.method = ms[0]->get_first_line().substr(0, ms[0]->get_first_line().find(' ')); if (!req) x0.method = ""; else x0.method = "GET"; xs.push_back(x0);
    std::string t; size_t nops = 1 + r.below(40); std::string sig;
    for (size_t i = 0; i < nops; ++i) {
        size_t k = r.below(ms.size()); M& m = *ms[k]; Model& x = xs[k]; t += "#" + std::to_string(k) + ".";
        std::string key = randcase(r, r.pick(keys)), v = r.chance(10) ? "close" : r.from("xyz 01", r.below(6)); int op = r.below(20); sig += (char)('a' + op);
        pion::http::message& b = m;
        switch (op) {
            case 0: case 1: b.add_header(key, v); x.h.add(key, v); t += "add_header(" + key + ");"; break;
            case 2: case 3: b.change_header(key, v); x.h.change(key, v); t += "change_header(" + key + ");"; break;
            case 4: b.delete_header(key); x.h.del(key); t += "delete_header(" + key + ");"; break;
            case 5: b.add_cookie(key, v); x.ck.add(key, v); t += "add_cookie(" + key + ");"; break;
            case 6: b.change_cookie(key, v); x.ck.change(key, v); t += "change_cookie(" + key + ");"; break;
            case 7: b.delete_cookie(key); x.ck.del(key); t += "delete_cookie(" + key + ");"; break;
            case 8: { std::string s = gen_body(r, 40); b.set_content(s); x.content = s; x.clen = s.size(); t += "set_content(" + std::to_string(s.size()) + ");"; break; }
            case 9: b.clear_content(); x.content.clear(); x.clen = 0; x.h.del("Content-Type"); t += "clear_content;"; break;
            case 10: b.set_content_type(v); x.h.change("Content-Type", v); t += "set_content_type;"; break;
            case 11: x.vmaj = r.below(3); b.set_version_major(x.vmaj); t += "set_version_major;"; break;
            case 12: x.vmin = r.below(12); b.set_version_minor(x.vmin); t += "set_version_minor;"; break;
            case 13: x.valid = r.chance(50); b.set_is_valid(x.valid); x.chunks = r.chance(50); b.set_chunks_supported(x.chunks); x.status = r.below(4); b.set_status((pion::http::message::data_status_t)x.status); x.miss = r.chance(50); b.set_missing_packets(x.miss); x.after = r.chance(50); b.set_data_after_missing_packet(x.after); t += "set_flags;"; break;
            case 14: if (ms.size() < 4) { ms.emplace_back(new M(m)); Model y = x; xs.push_back(y); t += "copy;"; c.count("copies"); } break;
            case 15: { size_t o = r.below(ms.size()); M& src = *ms[o]; m = src; Model y = xs[o]; xs[k] = y; t += "assign(#" + std::to_string(o) + ");"; c.count(o == k ? "self_assignments" : "assignments"); break; }
            case 16: if (r.chance(30)) { b.clear(); bool q = x.req; Model y; y.req = q; xs[k] = y; reset_specific(m, xs[k]); t += "clear;"; c.count("clears"); } break;
            case 17: { std::string s = r.from("ab", r.below(10)); b.get_chunk_cache().assign(s.begin(), s.end()); b.concatenate_chunks(); b.get_chunk_cache().clear(); x.content = s; x.clen = s.size(); t += "concatenate_chunks;"; break; }
            default: specific(r, m, x, t, keys);
        }
        c.count("operations");
        for (size_t z = 0; z < ms.size(); ++z) { compare(c, r, *ms[z], xs[z], keys, t + " [object " + std::to_string(z) + "]"); if (c.failed) return; c.count("state_comparisons"); }
    }
    c.distinct(hash_str(t)); if (t.size() < 300) c.sample(t);
}
SCENARIO("P12", "requests", 14000, 250000) { model_run<pion::http::request>(c, true); }
SCENARIO("P12", "responses", 10000, 150000) { model_run<pion::http::response>(c, false); }
// the dictionary itself, over many keys (hash and equality must agree under case folding)
SCENARIO("P12", "many_keys", 3000, 40000) {
    Rng& r = c.rng; pion::ihash_multimap d; Dict x; std::vector<std::string> keys; size_t nk = 1 + r.below(60); for (size_t i = 0; i < nk; ++i) keys.push_back(r.chance(80) ? gen_token(r, 8) : r.bytes(1 + r.below(4)));
    pion::http::request m;
    for (int i = 0; i < 150; ++i) {
        std::string k = randcase(r, r.pick(keys)), v = std::to_string(r.below(5));
        switch (r.below(4)) { case 0: m.delete_header(k); x.del(k); break; case 1: m.change_header(k, v); x.change(k, v); break; default: m.add_header(k, v); x.add(k, v); }
        k = randcase(r, r.pick(keys)); CHECK(c, m.has_header(k) == x.has(k), "case-insensitive-lookup", vh::show(k)); c.count("operations");
    }
    CHECK(c, to_mset(m.get_headers(), true) == x.v, "case-insensitive-dictionary", show(to_mset(m.get_headers(), true)) + " want " + show(x.v)); c.count("state_comparisons"); c.distinct(c.rng.next());
}
int main(int argc, char **argv) { return vh::run(argc, argv, 60, 120); }
