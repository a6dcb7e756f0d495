// Generator of HTTP/1.x messages with their ground truth, mutation of byte streams,
// and a driver that feeds pion's parser from exact-size heap blocks.
#pragma once
#include "vh.hpp"
#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
#include <memory>

namespace hg {
using namespace vh;
typedef std::vector<std::pair<std::string, std::string> > pairs_t;

static const std::string TOKEN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";
inline std::string lower(std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }

enum BodyKind { B_NONE, B_LENGTH, B_CHUNKED, B_EOF };
struct Msg {
    bool req; std::string method, resource, query; bool has_query; int vmaj, vmin; unsigned code; std::string reason;
    pairs_t headers;      // as sent, in order, Content-Length / Transfer-Encoding included
    pairs_t trailers;
    BodyKind kind; std::string body;         // ground truth content
    std::vector<size_t> chunk_sizes;
    std::string request_method;              // responses: method of the request answered
    std::string head, tail;                  // head: first line + headers + blank line; tail: encoded body
    std::string wire() const { return head + tail; }
    Msg() : req(true), has_query(false), vmaj(1), vmin(1), code(200), kind(B_NONE) {}
};

inline std::string gen_value(Rng& r, size_t max) {
    // no control characters, no blanks at the ends
    std::string s; size_t n = r.below(max + 1);
    for (size_t i = 0; i < n; ++i) {
        unsigned c = r.chance(80) ? 0x20 + r.below(95) : 0x80 + r.below(128);
        s += (char)c;
    }
    while (!s.empty() && s[0] == ' ') s.erase(0, 1);
    while (!s.empty() && s[s.size()-1] == ' ') s.resize(s.size()-1);
    return s;
}
inline std::string gen_resource(Rng& r) {
    std::string s = "/"; size_t n = r.below(r.chance(5) ? 3000 : 30);
    for (size_t i = 0; i < n; ++i) { unsigned c = r.chance(85) ? 0x21 + r.below(94) : 0x80 + r.below(128); if (c == '?') c = '/'; s += (char)c; }
    return s;
}
inline std::string gen_query(Rng& r) {
    std::string s; size_t n = r.below(40);
    for (size_t i = 0; i < n; ++i) { unsigned c = r.chance(85) ? 0x21 + r.below(94) : 0x80 + r.below(128); s += (char)c; }
    return s;
}
inline std::string gen_body(Rng& r, size_t max) {
    if (max >= 2000 && r.below(200) == 0) max = 150000;
    size_t n = r.chance(10) ? 0 : r.below(r.chance(20) ? max + 1 : std::min<size_t>(max + 1, 80));
    switch (r.below(4)) {
        case 0: return r.bytes(n);
        case 1: { std::string s; while (s.size() < n) s += "\r\n0\r\n\r\nGET / HTTP/1.1\r\n"; s.resize(n); return s; } // looks like protocol
        case 2: return std::string(n, '\0');
        default: return r.from("abc\r\n012:; ", n);
    }
}

struct Opt { int trailers; bool allow_eof; size_t max_body; int force_kind; bool forms; Opt() : trailers(20), allow_eof(true), max_body(2000), force_kind(-1), forms(false) {} };

inline void render(Rng& r, Msg& m, bool fancy = true) {
    std::string& h = m.head; h.clear(); m.tail.clear();
    char b[64];
    if (m.req) {
        h = m.method + " " + m.resource + (m.has_query ? "?" + m.query : "") + " ";
        snprintf(b, sizeof b, "HTTP/%d.%d\r\n", m.vmaj, m.vmin); h += b;
    } else {
        snprintf(b, sizeof b, "HTTP/%d.%d %u", m.vmaj, m.vmin, m.code); h = b;
        if (!m.reason.empty() || r.chance(50)) h += " " + m.reason;
        h += "\r\n";
    }
    for (auto& kv : m.headers) h += kv.first + ": " + kv.second + "\r\n";
    h += "\r\n";
    if (m.kind == B_LENGTH || m.kind == B_EOF) m.tail = m.body;
    else if (m.kind == B_CHUNKED) {
        size_t pos = 0; m.chunk_sizes.clear();
        while (pos < m.body.size()) {
            size_t n = 1 + r.below(r.chance(50) ? 8 : m.body.size() - pos); if (n > m.body.size() - pos) n = m.body.size() - pos;
            snprintf(b, sizeof b, r.chance(50) ? "%zx" : "%zX", n); 
            std::string sz = b; if (fancy && r.chance(15)) sz = std::string(1 + r.below(r.chance(70) ? 3 : 30), '0') + sz;
            if (fancy && r.chance(20)) for (auto& ch : sz) if (r.chance(50)) ch = (char)(ch >= 'a' ? ch - 32 : ch >= 'A' ? ch + 32 : ch);
            m.tail += sz;
            if (fancy && r.chance(15)) m.tail += ";" + r.from("abc=1;\" x\t", r.below(r.chance(90) ? 12 : 3000));
            else if (fancy && r.chance(5)) m.tail += r.from(" \t", 1 + r.below(4));
            m.tail += "\r\n"; m.tail.append(m.body, pos, n); m.tail += "\r\n"; pos += n; m.chunk_sizes.push_back(n);
        }
        m.tail += r.chance(80) || !fancy ? std::string("0") : std::string(1 + r.below(24), '0'); if (fancy && r.chance(10)) m.tail += ";x=y"; m.tail += "\r\n";
        for (auto& kv : m.trailers) m.tail += kv.first + ": " + kv.second + "\r\n";
        m.tail += "\r\n";
    }
}

inline std::string gen_hname(Rng& r) {
    static const std::vector<std::string> common = { "Host", "User-Agent", "Accept", "X-Forwarded-For", "Referer", "ETag", "Connection", "Server", "X-A", "x-a", "X-B", "Range" };
    if (r.chance(60)) return r.pick(common);
    std::string n;
    do n = r.from(TOKEN, 1 + r.below(24)); while (lower(n) == "content-length" || lower(n) == "transfer-encoding" || lower(n) == "cookie" || lower(n) == "set-cookie" || lower(n) == "content-type");
    return n;
}

inline Msg gen(Rng& r, bool req, const Opt& o = Opt()) {
    Msg m; m.req = req;
    if (req) {
        static const std::vector<std::string> meth = { "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH" };
        m.method = r.chance(80) ? r.pick(meth) : r.from(TOKEN, 1 + r.below(20));
        m.resource = gen_resource(r);
        if (r.chance(40)) { m.has_query = true; m.query = gen_query(r); }
        int k = (int)r.below(3); m.kind = o.force_kind >= 0 ? (BodyKind)o.force_kind : k == 0 ? B_NONE : k == 1 ? B_LENGTH : B_CHUNKED;
    } else {
        static const unsigned codes[] = { 200, 200, 200, 201, 301, 302, 400, 404, 500, 503, 100, 101, 204, 304, 299, 999 };
        m.code = codes[r.below(sizeof codes / sizeof *codes)];
        m.reason = r.chance(80) ? gen_value(r, 24) : "";
        m.request_method = r.chance(15) ? "HEAD" : "GET";
        int k = (int)r.below(o.allow_eof ? 3 : 2); m.kind = o.force_kind >= 0 ? (BodyKind)o.force_kind : k == 0 ? B_LENGTH : k == 1 ? B_CHUNKED : B_EOF;
    }
    m.vmin = r.chance(80) ? 1 : 0;
    bool bodiless = !req && (m.request_method == "HEAD" || m.code / 100 == 1 || m.code == 204 || m.code == 304);
    size_t n = r.below(r.chance(98) ? 6 : 120);
    for (size_t i = 0; i < n; ++i) m.headers.push_back(std::make_pair(gen_hname(r), gen_value(r, r.chance(5) ? 4000 : 30)));
    if (m.kind != B_NONE) m.body = gen_body(r, o.max_body);
    std::pair<std::string, std::string> fr;
    if (m.kind == B_LENGTH) {
        fr = std::make_pair(r.chance(80) ? "Content-Length" : "content-LENGTH", std::to_string(m.body.size()));
        if (r.chance(5)) fr.second = std::string(1 + r.below(30), '0') + fr.second;
    }
    if (m.kind == B_CHUNKED) fr = std::make_pair(r.chance(80) ? "Transfer-Encoding" : "transfer-encoding", r.chance(70) ? "chunked" : r.chance(50) ? "Chunked" : "gzip, chunked");
    if (!fr.first.empty()) m.headers.insert(m.headers.begin() + r.below(m.headers.size() + 1), fr);
    if (m.kind == B_CHUNKED && r.chance(o.trailers)) { size_t t = 1 + r.below(3); for (size_t i = 0; i < t; ++i) m.trailers.push_back(std::make_pair("T-" + r.from("abcXYZ09", 1 + r.below(8)), gen_value(r, 20))); }
    if (bodiless) { m.body.clear(); m.trailers.clear(); }
    render(r, m);
    if (bodiless) { m.kind = B_NONE; m.tail.clear(); }
    return m;
}

// what a parse produced
struct Result {
    int rc;               // 1 done, 0 error, 2 unfinished
    int ec; size_t consumed; std::string payload; // payload handler bytes
    size_t total_reported; std::string raw;
    std::string method, resource, query; unsigned vmaj, vmin, code; std::string reason;
    pairs_t headers, queries, cookies; std::string content; size_t content_length; bool valid, chunked; int status; bool eof_ok;
    Result() : rc(2), ec(0), consumed(0), total_reported(0), vmaj(0), vmin(0), code(0), content_length(0), valid(false), chunked(false), status(-1), eof_ok(false) {}
};
inline pairs_t sorted(const pion::ihash_multimap& m) {
    pairs_t p; for (auto& kv : m) p.push_back(std::make_pair(lower(kv.first), kv.second)); std::sort(p.begin(), p.end()); return p;
}
inline pairs_t sorted_lower(pairs_t p) { for (auto& kv : p) kv.first = lower(kv.first); std::sort(p.begin(), p.end()); return p; }

struct Mode { bool payload, headers_only, raw; size_t max_content; Mode() : payload(false), headers_only(false), raw(false), max_content(1 << 20) {} };

// The handler records; it never throws.
struct Sink { std::string got; size_t calls; Sink() : calls(0) {} void operator()(const char *p, std::size_t n) { got.append(p, n); ++calls; } };

struct Driver {
    std::unique_ptr<pion::http::message> msg; pion::http::request *rq; pion::http::response *rs;
    std::unique_ptr<pion::http::parser> p; std::shared_ptr<Sink> sink; Mode mode; bool req;
    boost::system::error_code ec; int rc; size_t consumed, fed;
    Driver(bool req_, const std::string& request_method, const Mode& md) : rq(0), rs(0), mode(md), req(req_), rc(2), consumed(0), fed(0) {
        if (req) msg.reset(rq = new pion::http::request); else msg.reset(rs = new pion::http::response(request_method));
        p.reset(new pion::http::parser(req, md.max_content));
        if (md.headers_only) p->parse_headers_only(true);
        if (md.raw) p->set_save_raw_headers(true);
        sink.reset(new Sink);
        if (md.payload) { std::shared_ptr<Sink> s = sink; pion::http::parser::payload_handler_t h = [s](const char *q, std::size_t n) { (*s)(q, n); }; p->set_payload_handler(h); }
    }
    // feed one fragment from its own heap block; returns bytes left unread in it
    size_t feed(const char *q, size_t n) {
        if (rc != 2 || n == 0) return n;
        char *b = new char[n]; memcpy(b, q, n);
        p->set_read_buffer(b, n);
        boost::tribool t = p->parse(*msg, ec);
        rc = boost::indeterminate(t) ? 2 : t ? 1 : 0;
        const char *a, *e; p->load_read_pos(a, e);
        size_t left = a && a < e ? (size_t)(e - a) : 0;
        fed += n; consumed += n - left;
        p->set_read_buffer(NULL, 0);
        delete[] b;
        return left;
    }
    Result result() {
        Result x; x.rc = rc; x.ec = ec.value(); x.consumed = consumed; x.payload = sink->got; x.total_reported = p->get_total_bytes_read(); x.raw = p->get_raw_headers();
        x.vmaj = msg->get_version_major(); x.vmin = msg->get_version_minor();
        if (rq) { x.method = rq->get_method(); x.resource = rq->get_resource(); x.query = rq->get_query_string(); x.queries = sorted(rq->get_queries()); }
        else { x.code = rs->get_status_code(); x.reason = rs->get_status_message(); }
        x.headers = sorted(msg->get_headers()); x.cookies = sorted(msg->get_cookies());
        x.content_length = msg->get_content_length(); x.valid = msg->is_valid(); x.chunked = msg->is_chunked(); x.status = (int)msg->get_status();
        if (!mode.payload && msg->get_content_buffer_size() >= x.content_length && x.content_length) x.content.assign(msg->get_content(), x.content_length);
        return x;
    }
};
inline std::vector<size_t> splits(Rng& r, size_t n) {
    std::vector<size_t> v;
    switch (r.below(5)) {
        case 0: v.assign(n, 1); break;
        case 1: { size_t a = r.below(n + 1); if (a) v.push_back(a); if (n - a) v.push_back(n - a); break; }
        case 2: { size_t left = n; while (left) { size_t k = 1 + r.below(3); if (k > left) k = left; v.push_back(k); left -= k; } break; }
        default: { size_t left = n; while (left) { size_t k = 1 + r.below(left); if (r.chance(50)) k = 1 + k / 8; if (k > left) k = left; v.push_back(k); left -= k; } }
    }
    return v;
}
inline Result run_whole(const std::string& w, bool req, const std::string& rm, const Mode& md) { Driver d(req, rm, md); d.feed(w.data(), w.size()); return d.result(); }
inline Result run_split(const std::string& w, const std::vector<size_t>& sp, bool req, const std::string& rm, const Mode& md) {
    Driver d(req, rm, md); size_t pos = 0;
    for (size_t n : sp) { d.feed(w.data() + pos, n); pos += n; if (d.rc != 2) break; }
    return d.result();
}
inline std::string mutate(Rng& r, std::string w) {
    size_t n = 1 + r.below(r.chance(70) ? 3 : 12);
    static const std::vector<std::string> dict = { "\r\n", "\n", "\r", "\r\n\r\n", ":", " ", "\t", "?", "&", "=", ";", ",", "HTTP/1.1", "HTTP/", "Content-Length: ", "Transfer-Encoding: chunked\r\n", "0\r\n\r\n",
        "ffffffffffffffff", "18446744073709551615", "-1", "%", "%00", "%zz", std::string(1, '\0'), "\x80", "\xff", "boundary=", "--", "Cookie: a=\"", "99999999999999999999", "Content-Type: multipart/form-data; boundary=x\r\n", "\r\r", "\n\n", "\n\r" };
    for (size_t i = 0; i < n; ++i) {
        size_t p = r.below(w.size() + 1);
        switch (r.below(7)) {
            case 0: if (p < w.size()) w[p] = (char)r.next(); break;
            case 1: if (p < w.size()) w.erase(p, 1 + r.below(4)); break;
            case 2: w.insert(p, r.pick(dict)); break;
            case 3: w.insert(p, r.bytes(1 + r.below(3))); break;
            case 4: if (p < w.size()) w[p] ^= (char)(1 << r.below(8)); break;
            case 5: { size_t q = r.below(w.size() + 1), l = r.below(30); if (q < w.size()) w.insert(p, w.substr(q, l)); break; }
            default: { const std::string& d = r.pick(dict); if (p + d.size() <= w.size()) w.replace(p, d.size(), d); }
        }
    }
    return w;
}
inline std::string diff_pairs(const pairs_t& a, const pairs_t& b) {
    std::string s = "got{"; for (auto& x : a) s += show(x.first, 60) + "=" + show(x.second, 60) + "|"; s += "} want{"; for (auto& x : b) s += show(x.first, 60) + "=" + show(x.second, 60) + "|"; return s + "}";
}
} // namespace hg
