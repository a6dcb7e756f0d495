// Monitors for the HTTP parser: memory safety, split independence, faithfulness, framing, limits, truncation.
#include "httpgen.hpp"
using namespace hg;

static Mode gen_mode(Rng& r) { Mode m; m.payload = r.chance(25); m.headers_only = r.chance(10); m.raw = r.chance(30); static const size_t mx[] = { 1 << 20, 1 << 20, 1 << 16, 100, 10, 1, 0 }; m.max_content = mx[r.below(7)]; return m; }

// Invariants every parse must keep whatever the bytes were
static void sane(Ctx& c, Driver& d, const std::string& in) {
    CHECK(c, d.consumed <= in.size() && d.consumed <= d.fed, "consumed-more-than-supplied", show(in));
    pion::http::message& m = *d.msg;
    if (!d.mode.payload) CHECK(c, d.mode.headers_only || m.get_content_length() <= std::max<size_t>(d.mode.max_content, 0) , "content-over-limit", "len=" + std::to_string(m.get_content_length()) + " max=" + std::to_string(d.mode.max_content) + " in=" + show(in));
    CHECK(c, m.get_content_buffer_size() <= d.mode.max_content, "buffer-over-limit", std::to_string(m.get_content_buffer_size()) + " in=" + show(in));
    CHECK(c, m.get_chunk_cache().size() <= d.mode.max_content, "chunk-cache-over-limit", show(in));
    volatile unsigned sum = 0; const char *q = m.get_content();
    CHECK(c, q != NULL, "null-content", show(in));
    for (size_t i = 0; i <= m.get_content_buffer_size(); ++i) sum += q[i]; // incl. terminator: ASan checks the block is really that large
    CHECK(c, q[m.get_content_buffer_size()] == 0, "content-not-terminated", show(in));
    if (!d.mode.headers_only && d.rc == 1 && !d.mode.payload) CHECK(c, m.get_content_length() <= m.get_content_buffer_size(), "content-length-beyond-buffer", "len=" + std::to_string(m.get_content_length()) + " buf=" + std::to_string(m.get_content_buffer_size()) + " " + show(in));
    for (auto& kv : m.get_headers()) sum += kv.first.size() + kv.second.size();
    if (d.rc == 0) CHECK(c, !!d.ec, "error-without-code", show(in));
    if (d.ec) { std::string t = d.ec.message(); CHECK(c, !t.empty(), "error-without-text", show(in)); }
    (void)sum;
}
static void random_walk(Ctx& c, const std::string& in, bool req) {
    Rng& r = c.rng; Mode md = gen_mode(r);
    static const char *rm[] = { "GET", "HEAD", "" };
    Driver d(req, rm[r.below(3)], md);
    size_t pos = 0; int ops = 0; bool missing = false;
    std::vector<size_t> sp = splits(r, in.size());
    for (size_t k = 0; k < sp.size() && ops < 4000; ++k, ++ops) {
        d.feed(in.data() + pos, sp[k]); pos += sp[k];
        if (d.rc != 2) {
            sane(c, d, in); if (c.failed) return;
            c.count(d.rc == 1 ? "messages_completed" : "messages_refused");
            if (r.chance(40) && pos < in.size()) { d.p->reset(); d.msg->clear(); d.ec.clear(); d.rc = 2; missing = false; c.count("parser_resets"); continue; }
            break;
        }
        if (r.chance(3)) { // lost packet
            size_t n = r.chance(70) ? r.below(64) : (size_t)(r.chance(50) ? 5000 : 100000); 
            boost::tribool t = d.p->parse_missing_data(*d.msg, n, d.ec); d.rc = boost::indeterminate(t) ? 2 : t ? 1 : 0; missing = true; c.count("missing_data_calls");
            if (d.rc != 2) break;
        }
    }
    if (d.rc == 2) { if (r.chance(50)) d.p->check_premature_eof(*d.msg); else d.p->finish(*d.msg); c.count("ended_early"); }
    (void)missing;
    // invariants also at the end
    if (d.fed >= d.consumed) sane(c, d, in);
    c.count("bytes_fed", d.fed);
}
SCENARIO("P01", "mutated", 60000, 1200000) {
    Rng& r = c.rng; bool req = r.chance(60);
    std::string w; size_t k = 1 + r.below(3); for (size_t i = 0; i < k; ++i) w += gen(r, req).wire();
    w = mutate(r, w); if (r.chance(20)) w.resize(r.below(w.size() + 1));
    random_walk(c, w, req); c.distinct(hash_str(w)); if (w.size() < 200) c.sample(show(w));
}
SCENARIO("P01", "garbage", 30000, 400000) {
    Rng& r = c.rng; bool req = r.chance(50); std::string w;
    switch (r.below(3)) { case 0: w = r.bytes(r.below(200)); break; case 1: w = r.from("GET /?&= HTTP/1.0\r\n:;,\t\"'$%+-0aF", r.below(300)); break;
        default: w = (req ? "GET / HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n") + r.bytes(r.below(100)); }
    random_walk(c, w, req); c.distinct(hash_str(w, 2));
}
static std::string hostile_form(Rng& r, const std::string& b) {
    std::string w; size_t n = r.below(12);
    static const std::vector<std::string> t = { "\r\n", "\r", "\n", "Content-Disposition: form-data; name=\"a\"\r\n", "Content-Disposition: form-data; name=\"", "Content-Type: image/png\r\n", "Content-Type: text/plain\r\n", "Content-Type:\r\n", "X:\r\n", "name=\"q\"", "--", ":", " ", "data", "\r\n\r\n", "Content-Disposition: form-data; name=\"zz\"; filename=\"f\"\r\nContent-Type: application/x\r\n\r\n" };
    for (size_t i = 0; i < n; ++i) { w += r.chance(35) ? (r.chance(80) ? "--" + b : "--" + b + "--") : r.pick(t); if (r.chance(10)) w += r.bytes(r.below(6)); }
    return w;
}
// a well-formed form, then damaged in a few places
static std::string damaged_form(Rng& r, const std::string& b) {
    std::string w; size_t n = 1 + r.below(4);
    for (size_t i = 0; i < n; ++i) {
        w += "--" + b + "\r\nContent-Disposition: form-data; name=\"" + r.from("abc", r.below(4)) + "\"";
        if (r.chance(20)) w += "; filename=\"x\"\r\nContent-Type: " + std::string(r.chance(50) ? "text/plain" : "image/png");
        w += "\r\n\r\n" + r.from("xyz\r\n-", r.below(20)) + "\r\n";
    }
    w += "--" + b + "--";
    for (size_t i = r.below(4); i > 0 && !w.empty(); --i) switch (r.below(4)) {
        case 0: w[r.below(w.size())] = (char)r.next(); break;
        case 1: w.erase(r.below(w.size()), 1 + r.below(12)); break;
        case 2: w.insert(r.below(w.size()), r.chance(50) ? "--" + b : r.bytes(r.below(5))); break;
        default: w.resize(r.below(w.size() + 1)); }
    return w;
}
SCENARIO("P01", "hostile_forms", 50000, 800000) {
    Rng& r = c.rng; std::string b = r.chance(80) ? "xYz" : r.chance(50) ? "" : r.from("ab-\r\n", r.below(10)), w = r.chance(50) ? hostile_form(r, b) : damaged_form(r, b);
    // exact-size heap copies: reads before or after the field data are visible
    std::vector<char> buf(w.begin(), w.end()); pion::ihash_multimap d;
    static const std::vector<std::string> ct = { "multipart/form-data; boundary=", "multipart/form-data; boundary", "boundary=", "multipart/form-data;charset=x; boundary=" };
    pion::http::parser::parse_multipart_form_data(d, r.pick(ct) + b, buf.empty() ? NULL : &buf[0], buf.size());
    size_t tot = 0; for (auto& kv : d) tot += kv.first.size() + kv.second.size();
    CHECK(c, tot <= 4 * (w.size() + 100) * (d.size() + 1), "form-fields-larger-than-input", show(w));
    c.count("form_fields_seen", d.size()); c.count("forms_parsed");
    if (r.chance(40)) { // same body through a whole request
        std::string m = "POST /f HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=" + b + "\r\nContent-Length: " + std::to_string(w.size()) + "\r\n\r\n" + w;
        random_walk(c, m, true);
    }
    c.distinct(hash_str(w, 3));
}
SCENARIO("P01", "hostile_pairs", 50000, 800000) {
    Rng& r = c.rng; std::string w = r.chance(50) ? r.from("a=&,;%+ \"'$\r\n\t0F", r.below(60)) : r.bytes(r.below(60));
    std::vector<char> buf(w.begin(), w.end()); const char *p = buf.empty() ? "" : &buf[0]; pion::ihash_multimap d;
    pion::http::parser::parse_url_encoded(d, p, buf.size());
    pion::http::parser::parse_cookie_header(d, p, buf.size(), r.chance(50));
    std::string a, b, e, f; boost::uint16_t port = 0; pion::http::parser::parse_uri(r.from("http://:/?@a1", r.below(30)) + w, a, b, port, e, f);
    std::string ip; pion::http::parser::parse_forwarded_for(r.from("0123456789., x", r.below(60)), ip);
    c.count("uris_parsed"); c.count("pair_parses"); c.distinct(hash_str(w, 4));
}
SCENARIO("P01", "huge_lengths", 4000, 40000) {
    Rng& r = c.rng; static const std::vector<std::string> L = { "18446744073709551615", "18446744073709551614", "18446744073709551616", "9223372036854775807", "9223372036854775808", "4294967296", "4294967295", "2147483648", "-1", "-9223372036854775808", "+5", "0x10", " 7", "7 ", "", "1e3" };
    bool req = r.chance(50); std::string v = r.pick(L);
    std::string w = (req ? "POST / HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n");
    if (r.chance(70)) w += "Content-Length: " + v + "\r\n\r\n" + r.bytes(r.below(200));
    else w += "Transfer-Encoding: chunked\r\n\r\n" + (r.chance(50) ? std::string("ffffffffffffffff") : std::string("7fffffffffffffff")) + "\r\n" + r.bytes(r.below(100));
    random_walk(c, w, req); c.distinct(hash_str(w, 5)); c.count("huge_length_messages");
    // the one length whose buffer size cannot be represented, with no configured limit
    if (r.chance(10)) {
        Mode md; md.max_content = (size_t)-1; Driver d(req, "GET", md);
        std::string x = std::string(req ? "POST / HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n") + "Content-Length: 18446744073709551615\r\n\r\nabc";
        try { d.feed(x.data(), x.size()); } catch (std::exception&) { c.count("allocation_refused"); }
    }
}

// ---------------------------------------------------------------- P02 split independence
static std::string describe(const Result& a) {
    std::ostringstream o; o << "rc=" << a.rc << " ec=" << a.ec << " consumed=" << a.consumed << " valid=" << a.valid << " status=" << a.status << " content=" << a.content.size() << " payload=" << a.payload.size() << " headers=" << a.headers.size() << " method=" << show(a.method, 40) << " resource=" << show(a.resource, 60) << " code=" << a.code; return o.str();
}
static const char *compare(const Result& a, const Result& b, bool err) {
    if (a.rc != b.rc) return "outcome"; if (a.ec != b.ec) return "error-code"; if (a.consumed != b.consumed) return "bytes-consumed";
    if (a.payload != b.payload) return "payload"; if (a.headers != b.headers) return "headers";
    if (a.vmaj != b.vmaj || a.vmin != b.vmin) return "version";
    if (a.method != b.method || a.resource != b.resource || a.query != b.query) return "request-line";
    if (a.code != b.code || a.reason != b.reason) return "status-line";
    if (a.queries != b.queries) return "queries"; if (a.cookies != b.cookies) return "cookies";
    if (a.raw != b.raw) return "raw-headers";
    if (a.chunked != b.chunked) return "chunked-flag"; if (a.status != b.status) return "status"; if (a.valid != b.valid) return "valid";
    if (a.rc == 1 && (a.content != b.content || a.content_length != b.content_length)) return "content";
    if (a.rc == 1 && a.total_reported != b.total_reported) return "total-bytes";
    return 0;
}
static void split_case(Ctx& c, const std::string& w, bool req, const std::string& rm, const Mode& md) {
    Rng& r = c.rng; if (w.empty()) return;
    Result a = run_whole(w, req, rm, md);
    int reps = 3;
    for (int i = 0; i < reps; ++i) {
        std::vector<size_t> sp = splits(r, w.size()); Result b = run_split(w, sp, req, rm, md);
        const char *d = compare(a, b, a.rc == 0);
        CHECK(c, !d, std::string("split-changes-") + (d ? d : ""), "whole{" + describe(a) + "} split(" + std::to_string(sp.size()) + " parts){" + describe(b) + "} in=" + show(w, 600));
        c.count("split_runs"); c.count("fragments_fed", sp.size());
    }
    c.count(a.rc == 1 ? "complete" : a.rc == 0 ? "refused" : "unfinished"); c.distinct(hash_str(w, md.payload + 2 * md.headers_only));
}
SCENARIO("P02", "valid_streams", 24000, 400000) {
    Rng& r = c.rng; bool req = r.chance(60); Opt o; Msg m = gen(r, req, o); std::string w = m.wire(); if (r.chance(50)) w += gen(r, req).wire();
    split_case(c, w, req, m.request_method, gen_mode(r)); if (w.size() < 200) c.sample(show(w));
}
SCENARIO("P02", "every_split_point", 1500, 20000) {
    Rng& r = c.rng; bool req = r.chance(60); Opt o; o.max_body = 60; Msg m = gen(r, req, o); std::string w = m.wire(); if (w.size() > 900) return; Mode md = gen_mode(r);
    Result a = run_whole(w, req, m.request_method, md);
    for (size_t k = 1; k < w.size(); ++k) {
        std::vector<size_t> sp; sp.push_back(k); sp.push_back(w.size() - k);
        Result b = run_split(w, sp, req, m.request_method, md); const char *d = compare(a, b, a.rc == 0);
        CHECK(c, !d, std::string("split-changes-") + (d ? d : ""), "split at " + std::to_string(k) + " whole{" + describe(a) + "} split{" + describe(b) + "} in=" + show(w, 600));
    }
    c.count("split_points", w.size()); c.distinct(hash_str(w, 99));
}
SCENARIO("P02", "malformed_streams", 30000, 500000) {
    Rng& r = c.rng; bool req = r.chance(60); Msg m = gen(r, req); std::string w = mutate(r, m.wire());
    if (r.chance(30)) { std::string x; for (char ch : w) if (ch != '\r') x += ch; w = x; } // bare LF line ends
    split_case(c, w, req, m.request_method, gen_mode(r));
}

// ---------------------------------------------------------------- P03 faithful parse
static void faithful(Ctx& c, const Msg& m, const Result& x, const Mode& md, const std::string& w) {
    std::string at = " in=" + show(w, 500);
    CHECK(c, x.rc == 1 || (m.kind == B_EOF && x.rc == 2), "wellformed-not-accepted", "rc=" + std::to_string(x.rc) + " ec=" + std::to_string(x.ec) + at);
    CHECK(c, (int)x.vmaj == m.vmaj && (int)x.vmin == m.vmin, "version", std::to_string(x.vmaj) + "." + std::to_string(x.vmin) + at);
    if (m.req) {
        CHECK(c, x.method == m.method, "method", show(x.method) + at); CHECK(c, x.resource == m.resource, "resource", show(x.resource) + at);
        CHECK(c, x.query == (m.has_query ? m.query : ""), "query-string", show(x.query) + at);
    } else { CHECK(c, x.code == m.code, "status-code", std::to_string(x.code) + at); CHECK(c, x.reason == m.reason, "reason", show(x.reason) + at); }
    pairs_t want = m.headers; if (!md.headers_only) want.insert(want.end(), m.trailers.begin(), m.trailers.end());
    want = sorted_lower(want);
    CHECK(c, x.headers == want, "headers", diff_pairs(x.headers, want) + at);
    if (md.raw && m.trailers.empty()) CHECK(c, x.raw == m.head, "raw-headers", show(x.raw) + at);
    c.count("headers_compared", want.size());
}
SCENARIO("P03", "fields", 40000, 600000) {
    Rng& r = c.rng; bool req = r.chance(60); Msg m = gen(r, req); std::string w = m.wire(); Mode md; md.raw = r.chance(50);
    Driver d(req, m.request_method, md); size_t pos = 0; for (size_t n : splits(r, w.size())) { d.feed(w.data() + pos, n); pos += n; if (d.rc != 2) break; }
    if (m.kind == B_EOF && d.rc == 2) { bool bad = d.p->check_premature_eof(*d.msg); CHECK(c, !bad, "eof-body-not-accepted", show(w)); }
    Result x = d.result(); faithful(c, m, x, md, w); if (c.failed) return;
    CHECK(c, x.content == m.body && x.content_length == m.body.size(), "content", "got=" + show(x.content) + " want=" + show(m.body) + " in=" + show(w, 500));
    CHECK(c, x.valid && x.status == (int)pion::http::message::STATUS_OK, "not-marked-valid", "valid=" + std::to_string(x.valid) + " status=" + std::to_string(x.status) + show(w));
    c.count(req ? "requests" : "responses"); static const char *kn[] = { "body_none", "body_length", "body_chunked", "body_until_close" }; c.count(kn[m.kind]); if (!m.trailers.empty()) c.count("with_trailers");
    c.distinct(hash_str(w)); if (w.size() < 200) c.sample(show(w));
}
SCENARIO("P03", "spacing_variants", 8000, 80000) {
    // the same request written with the lenient spellings the parser documents: bare LF, leading blank lines, no blank after ':', blanks after the version
    Rng& r = c.rng; Opt o; o.force_kind = B_LENGTH; o.max_body = 40; Msg m = gen(r, true, o); for (auto& kv : m.headers) if (kv.second.empty() || kv.second[0] == ' ' || kv.second[0] == '\t') kv.second = "v" + kv.second;
    std::string nl = r.chance(50) ? "\n" : "\r\n", lead; if (r.chance(40)) lead = r.chance(50) ? "\r\n" : "\r\n\r\n";
    std::string colon = r.chance(50) ? ":" : ": ", w = lead + m.method + " " + m.resource + (m.has_query ? "?" + m.query : "") + " HTTP/" + std::to_string(m.vmaj) + "." + std::to_string(m.vmin) + (r.chance(30) ? " " : "") + nl;
    for (auto& kv : m.headers) { if (kv.first == "Content-Length" || lower(kv.first) == "content-length") kv.second = std::to_string(m.body.size()); w += kv.first + colon + kv.second + nl; }
    w += nl + m.body; m.kind = B_LENGTH;
    Mode md; Result x = run_split(w, splits(r, w.size()), true, "", md); faithful(c, m, x, md, w); if (c.failed) return;
    CHECK(c, x.content == m.body, "content", show(x.content) + " in=" + show(w, 500)); c.count("spacing_variants"); c.distinct(hash_str(w, 31));
}
SCENARIO("P03", "simple_requests", 3000, 30000) {
    // HTTP/0.9 requests carry no version: "GET /x\r\n" and "GET /x \r\n"
    Rng& r = c.rng; Msg m = gen(r, true); bool blank = r.chance(50); std::string w = "GET " + m.resource + (m.has_query ? "?" + m.query : "") + (blank ? " " : "") + "\r\n"; size_t hl = w.size(); std::string rest = r.chance(50) ? "" : r.bytes(5); w += rest;
    Mode md; Result x = run_split(w, splits(r, w.size()), true, "", md);
    CHECK(c, x.rc == 1 && x.consumed == hl && x.vmaj == 0 && x.vmin == 0 && x.method == "GET" && x.resource == m.resource && x.query == (m.has_query ? m.query : ""), "simple-request", describe(x) + " in=" + show(w));
    c.count("simple_requests"); c.distinct(hash_str(w, 32));
}
SCENARIO("P03", "reused_parser", 8000, 80000) {
    // one parser object, reset between messages, behaves like a fresh one
    Rng& r = c.rng; bool req = r.chance(60); Mode md; md.raw = true; Driver d(req, "GET", md);
    for (int k = 0; k < 4; ++k) {
        Opt o; o.allow_eof = false; Msg m = gen(r, req, o); if (!req) m.request_method = "GET"; if (!req && m.kind == B_NONE && !(m.code / 100 == 1 || m.code == 204 || m.code == 304)) { m = gen(r, req, o); if (m.kind == B_NONE) continue; }
        std::string w = m.wire(); size_t c0 = d.consumed, pos = 0; for (size_t n : splits(r, w.size())) { d.feed(w.data() + pos, n); pos += n; if (d.rc != 2) break; }
        Result x = d.result(); faithful(c, m, x, md, w); if (c.failed) return;
        CHECK(c, x.content == m.body && d.consumed - c0 == w.size() && x.total_reported == w.size(), "reused-parser-content", describe(x) + show(w, 400));
        c.count("messages_on_reused_parser"); c.distinct(hash_str(w, 33));
        d.p->reset(); d.msg->clear(); if (d.rs) d.rs->update_request_info(pion::http::request()); d.ec.clear(); d.rc = 2;
    }
}

SCENARIO("P03", "message_cookies", 8000, 80000) {
    // every cookie of every Cookie (Set-Cookie) header of the message is reported, attributes are not
    Rng& r = c.rng; bool req = r.chance(50); Opt o; Msg m = gen(r, req, o); static const std::vector<std::string> attrs = { "Path=/x", "path=/", "Domain=.example.com", "Max-Age=17", "Comment=hi", "domain=a" };
    pairs_t want; size_t nh = 1 + r.below(4);
    for (size_t i = 0; i < nh; ++i) {
        std::string v; size_t n = r.chance(60) ? 1 : 1 + r.below(4);
        for (size_t j = 0; j < n; ++j) {
            std::string k = "ck" + r.from("abcXYZ019._-", 1 + r.below(6)), val = r.from("abcdefXYZ0189/+_.:%-", r.below(12)), txt = r.chance(20) && val.size() ? "\"" + val + "\"" : val;
            if (j) v += r.chance(70) ? "; " : ";"; v += k + "=" + txt; want.push_back(std::make_pair(k, val));
            if (!req && r.chance(40)) v += "; " + r.pick(attrs); if (req && r.chance(15)) v += "; $Path=/x";
        }
        if (r.chance(15)) v += ";";
        m.headers.insert(m.headers.begin() + (long)r.below(m.headers.size() + 1), std::make_pair(req ? (r.chance(70) ? "Cookie" : "cookie") : (r.chance(70) ? "Set-Cookie" : "SET-COOKIE"), v));
    }
    render(r, m, false); std::string w = m.wire(); Mode md; Driver d(req, m.request_method, md); size_t pos = 0; for (size_t n : splits(r, w.size())) { d.feed(w.data() + pos, n); pos += n; if (d.rc != 2) break; }
    if (m.kind == B_EOF && d.rc == 2) d.p->check_premature_eof(*d.msg);
    pairs_t got(d.msg->get_cookies().begin(), d.msg->get_cookies().end()); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    CHECK(c, d.rc == 1 || m.kind == B_EOF, "message-refused", show(w, 500));
    CHECK(c, got == want, "message-cookies", diff_pairs(got, want) + " in=" + show(w, 500));
    c.count("messages_with_cookies"); if (nh > 1) c.count("several_cookie_headers"); c.distinct(hash_str(w, 34));
}

// ---------------------------------------------------------------- P04 framing
SCENARIO("P04", "pipelines", 16000, 250000) {
    Rng& r = c.rng; bool req = r.chance(50); size_t n = 1 + r.below(5); std::vector<Msg> ms; std::string w;
    for (size_t i = 0; i < n; ++i) { Opt o; o.allow_eof = false; o.trailers = 40; Msg m = gen(r, req, o); ms.push_back(m); w += m.wire(); }
    if (r.chance(50)) w += r.bytes(r.below(10)); // bytes of something else behind the last message
    Mode md; md.payload = r.chance(35); if (r.chance(40)) { static const size_t mx[] = { 0, 1, 7, 50, 1000 }; md.max_content = mx[r.below(5)]; }
    // feed the stream in arbitrary fragments; what a message leaves unread goes to the next parser
    std::vector<size_t> sp = splits(r, w.size()); size_t off = 0, start = 0, k = 0, fi = 0; std::string pend; 
    std::unique_ptr<Driver> d(new Driver(req, ms[0].request_method, md));
    while (k < n) {
        if (pend.empty()) { if (fi == sp.size()) break; pend = w.substr(off, sp[fi]); off += sp[fi]; ++fi; }
        size_t left = d->feed(pend.data(), pend.size()); pend = pend.substr(pend.size() - left);
        if (d->rc == 2) { CHECK(c, left == 0, "unfinished-but-bytes-left", show(w, 500)); continue; }
        const Msg& m = ms[k]; Result x = d->result(); std::string at = " message " + std::to_string(k) + " of " + std::to_string(n) + " payload_handler=" + std::to_string(md.payload) + " max=" + std::to_string(md.max_content) + " in=" + show(m.wire(), 500);
        CHECK(c, d->rc == 1, "pipelined-message-refused", "ec=" + std::to_string(x.ec) + at);
        CHECK(c, x.consumed == m.wire().size(), "framing-consumed", "consumed=" + std::to_string(x.consumed) + " length=" + std::to_string(m.wire().size()) + at);
        CHECK(c, x.total_reported == x.consumed, "framing-reported", std::to_string(x.total_reported) + " vs " + std::to_string(x.consumed) + at);
        if (md.payload) CHECK(c, x.payload == m.body, "framing-payload", show(x.payload) + at);
        else CHECK(c, x.content == m.body.substr(0, md.max_content), "framing-content", "got=" + show(x.content) + at);
        pairs_t want = m.headers; want.insert(want.end(), m.trailers.begin(), m.trailers.end());
        CHECK(c, x.headers == sorted_lower(want), "framing-headers", diff_pairs(x.headers, sorted_lower(want)) + at);
        c.count("pipelined_messages"); if (m.body.size() > md.max_content) c.count("over_limit_bodies"); if (!m.trailers.empty()) c.count("trailers_seen"); if (md.payload) c.count("payload_handler_messages");
        if (m.kind == B_NONE && !req) c.count("bodiless_responses");
        start += x.consumed; ++k; if (k < n) d.reset(new Driver(req, ms[k].request_method, md));
    }
    CHECK(c, k == n, "framing-message-swallowed", "only " + std::to_string(k) + " of " + std::to_string(n) + " messages completed payload_handler=" + std::to_string(md.payload) + " max=" + std::to_string(md.max_content) + " in=" + show(w, 700));
    c.distinct(hash_str(w, md.payload)); if (w.size() < 250) c.sample(show(w));
}
SCENARIO("P04", "headers_only", 8000, 100000) {
    Rng& r = c.rng; bool req = r.chance(50); Msg m = gen(r, req); std::string w = m.wire(); Mode md; md.headers_only = true;
    Result x = run_split(w, splits(r, w.size()), req, m.request_method, md);
    CHECK(c, x.rc == 1 && x.consumed == m.head.size(), "headers-only-consumed", describe(x) + " head=" + std::to_string(m.head.size()) + " in=" + show(w, 500));
    c.count("headers_only"); c.distinct(hash_str(w, 41));
}
SCENARIO("P04", "bad_framing_refused", 12000, 150000) {
    // framing information that cannot be understood is an error, never a guess
    Rng& r = c.rng; bool req = r.chance(50); std::string w = req ? "POST /x HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n"; Mode md; md.payload = r.chance(30); std::string why;
    if (r.chance(50)) {
        static const std::vector<std::string> bad = { "-1", "-0", "+5", "0x10", "5 5", "5,5", "", "abc", "1.0", "1e2", "18446744073709551616", "99999999999999999999999", "5a", "--5", "\xd9\xa5" };
        why = r.pick(bad); w += "Content-Length: " + why + "\r\n\r\nhello";
    } else {
        static const std::vector<std::string> bad = { "g\r\nx\r\n0\r\n\r\n", "5\nhello\r\n0\r\n\r\n", "5\r\nhelloX\r\n0\r\n\r\n", "5\r\nhello\n0\r\n\r\n", "-5\r\nhello\r\n0\r\n\r\n", "0x5\r\nhello\r\n0\r\n\r\n", "5\rhello\r\n0\r\n\r\n", "5\r\nhello\rX0\r\n\r\n", "5 5\r\nhello\r\n0\r\n\r\n", "5\r\nhello\r\n0\r\n\rX", "5\r\nhello\r\n0\rX\r\n", "\"5\"\r\nhello\r\n0\r\n\r\n",
            "10000000000000005\r\nhello\r\n0\r\n\r\n", "8000000000000000\r\nhello\r\n0\r\n\r\n", "ffffffffffffffffffffff\r\nhello\r\n0\r\n\r\n", "ffffffffffffffff\r\nhello\r\n0\r\n\r\n", "10000000000000000\r\n\r\n", "100000000000000000000000000000000\r\n\r\n" };
        why = r.pick(bad); w += "Transfer-Encoding: chunked\r\n\r\n" + why;
    }
    Result x = run_split(w, splits(r, w.size()), req, "GET", md);
    CHECK(c, x.rc == 0 && x.ec != 0, "bad-framing-accepted", describe(x) + " why=" + show(why) + " in=" + show(w));
    CHECK(c, x.ec == (w.find("Content-Length") != std::string::npos ? (int)pion::http::parser::ERROR_INVALID_CONTENT_LENGTH : (int)pion::http::parser::ERROR_CHUNK_CHAR), "bad-framing-wrong-error", describe(x) + " in=" + show(w));
    c.count("bad_framing_refused"); c.distinct(hash_str(w, 42 + md.payload));
}

// ---------------------------------------------------------------- P05 limits
static std::string fill(Rng& r, size_t n) { return std::string(n, (char)('a' + r.below(26))); }
SCENARIO("P05", "field_limits", 330, 4000) {
    Rng& r = c.rng; int which = (int)(c.index % 11); static const long deltas[] = { -1, 0, 1, 2, 1000 }; long dl = deltas[(c.index / 11) % 5];
    size_t lim; std::string w; bool req = true; size_t n;
    switch (which) {
        case 0: lim = 1024; n = lim + dl; w = fill(r, n) + " / HTTP/1.1\r\n\r\n"; break;
        case 1: lim = 256 * 1024; n = lim + dl; w = "GET /" + fill(r, n - 1) + " HTTP/1.1\r\n\r\n"; break;
        case 2: lim = 1024 * 1024; n = lim + dl; w = "GET /?" + fill(r, n) + " HTTP/1.1\r\n\r\n"; break;
        case 3: lim = 1024; n = lim + dl; w = "GET / HTTP/1.1\r\n" + fill(r, n) + ": v\r\n\r\n"; break;
        case 4: lim = 1024 * 1024; n = lim + dl; w = "GET / HTTP/1.1\r\nA: " + fill(r, n) + "\r\n\r\n"; break;
        case 5: req = false; lim = 1024; n = lim + dl; w = "HTTP/1.1 204 " + fill(r, n) + "\r\n\r\n"; break;
        case 6: req = false; lim = 1024; n = lim + dl; w = "HTTP/1.1 204 OK\r\n" + fill(r, n) + ": v\r\n\r\n"; break;
        case 7: req = false; lim = 1024 * 1024; n = lim + dl; w = "HTTP/1.1 204 OK\r\nA:" + fill(r, n) + "\r\n\r\n"; break;
        case 8: lim = 1024; n = lim + dl; w = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx\r\n0\r\n" + fill(r, n) + ": v\r\n\r\n"; break;
        case 9: lim = 1024 * 1024; n = lim + dl; w = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx\r\n0\r\nT: " + fill(r, n) + "\r\n\r\n"; break;
        default: lim = 256 * 1024; n = lim + dl; w = "GET /" + fill(r, n - 1) + "?q HTTP/1.1\r\n\r\n"; break;
    }
    Mode md; std::vector<size_t> sp; if (w.size() > 5000) { size_t left = w.size(); while (left) { size_t k = std::min<size_t>(left, 1 + r.below(60000)); sp.push_back(k); left -= k; } } else sp = splits(r, w.size());
    Result x = run_split(w, sp, req, "GET", md); std::string at = " field " + std::to_string(which) + " size " + std::to_string(n) + " limit " + std::to_string(lim) + " " + describe(x);
    if (n <= lim) CHECK(c, x.rc == 1, "within-limit-refused", at); else CHECK(c, x.rc == 0 && x.ec, "over-limit-accepted", at);
    size_t biggest = std::max(std::max(x.method.size(), x.resource.size()), std::max(x.query.size(), x.reason.size())); for (auto& kv : x.headers) biggest = std::max(biggest, std::max(kv.first.size(), kv.second.size()));
    CHECK(c, biggest <= lim, "stored-more-than-limit", at);
    c.count(n <= lim ? "at_or_below_limit" : "above_limit"); c.distinct((uint64_t)which * 100000000 + n); if (c.index % 11 == 3) c.sample(at);
}
SCENARIO("P05", "content_limits", 16000, 250000) {
    Rng& r = c.rng; Opt o; o.max_body = 3000; bool req = r.chance(50); Msg m = gen(r, req, o); std::string w = m.wire(); Mode md; md.max_content = r.chance(50) ? r.below(60) : m.body.size() + r.range(-2, 2); if ((long long)md.max_content < 0) md.max_content = 0;
    Driver d(req, m.request_method, md); size_t pos = 0; size_t worst = 0;
    for (size_t n : splits(r, w.size())) { d.feed(w.data() + pos, n); pos += n; worst = std::max(worst, std::max(d.msg->get_content_buffer_size(), d.msg->get_chunk_cache().size())); if (d.rc != 2) break; }
    if (m.kind == B_EOF && d.rc == 2) d.p->check_premature_eof(*d.msg);
    worst = std::max(worst, d.msg->get_content_buffer_size());
    Result x = d.result(); std::string at = " max=" + std::to_string(md.max_content) + " body=" + std::to_string(m.body.size()) + " in=" + show(w, 400);
    CHECK(c, worst <= md.max_content, "stored-more-than-limit", std::to_string(worst) + at);
    CHECK(c, d.rc == 1 || m.kind == B_EOF, "limited-body-not-finished", describe(x) + at);
    CHECK(c, x.content == m.body.substr(0, md.max_content) && x.content_length == x.content.size(), "limited-content-wrong", "got=" + show(x.content) + at);
    CHECK(c, x.consumed == w.size(), "limited-framing", describe(x) + at);
    c.count(m.body.size() > md.max_content ? "bodies_cut" : "bodies_kept"); c.distinct(hash_str(w, md.max_content));
}
SCENARIO("P05", "default_content_limit", 10, 100) {
    // a parser that is not told otherwise stores one megabyte (the documented default)
    Rng& r = c.rng; const size_t lim = 1024 * 1024; static const long deltas[] = { -1, 0, 1, 1000, 1000000 }; size_t n = lim + deltas[c.index % 5]; bool chunked = (c.index / 5) % 2; std::string body = r.bytes(n), w = "POST / HTTP/1.1\r\n"; char b[40];
    if (!chunked) { snprintf(b, sizeof b, "Content-Length: %zu\r\n\r\n", n); w += b; w += body; } else { size_t k = 1 + r.below(n - 1); snprintf(b, sizeof b, "%zx\r\n", k); w += "Transfer-Encoding: chunked\r\n\r\n"; w += b; w += body.substr(0, k); snprintf(b, sizeof b, "\r\n%zx\r\n", n - k); w += b; w += body.substr(k) + "\r\n0\r\n\r\n"; }
    pion::http::parser p(true); pion::http::request q; boost::system::error_code ec; size_t pos = 0; boost::tribool t = boost::indeterminate; while (pos < w.size() && boost::indeterminate(t)) { size_t k = std::min<size_t>(w.size() - pos, 1 + r.below(200000)); p.set_read_buffer(w.data() + pos, k); t = p.parse(q, ec); pos += k; }
    CHECK(c, t == true && pos == w.size() && q.get_content_length() == std::min(n, lim) && std::string(q.get_content(), q.get_content_length()) == body.substr(0, lim), "default-content-limit", std::to_string(n) + " bytes sent, " + std::to_string(q.get_content_length()) + " stored, chunked=" + std::to_string(chunked));
    c.count("default_limits_checked"); c.distinct(n * 2 + chunked);
}
SCENARIO("P05", "pair_limits", 60, 600) {
    // names / values of query variables and cookies
    Rng& r = c.rng; int which = (int)(c.index % 4); static const long deltas[] = { -1, 0, 1, 500 }; long dl = deltas[(c.index / 4) % 4]; size_t lim = which % 2 ? 1024 * 1024 : 1024, n = lim + dl;
    std::string s = which % 2 ? "k=" + fill(r, n) : fill(r, n) + "=v"; pion::ihash_multimap d; bool ok = which < 2 ? pion::http::parser::parse_url_encoded(d, s) : pion::http::parser::parse_cookie_header(d, s, false);
    std::string at = " which=" + std::to_string(which) + " size=" + std::to_string(n);
    if (n <= lim) CHECK(c, ok && d.size() == 1, "pair-within-limit-refused", at); else CHECK(c, !ok && d.empty(), "pair-over-limit-accepted", at);
    c.count("pair_limits_checked"); c.distinct((uint64_t)which * 1000000000 + n);
}

// ---------------------------------------------------------------- P06 truncation and lost data
SCENARIO("P06", "truncated", 20000, 300000) {
    Rng& r = c.rng; bool req = r.chance(50); Msg m = gen(r, req); std::string w = m.wire(); Mode md; md.payload = r.chance(25);
    size_t cut = r.chance(70) ? r.below(w.size()) : m.head.size() + r.below(m.tail.size() + 1); if (cut >= w.size() && m.kind != B_EOF) cut = w.size() - 1; 
    std::string part = w.substr(0, cut); Driver d(req, m.request_method, md); size_t pos = 0; if (cut) for (size_t n : splits(r, cut)) { d.feed(part.data() + pos, n); pos += n; if (d.rc != 2) break; }
    std::string at = " cut=" + std::to_string(cut) + "/" + std::to_string(w.size()) + " head=" + std::to_string(m.head.size()) + " payload=" + std::to_string(md.payload) + " in=" + show(part, 400);
    if (m.kind == B_EOF && cut >= m.head.size()) {
        CHECK(c, d.rc == 2, "until-close-ended-early", at);
        bool bad = d.p->check_premature_eof(*d.msg); Result x = d.result(); std::string want = part.substr(m.head.size());
        CHECK(c, !bad && x.valid && x.status == (int)pion::http::message::STATUS_OK, "until-close-not-complete", describe(x) + at);
        CHECK(c, (md.payload ? x.payload : x.content) == want, "until-close-content", describe(x) + at); c.count("until_close_complete"); 
    } else {
        CHECK(c, d.rc == 2, "truncated-not-pending", "rc=" + std::to_string(d.rc) + at);
        CHECK(c, d.p->check_premature_eof(*d.msg), "truncation-not-reported", at);
        bool between_chunks = false;
        if (m.kind == B_CHUNKED && cut >= m.head.size()) { // exact chunk boundary: the library documents no verdict
            size_t p = 0; const std::string& t = m.tail; size_t q = cut - m.head.size(); if (q == 0) between_chunks = true; 
            while (p < t.size()) { size_t e = t.find("\r\n", p); if (e == std::string::npos) break; size_t sz = strtoul(t.c_str() + p, 0, 16); if (!sz) break; p = e + 2 + sz + 2; if (q == p) between_chunks = true; }
        }
        d.p->finish(*d.msg); Result x = d.result();
        if (!between_chunks) {
            CHECK(c, !x.valid, "truncated-marked-valid", describe(x) + at);
            if (d.consumed) CHECK(c, x.status == (int)pion::http::message::STATUS_TRUNCATED, "truncated-status", describe(x) + at);
            c.count("truncations_detected");
        } else c.count("chunk_boundary_cuts");
        // what was received is a prefix of what was sent, never invented bytes
        const std::string& got = md.payload ? x.payload : x.content; 
        CHECK(c, got == m.body.substr(0, got.size()), "truncated-content-not-prefix", "got=" + show(got) + " want=" + show(m.body) + at);
        if (m.kind == B_LENGTH && cut >= m.head.size()) CHECK(c, got.size() == cut - m.head.size(), "truncated-content-lost", "got=" + std::to_string(got.size()) + at);
        if (m.kind == B_CHUNKED && cut >= m.head.size()) { // every data byte that arrived is there
            size_t p = 0, n = 0, q = cut - m.head.size(); const std::string& t = m.tail; bool last = false;
            while (p < t.size()) { size_t e = t.find("\r\n", p); size_t sz = strtoul(t.c_str() + p, 0, 16); if (!sz) { last = q >= e + 2; break; } if (q > e + 2) n += std::min(sz, q - e - 2); p = e + 2 + sz + 2; if (p > q) break; }
            CHECK(c, got.size() == n, "truncated-chunks-lost", "got=" + std::to_string(got.size()) + " want=" + std::to_string(n) + at); 
            if (last) c.count("cut_in_trailers");
        }
        if (cut >= m.head.size()) { // what the headers said is there once
            Mode hm; hm.headers_only = true; Result h = run_whole(m.head, req, m.request_method, hm); bool form = false; for (auto& kv : x.headers) if (kv.second.find("form") != std::string::npos) form = true;
            CHECK(c, x.cookies == h.cookies, "truncated-cookies", "got=" + std::to_string(x.cookies.size()) + " want=" + std::to_string(h.cookies.size()) + at);
            if (!form) CHECK(c, x.queries == h.queries, "truncated-queries", "got=" + std::to_string(x.queries.size()) + " want=" + std::to_string(h.queries.size()) + at);
            CHECK(c, x.method == h.method && x.resource == h.resource && x.code == h.code, "truncated-start-line", describe(x) + at);
            c.count("truncated_with_pairs", (x.cookies.size() + x.queries.size()) ? 1 : 0);
        }
        c.count(cut < m.head.size() ? "cut_in_headers" : "cut_in_body");
    }
    c.distinct(hash_str(part, m.kind)); if (part.size() < 160) c.sample(at);
}
SCENARIO("P06", "refused_status", 8000, 100000) {
    Rng& r = c.rng; bool req = r.chance(50); Msg m = gen(r, req); std::string w = mutate(r, m.wire()); if (w.empty()) return; Result x = run_split(w, splits(r, w.size()), req, m.request_method, Mode());
    if (x.rc == 0) { CHECK(c, !x.valid && x.status == (int)pion::http::message::STATUS_TRUNCATED && x.ec, "refused-marked-good", describe(x) + show(w)); c.count("refused"); }
    if (x.rc == 1) { CHECK(c, x.valid && x.status == (int)pion::http::message::STATUS_OK && !x.ec, "accepted-marked-bad", describe(x) + show(w)); c.count("accepted"); }
    c.distinct(hash_str(w, 61));
}
SCENARIO("P06", "missing_data", 16000, 250000) {
    Rng& r = c.rng; bool req = r.chance(50); Opt o; o.max_body = 400; o.force_kind = (int)(r.chance(40) ? B_LENGTH : r.chance(60) ? B_CHUNKED : req ? B_LENGTH : B_EOF); o.trailers = 0; Msg m = gen(r, req, o); if (m.kind == B_NONE || m.body.size() < 2) return;
    Mode md; md.payload = r.chance(30); std::string w = m.wire(); 
    if (r.chance(15)) { // loss inside the headers cannot be repaired
        size_t at0 = r.below(m.head.size()); Driver d(req, m.request_method, md); d.feed(w.data(), at0); if (d.rc != 2) return;
        boost::tribool t = d.p->parse_missing_data(*d.msg, 1 + r.below(10), d.ec); CHECK(c, !boost::indeterminate(t) && !t && d.ec, "header-loss-accepted", show(w)); c.count("header_losses"); return;
    }
    // lose a stretch of body bytes; for chunked bodies inside one chunk's data, so the loss is recoverable
    size_t from, len; std::vector<bool> lost(m.body.size(), false); size_t bpos;
    if (m.kind == B_CHUNKED) {
        size_t k = r.below(m.chunk_sizes.size()); bpos = 0; for (size_t i = 0; i < k; ++i) bpos += m.chunk_sizes[i]; 
        // wire offset of chunk k's data
        size_t p = 0; for (size_t i = 0; ; ++i) { size_t e = m.tail.find("\r\n", p); if (i == k) { p = e + 2; break; } p = e + 2 + m.chunk_sizes[i] + 2; }
        size_t a = r.below(m.chunk_sizes[k]); len = 1 + r.below(m.chunk_sizes[k] - a); bpos += a; from = m.head.size() + p + a;
    } else { size_t a = r.below(m.body.size()); len = 1 + r.below(m.body.size() - a); bpos = a; from = m.head.size() + a; }
    std::string want = m.body; for (size_t i = 0; i < len; ++i) want[bpos + i] = 'X';
    Driver d(req, m.request_method, md); size_t pos = 0; for (size_t n : splits(r, from)) { d.feed(w.data() + pos, n); pos += n; }
    std::string at = " lost " + std::to_string(len) + " at body offset " + std::to_string(bpos) + " payload=" + std::to_string(md.payload) + " in=" + show(w, 400);
    CHECK(c, d.rc == 2, "missing-data-setup", at);
    bool too_much = r.chance(20) && m.kind != B_EOF; 
    if (too_much) {
        size_t rem = m.kind == B_LENGTH ? m.body.size() - bpos : 0; if (m.kind == B_CHUNKED) { size_t s = 0; for (size_t z : m.chunk_sizes) { s += z; if (bpos < s) { rem = s - bpos; break; } } }
        boost::tribool t = d.p->parse_missing_data(*d.msg, rem + 1 + r.below(20), d.ec);
        CHECK(c, !boost::indeterminate(t) && !t && d.ec && !d.msg->is_valid(), "oversized-loss-accepted", at); c.count("oversized_losses_refused"); return;
    }
    boost::tribool t = d.p->parse_missing_data(*d.msg, len, d.ec); d.rc = boost::indeterminate(t) ? 2 : t ? 1 : 0;
    CHECK(c, d.rc != 0, "loss-not-recovered", at);
    std::string rest = w.substr(from + len); bool more = !rest.empty(); if (d.rc == 2) { pos = 0; if (more) for (size_t n : splits(r, rest.size())) { d.feed(rest.data() + pos, n); pos += n; if (d.rc != 2) break; } }
    if (m.kind == B_EOF) d.p->check_premature_eof(*d.msg);
    Result x = d.result(); CHECK(c, d.rc == 1 || m.kind == B_EOF, "lossy-message-not-finished", describe(x) + at);
    CHECK(c, (md.payload ? x.payload : x.content) == want, "lossy-content", "got=" + show(md.payload ? x.payload : x.content) + " want=" + show(want) + at);
    CHECK(c, x.status == (int)(more ? pion::http::message::STATUS_PARTIAL : pion::http::message::STATUS_TRUNCATED), "lossy-status", "status=" + std::to_string(x.status) + " more=" + std::to_string(more) + at);
    c.count("losses_recovered"); c.distinct(hash_str(w, bpos * 7919 + len));
}

// ---------------------------------------------------------------- P36 which heads are refused, and why
static bool is_ctl(int b) { return b < 32 || b == 127; }
static bool is_tok(int b) { return b < 128 && !is_ctl(b) && !strchr("()<>@,;:\\\"/[]?={} \t", b); }
typedef pion::http::parser PP;
SCENARIO("P36", "every_byte_everywhere", 30720, 300000) {
    // one byte of any value at the first, some inner or the last position of each part of a head
    Rng& r = c.rng; int which = (int)(c.index % 10), b = (int)(c.index / 10 % 256), where = (int)(c.index / 2560 % 3); char ch = (char)b;
    bool req = which < 4 || (which >= 6 && r.chance(50)); Opt o; o.allow_eof = false; o.max_body = 60; if (which >= 8) o.force_kind = B_CHUNKED; Msg m = gen(r, req, o); m.vmin = 1; m.request_method = "GET"; if (!req) { m.code = which == 4 ? 100 + r.below(900) : 200; if (which == 4 && (m.code / 100 == 1 || m.code == 204 || m.code == 304)) m.code = 404; } if (!req && m.kind == B_NONE) { m.kind = B_LENGTH; m.body.clear(); pairs_t h; for (auto& kv : m.headers) if (lower(kv.first) != "content-length" && lower(kv.first) != "transfer-encoding") h.push_back(kv); h.push_back(std::make_pair("Content-Length", "0")); m.headers.swap(h); }
    auto put = [&](std::string& s) { size_t p = where == 0 || s.empty() ? 0 : where == 2 ? s.size() : s.size() < 2 ? s.size() : 1 + r.below(s.size() - 1); s.insert(p, 1, ch); return p; };
    bool nl = b == '\r' || b == '\n', refuse = false, lead = r.chance(40); int code = 0; size_t p = 0; std::string ver, stat; bool blank = r.chance(50);
    std::string mark = "X-Mark"; size_t hi = 0;
    if (which == 6 || which == 7) { m.headers.insert(m.headers.begin() + (hi = r.below(m.headers.size() + 1)), std::make_pair(mark, "val" + r.from(TOKEN, 3))); }
    if (which == 8 || which == 9) { if (m.kind != B_CHUNKED) return; m.trailers.push_back(std::make_pair("T-Mark", "val" + r.from(TOKEN, 3))); hi = m.trailers.size() - 1; }
    switch (which) {
        case 0: if (b == ' ') return; p = put(m.method); if (p == 0 && nl) return; refuse = !is_tok(b); code = PP::ERROR_METHOD_CHAR; break;
        case 1: if (b == ' ' || b == '?' || nl) return; put(m.resource); refuse = is_ctl(b); code = PP::ERROR_URI_CHAR; break;
        case 2: if (b == ' ' || nl) return; if (!m.has_query) { m.has_query = true; m.query = "a=b"; } put(m.query); refuse = is_ctl(b); code = PP::ERROR_QUERY_CHAR; break;
        case 3: case 5: {   // the version of a request, of a response
            if (b == ' ' || nl) return; ver = r.chance(80) ? "HTTP/1.1" : "HTTP/1.0"; p = put(ver); 
            size_t d = ver.find('.'); bool ok = ver.compare(0, 5, "HTTP/") == 0 && d != std::string::npos && d > 5 && d + 1 < ver.size() && ver.find_first_not_of("0123456789", 5) == d && ver.find_first_not_of("0123456789", d + 1) == std::string::npos;
            if (ok) { m.vmaj = atoi(ver.c_str() + 5); m.vmin = atoi(ver.c_str() + d + 1); if (m.vmaj == 0) return; }
            refuse = !ok; code = PP::ERROR_VERSION_CHAR; break; }
        case 4: { if (b == ' ' || nl) return; stat = std::to_string(m.code); put(stat); bool ok = stat.find_first_not_of("0123456789") == std::string::npos; if (ok) m.code = atoi(stat.c_str()); if (ok && m.code <= 999 && (m.code < 100 || m.code / 100 == 1 || m.code == 204 || m.code == 304)) return; refuse = !ok || m.code > 999; code = PP::ERROR_STATUS_CHAR; break; }
        case 6: case 8: { std::string& n = which == 6 ? m.headers[hi].first : m.trailers[hi].first; if (b == ':') return; p = put(n); if (p == 0 && (nl || b == ' ' || b == '\t')) return; refuse = !is_tok(b); if (!refuse) lead = false; code = PP::ERROR_HEADER_CHAR; break; }
        default: { std::string& v = which == 7 ? m.headers[hi].second : m.trailers[hi].second; if (nl) return; p = put(v); if (p == 0 && (b == ' ' || b == '\t')) return; refuse = is_ctl(b) && b != '\t'; code = PP::ERROR_HEADER_CHAR; break; }
    }
    std::string w; render(r, m, false); w = m.wire(); size_t fl = w.find("\r\n"); if (which <= 2) fl = 0;
    if (which == 3) w = m.method + " " + m.resource + (m.has_query ? "?" + m.query : "") + " " + ver + w.substr(fl);
    if (which == 5) w = ver + " " + std::to_string(m.code) + " " + m.reason + w.substr(fl);
    if (which == 4) w = "HTTP/1.1 " + stat + " " + m.reason + w.substr(fl);
    if ((which == 7 || which == 9) && blank) { const std::pair<std::string, std::string>& kv = which == 7 ? m.headers[hi] : m.trailers[hi]; size_t q = w.find(kv.first + ": " + kv.second + "\r\n"); if (q != std::string::npos) w.erase(q + kv.first.size() + 1, 1); }   // no blank after the colon
    if ((which == 6 || which == 8) && refuse && lead) { const std::string& nm = which == 6 ? m.headers[hi].first : m.trailers[hi].first; size_t q = w.find("\r\n" + nm + ":"); if (q != std::string::npos) { w.insert(q + 2, std::string(1 + r.below(3), r.chance(50) ? ' ' : '\t')); c.count("indented_names_refused"); } }   // blanks before a malformed name do not help
    Mode md; Result x = run_split(w, splits(r, w.size()), req, "GET", md); std::string at = " part " + std::to_string(which) + " byte " + std::to_string(b) + " where " + std::to_string(where) + " " + describe(x) + " in=" + show(w, 700);
    if (refuse) {
        CHECK(c, x.rc == 0 && !x.valid, "malformed-head-accepted", at); CHECK(c, x.ec == code, "wrong-error", "want " + std::to_string(code) + at); c.count("malformed_refused");
    } else {
        CHECK(c, x.rc == 1, "well-formed-head-refused", at);
        if (req) CHECK(c, x.method == m.method && x.resource == m.resource && x.query == (m.has_query ? m.query : ""), "part-changed", at);
        else CHECK(c, x.code == m.code && x.reason == m.reason, "part-changed", at);
        CHECK(c, (int)x.vmaj == m.vmaj && (int)x.vmin == m.vmin, "part-changed", at);
        pairs_t want = m.headers; want.insert(want.end(), m.trailers.begin(), m.trailers.end()); CHECK(c, x.headers == sorted_lower(want), "part-changed", diff_pairs(x.headers, sorted_lower(want)) + at);
        c.count("well_formed_accepted");
    }
    c.distinct((uint64_t)which << 20 | (uint64_t)b << 8 | (uint64_t)where); if (w.size() < 150) c.sample(at);
}
SCENARIO("P36", "numbers", 6000, 60000) {
    // version and status numbers of any length: refused when out of range, never another number
    Rng& r = c.rng; bool req = r.chance(50); int which = req ? (int)r.below(2) : (int)r.below(3); static const std::vector<std::string> odd = { "65536", "65537", "65736", "131273", "4294967297", "4294967496", "18446744073709551617", "999", "1000", "10000000000000000000000000000000000000001", "65535", "00000000000000000000001" };
    std::string n = r.chance(60) ? r.pick(odd) : r.from("0123456789", 1 + r.below(24)); std::string maj = which == 0 ? n : "1", min = which == 1 ? n : "1", st = which == 2 ? n : "200";
    size_t z = n.find_first_not_of('0'); std::string v = z == std::string::npos ? "0" : n.substr(z); bool big = v.size() > 3; if (!big && which == 0 && v == "0") return; if (!big && which == 2 && (v.size() < 3 || v[0] == '1' || v == "204" || v == "304")) return;
    std::string w = req ? "GET /x HTTP/" + maj + "." + min + "\r\n\r\n" : "HTTP/" + maj + "." + min + " " + st + " OK\r\nContent-Length: 0\r\n\r\n";
    Result x = run_split(w, splits(r, w.size()), req, "GET", Mode()); std::string at = describe(x) + " in=" + show(w);
    if (big) { CHECK(c, x.rc == 0 && x.ec == (which == 2 ? (int)PP::ERROR_STATUS_CHAR : (int)PP::ERROR_VERSION_CHAR), "number-out-of-range-accepted", at); c.count("numbers_refused"); }
    else { CHECK(c, x.rc == 1 && (int)x.vmaj == atoi(maj.c_str()) && (int)x.vmin == atoi(min.c_str()) && (req || (int)x.code == atoi(st.c_str())), "number-changed", at); c.count("numbers_accepted"); }
    c.distinct(hash_str(w, 362));
}
SCENARIO("P36", "incomplete_lines", 3000, 30000) {
    // a response needs a version and a status; the error says which part is at fault
    Rng& r = c.rng; std::string nl = r.chance(50) ? "\r\n" : "\n"; int k = (int)r.below(7); std::string w; int code = 0; bool req = false; const char *word = "";
    switch (k) {
        case 0: w = nl + "X: y" + nl + nl; code = PP::ERROR_VERSION_EMPTY; word = "version"; break;
        case 1: w = "HTTP/1.1" + nl + nl; code = PP::ERROR_STATUS_EMPTY; word = "status"; break;
        case 2: w = "HTTP/1.1 " + r.from("abcXYZ-_", 1) + nl + nl; code = PP::ERROR_STATUS_CHAR; word = "status"; break;
        case 3: req = true; w = r.from("GETPOS", 1025 + r.below(10)) + " / HTTP/1.1\r\n\r\n"; code = PP::ERROR_METHOD_SIZE; word = "method"; break;
        case 4: req = true; w = "GET / HTTP/1.1\r\n" + r.from("abcd", 1025 + r.below(10)) + ": x\r\n\r\n"; code = PP::ERROR_HEADER_NAME_SIZE; word = "header name"; break;
        case 5: req = true; if (!r.chance(4)) return; w = "GET /" + r.from("abcd", 256 * 1024 + r.below(10)) + " HTTP/1.1\r\n\r\n"; code = PP::ERROR_URI_SIZE; word = "URI"; break;
        default: req = true; w = "GET / HTTP/1.1\r\n" + r.from("abcd", 1 + r.below(8)) + nl + nl; code = PP::ERROR_HEADER_CHAR; word = "header"; break;
    }
    Driver d(req, "GET", Mode()); size_t pos = 0; if (w.size() > 3000) { while (pos < w.size() && d.rc == 2) { size_t n = std::min<size_t>(w.size() - pos, 1 + r.below(60000)); d.feed(w.data() + pos, n); pos += n; } } else for (size_t n : splits(r, w.size())) { d.feed(w.data() + pos, n); pos += n; if (d.rc != 2) break; }
    std::string at = " kind " + std::to_string(k) + " " + describe(d.result()) + " " + d.ec.message() + " in=" + show(w);
    CHECK(c, d.rc == 0 && !d.msg->is_valid() && d.ec.value() == code, "incomplete-line-accepted", at);
    CHECK(c, d.ec.message().find(word) != std::string::npos, "error-names-wrong-part", at);
    c.count("incomplete_lines_refused"); c.distinct(hash_str(w, 363));
}
int main(int argc, char **argv) { return vh::run(argc, argv, 30, 120); }
