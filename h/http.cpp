// P22 request/response pairing, P23 resource lookup, P24 failure containment, P25 writers.
#include "vh.hpp"
#include "httpenv.hpp"
#include "httpgen.hpp"
#include <sanitizer/allocator_interface.h>
#include <boost/lexical_cast.hpp>
#include <pion/http/server.hpp>
#include <pion/http/request_writer.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/http/response_reader.hpp>
#include <pion/scheduler.hpp>
#include <pion/error.hpp>
static uint64_t hs(const std::string& s) { return hash_str(s); }

static void later(boost::asio::io_service& io, int us, const std::function<void()>& f) {
    std::shared_ptr<boost::asio::deadline_timer> t(new boost::asio::deadline_timer(io));
    t->expires_from_now(boost::posix_time::microseconds(us));
    t->async_wait([t, f](const boost::system::error_code&) { f(); });
}

// ---------------------------------------------------------------- P22
struct Seen { int count; std::string what; };
struct Book { std::mutex mu; std::map<std::string, Seen> m; };
static std::string describe(const pion::http::request& q) {
    std::string b(q.get_content() ? q.get_content() : "", q.get_content_length());
    return q.get_method() + "|" + q.get_resource() + "|" + q.get_query("v") + "|" + q.get_header("X-Id") + "|" + std::to_string(hs(b)) + "|" + std::to_string(b.size());
}
static std::string note(Book& b, const pion::http::request& q) {
    std::string d = describe(q);
    std::lock_guard<std::mutex> l(b.mu);
    Seen& s = b.m[q.get_header("X-Id")]; ++s.count; s.what = d;
    return d;
}
struct ChunkJob {
    response_writer_ptr w; connection_ptr conn; std::vector<std::string> parts; size_t next;
    static void step(std::shared_ptr<ChunkJob> j, const boost::system::error_code& ec) {
        if (ec) { j->conn->set_lifecycle(connection::LIFECYCLE_CLOSE); j->conn->finish(); return; }
        j->w->clear();
        if (j->next < j->parts.size()) {
            j->w->write(j->parts[j->next].data(), j->parts[j->next].size()); ++j->next;
            j->w->send_chunk([j](const boost::system::error_code& e, std::size_t) { step(j, e); });
        } else {
            connection_ptr c = j->conn;
            j->w->send_final_chunk([j](const boost::system::error_code& e, std::size_t) { if (e) j->conn->set_lifecycle(connection::LIFECYCLE_CLOSE); j->conn->finish(); });
        }
    }
};
static void add_handlers(Env& e, Book& bk) {
    pion::http::server *srv = e.srv.get();
    boost::asio::io_service *io = &e.srv->io();
    Book *b = &bk;
    srv->add_resource("/s", [b](const request_ptr& q, const connection_ptr& c) {
        std::string d = note(*b, *q);
        response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c)));
        w->get_response().add_header("X-Id", q->get_header("X-Id")); w << d; w->send();
    });
    srv->add_resource("/a", [b, io](const request_ptr& q, const connection_ptr& c) {
        std::string d = note(*b, *q);
        later(*io, (int)(hs(d) % 3000), [q, c, d] {
            response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c)));
            w->get_response().add_header("X-Id", q->get_header("X-Id")); w->write(d.data(), d.size()); w->send();
        });
    });
    srv->add_resource("/c", [b](const request_ptr& q, const connection_ptr& c) {
        std::string d = note(*b, *q);
        std::shared_ptr<ChunkJob> j(new ChunkJob);
        j->conn = c; j->next = 0;
        for (size_t o = 0; o < d.size(); o += 7) j->parts.push_back(d.substr(o, 7));
        j->w = response_writer::create(c, *q);
        j->w->get_response().add_header("X-Id", q->get_header("X-Id"));
        ChunkJob::step(j, boost::system::error_code());
    });
    srv->add_resource("/big", [b](const request_ptr& q, const connection_ptr& c) {
        std::string d = note(*b, *q);
        response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c)));
        w->get_response().add_header("X-Id", q->get_header("X-Id"));
        w << d; w << std::string(60000, '.'); w->send();
    });
    srv->add_resource("/none", [b](const request_ptr& q, const connection_ptr& c) {
        note(*b, *q);
        response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c)));
        w->get_response().add_header("X-Id", q->get_header("X-Id"));
        w->get_response().set_status_code(pion::http::types::RESPONSE_CODE_NO_CONTENT); w->get_response().set_status_message("No Content"); w->send();
    });
    srv->add_resource("/throw", [b](const request_ptr& q, const connection_ptr&) {
        note(*b, *q);
        throw std::runtime_error("thrown for " + q->get_header("X-Id"));
    });
}
struct Req { std::string id, text, what, path; bool head, keep, lenient; int status; };
static Req make_req(Rng& r, const std::string& id, bool last) {
    Req q; q.id = id;
    static const char *paths[] = { "/s", "/s/deep/er", "/a", "/a/", "/c", "/big", "/none", "/throw", "/missing", "/sx" };
    q.path = paths[r.below(10)];
    std::string base = q.path.substr(0, q.path.find('/', 1));
    q.status = base == "/none" ? 204 : base == "/throw" ? 500 : base == "/missing" || base == "/sx" ? 404 : 200;
    std::string method = r.chance(45) ? "GET" : r.chance(50) ? "POST" : r.chance(40) ? "HEAD" : r.chance(50) ? "PUT" : "DELETE";
    q.head = method == "HEAD";
    std::string v; for (size_t i = 0, n = r.below(8); i < n; ++i) v += (char)('a' + r.below(26));
    bool v10 = last && r.chance(25);
    std::string body; bool chunked = false;
    if ((method == "POST" || method == "PUT") && r.chance(80)) { body = r.bytes(r.chance(20) ? r.range(1000, 20000) : r.range(0, 60)); chunked = !v10 && r.chance(35); }
    static const char *keeps[] = { "", "", "", "", "Connection: keep-alive\r\n", "Connection: Keep-Alive\r\n" };
    static const char *closes[] = { "Connection: close\r\n", "Connection: close\r\n", "connection: Close\r\n", "Connection: CLOSE\r\n" };
    std::string ch = v10 ? (r.chance(50) ? "" : r.chance(50) ? "Connection: close\r\n" : "Connection: keep-alive\r\n") : last && r.chance(80) ? closes[r.below(4)] : keeps[r.below(6)];
    q.keep = !v10 && ch.find("lose") == std::string::npos && ch.find("LOSE") == std::string::npos;
    q.lenient = v10 && ch.find("keep") != std::string::npos;      // may stay open, if it says so
    q.text = method + " " + q.path + (v.empty() && r.chance(50) ? "" : "?v=" + v) + " HTTP/1." + (v10 ? "0" : "1") + "\r\n";
    if (r.chance(70)) q.text += "Host: localhost\r\n";
    if (r.chance(50)) q.text += ch;
    q.text += "X-Id: " + id + "\r\n";
    if (q.text.find(ch) == std::string::npos) q.text += ch;
    if (r.chance(20)) q.text += "Cookie: a=b; c=d\r\n";
    if (chunked) {
        q.text += "Transfer-Encoding: chunked\r\n\r\n";
        for (size_t o = 0; o < body.size();) { size_t n = (size_t)r.range(1, (int64_t)(body.size() - o)); char b[24]; snprintf(b, sizeof b, "%zx\r\n", n); q.text += b + body.substr(o, n) + "\r\n"; o += n; }
        q.text += "0\r\n\r\n";
    } else if (!body.empty() || method == "POST" || method == "PUT" || r.chance(20)) q.text += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    else q.text += "\r\n";
    q.what = method + "|" + q.path + "|" + v + "|" + id + "|" + std::to_string(hs(body)) + "|" + std::to_string(body.size());
    return q;
}
static std::string expect_body(const Req& q, const std::string& got) {
    std::string base = q.path.substr(0, q.path.find('/', 1));
    if (q.head || q.status == 204) return got.empty() ? "" : "content where none is allowed";
    if (q.status == 500) return got.find("thrown for " + q.id) == std::string::npos ? "error page does not carry the message" : "";
    if (q.status == 404) return got.find(q.path) == std::string::npos ? "not-found page does not name the resource" : "";
    std::string want = q.what + (base == "/big" ? std::string(60000, '.') : std::string());
    return got == want ? "" : "content " + show(got.substr(0, 120)) + " instead of " + show(want.substr(0, 120));
}
// one client connection: batches of pipelined requests; "" or what went wrong
static std::string http_client(int port, bool tls, int who, uint64_t seed, std::vector<Req>& sent, std::vector<std::string>& unsent, bool& stuck, Ctx& c) {
    Rng r(seed); stuck = false;
    net::Client k;
    if (!k.connect(port, tls)) return "connect refused";
    int batches = (int)r.range(1, 4); int n = 0; bool open = true;
    for (int b = 0; b < batches && open; ++b) {
        int depth = r.chance(40) ? 1 : (int)r.range(2, 7);
        std::string text; size_t first = sent.size();
        for (int i = 0; i < depth && open; ++i) {
            bool last = b == batches - 1 && i == depth - 1;
            if (!last && r.chance(4)) last = true;
            Req q = make_req(r, std::to_string(who) + "." + std::to_string(n++), last);
            text += q.text; sent.push_back(q);
            if (!q.keep) open = false;
        }
        if (!open && r.chance(30)) {     // requests after the one that ends the connection must not be handled
            Req q = make_req(r, "x" + std::to_string(who), false); unsent.push_back(q.id); text += q.text;
        }
        bool half = !tls && b == batches - 1 && r.chance(15);
        if (!net::send_pieces(k, text, r) && open) return "connection closed while sending";
        if (half) { k.half_close(); c.count("half_closed_clients"); }
        if (depth > 1) c.count("pipelined_batches");
        for (size_t i = first; i < sent.size(); ++i) {
            Req& q = sent[i]; net::Response p;
            std::string e = net::read_response(k, p, q.head, 25);
            if (!e.empty()) { stuck = e == "timeout"; return "request " + q.id + " (" + show(q.text.substr(0, 60)) + "), number " + std::to_string(i - first + 1) + " of " + std::to_string(sent.size() - first) + ": " + e; }
            if (p.status != q.status) return "request " + q.id + " (" + show(q.text.substr(0, 60)) + "): status " + std::to_string(p.status) + " instead of " + std::to_string(q.status);
            if (q.status < 400 && p.header("x-id") != q.id) return "request " + q.id + " answered with the response to " + p.header("x-id");
            if (!(e = expect_body(q, p.body)).empty()) return "request " + q.id + " (" + show(q.text.substr(0, 60)) + "): " + e;
            bool says_close = net::lower(p.header("connection")) == "close";
            if (q.keep && says_close && !p.close_delimited) return "response to " + q.id + " announces the end of a connection that was to stay open";
            if (!q.keep && !q.lenient && !says_close) return "response to " + q.id + " (" + show(q.text.substr(0, 90)) + ") announces that the connection stays open";
            if (!q.keep && q.lenient && !says_close) { open = true; c.count("http10_kept_alive"); }
            c.count("responses"); c.count("status_" + std::to_string(q.status)); if (p.chunked) c.count("chunked_responses"); if (q.head) c.count("head_requests");
        }
        if (half) { open = false; }
    }
    if (!open) {
        if (!k.drain(25)) { stuck = true; return "connection still open after the request that ends it"; }
        if (!k.buf.empty()) return "data after the last response: " + show(k.buf);
        c.count("closed_by_server");
    } else k.close(r.chance(20));
    return "";
}
SCENARIO("P22", "clients", 260, 2600) {
    Rng& r = c.rng;
    Env e(r, 20); Book bk;
    add_handlers(e, bk);
    inj::lock_delay_pct = r.chance(40) ? (int)r.range(1, 60) : 0;
    e.start();
    int n = (int)r.range(1, 10);
    std::vector<std::vector<Req> > sent(n); std::vector<std::vector<std::string> > unsent(n); std::vector<std::string> err(n); std::vector<char> stuck(n, 0);
    std::atomic<int> left(n); std::vector<boost::thread*> th;
    for (int i = 0; i < n; ++i) { uint64_t s = r(); th.push_back(new boost::thread([&, i, s] { bool st; err[i] = http_client(e.port, e.tls, i, s, sent[i], unsent[i], st, c); stuck[i] = st; --left; })); }
    if (!wait_until([&] { return left == 0; }, 70)) { c.hang("clients-never-finished", "HTTP clients stuck"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    inj::off();
    for (int i = 0; i < n; ++i) if (!err[i].empty()) { std::string d = (e.tls ? "TLS client " : "client ") + std::to_string(i) + ": " + err[i]; if (stuck[i]) { c.hang("response-missing", d); bail(); } c.fail("response-wrong", d); return; }
    if (!wait_until([&] { return e.srv->get_connections() == 0; }, 20)) { c.hang("connections-left", std::to_string(e.srv->get_connections()) + " connections reported after all clients ended"); bail(); }
    {
        std::lock_guard<std::mutex> l(bk.mu); uint64_t h = 0;
        for (int i = 0; i < n; ++i) {
            for (size_t j = 0; j < sent[i].size(); ++j) {
                Req& q = sent[i][j]; h = mix64(h ^ hs(q.text));
                if (q.status == 404) { CHECK(c, !bk.m.count(q.id), "unmatched-request-handled", q.id); continue; }
                CHECK(c, bk.m.count(q.id) && bk.m[q.id].count == 1, "handler-calls", "request " + q.id + " was handled " + std::to_string(bk.m.count(q.id) ? bk.m[q.id].count : 0) + " times");
                CHECK(c, bk.m[q.id].what == q.what, "handler-data", "the handler of " + show(q.what) + " saw " + show(bk.m[q.id].what));
            }
            for (size_t j = 0; j < unsent[i].size(); ++j) CHECK(c, !bk.m.count(unsent[i][j]), "handled-after-close", "a request behind the one that closes the connection was handled");
            c.count("requests", sent[i].size());
        }
        c.distinct(h);
        if (c.want_sample()) c.sample(std::to_string(n) + " clients, first request " + show(sent[0].empty() ? "" : sent[0][0].text.substr(0, 100)));
    }
    if (e.tls) c.count("tls_rounds");
    e.end(c);
}

// ---------------------------------------------------------------- P23
static std::string strip(std::string s) { if (!s.empty() && s[s.size() - 1] == '/') s.resize(s.size() - 1); return s; }
static std::string some_path(Rng& r) {
    static const char *seg[] = { "a", "b", "ab", "a-b", "a!", "a.b", "a0", "A", "~", "a%20b" };
    std::string s; int n = (int)r.below(5);
    for (int i = 0; i < n; ++i) { s += "/"; s += seg[r.below(10)]; }
    if (r.chance(20)) s += "/";
    if (r.chance(4)) s += "/";
    if (r.chance(3)) s = s.substr(s.size() ? 1 : 0);     // not starting with a slash
    return s;
}
struct Model {
    std::map<std::string, int> res; std::map<std::string, std::string> red;
    // -1 not found, -2 too many redirects, else tag; final: the resource it reached
    int find(const std::string& path, std::string& final) {
        std::string p = strip(path); final = path; int n = 0;
        while (red.count(p)) { if (++n > 10) return -2; p = red[p]; final = p; }
        int best = -1; size_t len = 0;
        for (std::map<std::string, int>::iterator i = res.begin(); i != res.end(); ++i) {
            const std::string& k = i->first;
            if (p.size() >= k.size() && p.compare(0, k.size(), k) == 0 && (p.size() == k.size() || p[k.size()] == '/') && (best < 0 || k.size() >= len)) { best = i->second; len = k.size(); }
        }
        return best;
    }
};
static pion::http::server::request_handler_t tagged(int tag, std::atomic<int> *calls) {
    return [tag, calls](const request_ptr& q, const connection_ptr& c) {
        if (calls) ++*calls;
        response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c)));
        w << "tag " << tag << " resource " << q->get_resource() << " original " << q->get_original_resource(); w->send();
    };
}
SCENARIO("P23", "lookup", 500, 5000) {
    Rng& r = c.rng;
    Env e(r, 0, 3); Model m; std::atomic<int> calls(0); int expected = 0;
    e.start();
    net::Client k; if (!k.connect(e.port)) { c.fail("connect-refused", "HTTP server"); return; }
    int ops = (int)r.range(10, 60), tag = 0; uint64_t h = 0;
    bool cyclic = r.chance(70);
    for (int i = 0; i < ops; ++i) {
        int o = (int)r.below(10);
        if (o < 2) { std::string p = some_path(r); e.srv->add_resource(p, tagged(tag, &calls)); if (!m.res.count(strip(p))) m.res[strip(p)] = tag; ++tag; c.count("registrations"); h = mix64(h ^ hs(p)); }
        else if (o == 2) { std::string p = m.res.empty() || r.chance(30) ? some_path(r) : std::next(m.res.begin(), (long)r.below(m.res.size()))->first; if (r.chance(30)) p += "/"; e.srv->remove_resource(p); m.res.erase(strip(p)); c.count("removals"); }
        else if (o == 3 && m.red.size() < 14) {
            std::string a = some_path(r), b = cyclic && r.chance(60) && !m.red.empty() ? std::next(m.red.begin(), (long)r.below(m.red.size()))->first : some_path(r);
            if (cyclic && r.chance(25)) {        // a short cycle
                std::vector<std::string> v(r.range(1, 3)); for (size_t j = 0; j < v.size(); ++j) v[j] = strip(some_path(r));
                for (size_t j = 0; j < v.size(); ++j) { const std::string& x = v[j]; const std::string& y = v[(j + 1) % v.size()]; if (strip(y).empty()) continue; e.srv->add_redirect(x, y); if (!m.red.count(strip(x))) m.red[strip(x)] = strip(y); }
                continue;
            }
            if (r.chance(15)) {                  // as many as may be followed, or around that many
                static const int lens[] = { 9, 10, 10, 10, 11 }; int n = lens[r.below(5)]; std::string x = "/hop" + std::to_string(i);
                for (int j = 0; j < n; ++j) { std::string y = j + 1 == n && !m.res.empty() ? std::next(m.res.begin(), (long)r.below(m.res.size()))->first : x + "." + std::to_string(j); std::string f = j ? x + "." + std::to_string(j - 1) : x; if (strip(y).empty()) break; e.srv->add_redirect(f, y); m.red[f] = strip(y); }
                k.send("GET " + x + " HTTP/1.1\r\nHost: a\r\n\r\n"); std::string fin; int want = m.find(x, fin); net::Response q; std::string g = net::read_response(k, q, false, 20);
                if (!g.empty()) { if (g == "timeout") { c.hang("no-response", "GET " + x); bail(); } c.fail("no-response", "GET " + x + ": " + g); return; }
                if (want >= 0) { ++expected; CHECK(c, q.status == 200 && q.body == "tag " + std::to_string(want) + " resource " + fin + " original " + x, "long-redirect-chain", std::to_string(n) + " redirects gave " + std::to_string(q.status) + " " + show(q.body)); c.count("long_chains_followed"); }
                else CHECK(c, q.status == (want == -1 ? 404 : 500), "long-redirect-chain-status", std::to_string(n) + " redirects gave " + std::to_string(q.status));
                continue;
            }
            if (strip(b).empty()) continue;      // a request's resource cannot become empty
            e.srv->add_redirect(a, b); if (!m.red.count(strip(a))) m.red[strip(a)] = strip(b); c.count("redirects_added"); h = mix64(h ^ hs(a + ">" + b));
        } else {
            // mostly something near what is registered
            std::string p = r.chance(50) || m.res.empty() ? some_path(r) : std::next(m.res.begin(), (long)r.below(m.res.size()))->first;
            if (r.chance(cyclic ? 40 : 20) && !m.red.empty()) p = std::next(m.red.begin(), (long)r.below(m.red.size()))->first;
            if (r.chance(25)) p += r.chance(50) ? "/" : "/x"; else if (r.chance(10)) p += "x";
            if (p.empty() || p[0] != '/') p = "/" + p;
            std::string fin; int want = m.find(p, fin);
            k.send("GET " + p + " HTTP/1.1\r\nHost: a\r\n\r\n");
            net::Response q; std::string x = net::read_response(k, q, false, 20);
            if (!x.empty()) { if (x == "timeout") { c.hang("no-response", "GET " + p); bail(); } c.fail("no-response", "GET " + p + ": " + x); return; }
            h = mix64(h ^ hs(p));
            if (want == -1) { CHECK(c, q.status == 404, "unmatched-not-404", "GET " + p + " gave " + std::to_string(q.status) + " " + show(q.body)); c.count("not_found"); }
            else if (want == -2) { CHECK(c, q.status == 500, "redirect-cycle-not-refused", "GET " + p + " gave " + std::to_string(q.status)); c.count("redirect_cycles"); }
            else {
                ++expected;
                std::string b = "tag " + std::to_string(want) + " resource " + fin + " original " + p;
                CHECK(c, q.status == 200 && q.body == b, "wrong-resource", "GET " + p + " gave " + std::to_string(q.status) + " " + show(q.body) + " instead of " + show(b));
                c.count("matched"); if (fin != p) c.count("redirects_followed");
            }
        }
    }
    CHECK(c, calls == expected, "handler-calls", std::to_string(calls) + " handler calls for " + std::to_string(expected) + " matched requests");
    k.close();
    if (r.chance(20)) {      // clear() stops the server and forgets the resources
        if (!timed([&] { e.srv->clear(); }, 20)) { c.hang("clear-never-returned", "clear()"); bail(); }
        CHECK(c, !e.srv->is_listening(), "clear-left-listening", "listening after clear()");
        e.start(); net::Client k2; CHECK(c, k2.connect(e.port), "connect-refused", "after clear() and start()");
        std::string p = m.res.empty() ? "/a" : m.res.begin()->first; if (p.empty() || p[0] != '/') p = "/" + p;
        if (!m.red.count(strip(p))) {
            k2.send("GET " + p + " HTTP/1.1\r\nHost: a\r\n\r\n"); net::Response q; std::string x = net::read_response(k2, q, false, 20);
            CHECK(c, x.empty() && q.status == 404, "resource-after-clear", "GET " + p + " after clear(): " + x + std::to_string(q.status));
        }
        c.count("clears");
    }
    c.distinct(h);
    if (c.want_sample()) { std::string t; for (std::map<std::string, int>::iterator i = m.res.begin(); i != m.res.end(); ++i) t += i->first + " "; c.sample("resources " + t); }
    e.end(c);
}
// the set of resources and redirects changes while requests are served
SCENARIO("P23", "changes", 60, 600) {
    Rng& r = c.rng;
    Env e(r, 0, 6);
    e.srv->add_resource("/fix", tagged(1, 0)); e.srv->add_resource("/fix/inner", tagged(2, 0)); e.srv->add_redirect("/old", "/fix/inner");
    e.start();
    inj::lock_delay_pct = r.chance(40) ? (int)r.range(1, 60) : 0;
    std::atomic<int> go(1), left(0); std::vector<boost::thread*> th; std::mutex em; std::string err;
    int nm = (int)r.range(1, 3), nc = (int)r.range(1, 4), redirects = r.chance(50) ? 30 : 100;
    for (int i = 0; i < nm; ++i) { uint64_t s = r(); ++left; th.push_back(new boost::thread([&, s, i] {
        Rng q(s); for (int j = 0; j < 300; ++j) {
            if (redirects == 100 && q.chance(20)) usleep(q.below(60));
            std::string p = "/tmp" + std::to_string(i) + "/" + std::to_string(q.below(20));
            switch (q.below(3)) { case 0: e.srv->add_resource(p, tagged(100, 0)); break; case 1: e.srv->remove_resource(p); break; default: if (q.chance(redirects)) e.srv->add_redirect("/r" + p + std::to_string(q.below(50)), "/fix"); }
        } --left; })); }
    std::atomic<int> served(0);
    for (int i = 0; i < nc; ++i) { uint64_t s = r(); ++left; th.push_back(new boost::thread([&, s] {
        Rng q(s); net::Client k; std::string x;
        if (!k.connect(e.port)) x = "connect";
        for (int j = 0; j < 60 && x.empty(); ++j) {
            const char *p[] = { "/fix/abc", "/fix/inner/x", "/old", "/nothing" }; const char *want[] = { "tag 1 ", "tag 2 ", "tag 2 ", "" }; int w = redirects == 100 && q.chance(50) ? 2 : (int)q.below(4);
            k.send(std::string("GET ") + p[w] + " HTTP/1.1\r\n\r\n"); net::Response a; x = net::read_response(k, a, false, 20);
            if (x.empty() && (w == 3 ? a.status != 404 : a.status != 200 || a.body.compare(0, 6, want[w]))) x = std::string(p[w]) + " gave " + std::to_string(a.status) + " " + show(a.body);
            ++served;
        }
        if (!x.empty()) { std::lock_guard<std::mutex> l(em); err = x; }
        --left; })); }
    if (!wait_until([&] { return left == 0; }, 60)) { c.hang("changes-stuck", "requests or changes never returned"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    inj::off();
    if (err == "timeout") { c.hang("no-response", "while resources changed"); bail(); }
    CHECK(c, err.empty(), "wrong-resource-during-changes", err);
    c.count("requests_during_changes", served); c.distinct(mix64(r()));
    e.end(c);
}

// ---------------------------------------------------------------- P24
struct BoostOnly : virtual boost::exception { };
static void thrower(const request_ptr& q, const connection_ptr&) {
    std::string k = q->get_query("k");
    if (k == "runtime") throw std::runtime_error("<&\">boom");
    if (k == "logic") throw std::logic_error("logic");
    if (k == "pion") BOOST_THROW_EXCEPTION(pion::error::bad_arg() << pion::error::errinfo_arg_name("arg"));
    if (k == "cast") boost::lexical_cast<int>("zz");
    if (k == "range") std::string("abc").at(77);
    if (k == "boost") throw BoostOnly();
    throw std::exception();
}
static const char *throws[] = { "runtime", "logic", "pion", "cast", "range", "boost", "other" };
// requests that no server may treat as valid
static std::string malformed(Rng& r) {
    switch (r.below(12)) {
    case 0: return "GET\x01 /s HTTP/1.1\r\n\r\n";
    case 1: return "GET /s HTTP/x.1\r\n\r\n";
    case 2: return "GET /s HTTQ/1.1\r\n\r\n";
    case 3: return "POST /s HTTP/1.1\r\nContent-Length: -5\r\n\r\n";
    case 4: return "POST /s HTTP/1.1\r\nContent-Length: abc\r\n\r\nabc";
    case 5: return "POST /s HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n";
    case 6: return "GET /s HTTP/1.1\r\nBad\x02Header: a\r\n\r\n";
    case 7: return "GET /s HTTP/1.1\r\n: novalue\r\n\r\n";
    case 8: return std::string(3000, 'M') + " /s HTTP/1.1\r\n\r\n";
    case 9: return "GET /s?" + std::string(1024 * 1024 + 10, 'q') + " HTTP/1.1\r\n\r\n";
    case 10: return "GET /" + std::string(260 * 1024, 'r') + " HTTP/1.1\r\n\r\n";
    default: return "GET /s HTTP/1.1\r\nName: " + std::string(1024 * 1024 + 5, 'v') + "\r\n\r\n";
    }
}
SCENARIO("P24", "attacks", 220, 2200) {
    Rng& r = c.rng;
    Env e(r, 15, 6); Book bk; std::atomic<int> good_calls(0);
    add_handlers(e, bk);
    e.srv->add_resource("/boom", thrower);
    e.srv->add_resource("/good", tagged(7, &good_calls));
    if (r.chance(30)) e.srv->set_max_content_length(64);
    e.start();
    inj::lock_delay_pct = r.chance(30) ? (int)r.range(1, 60) : 0;
    // a steady client on its own connection must notice nothing
    std::atomic<int> go(1), steady_done(0), steady_n(0); std::string steady_err; std::atomic<int> steady_stuck(0);
    boost::thread steady([&] {
        net::Client k; if (!k.connect(e.port, e.tls)) steady_err = "connect refused";
        while (steady_err.empty() && go) {
            if (!k.send("GET /good HTTP/1.1\r\nHost: a\r\n\r\n")) { steady_err = "send failed"; break; }
            net::Response p; std::string x = net::read_response(k, p, false, 25); if (x == "timeout") steady_stuck = 1;
            if (!x.empty() || p.status != 200) { steady_err = x + " " + std::to_string(p.status); break; }
            ++steady_n; usleep(500);
        }
        ++steady_done;
    });
    int n = (int)r.range(3, 12); std::atomic<int> left(n); std::vector<boost::thread*> th; std::vector<std::string> err(n); std::vector<char> stuck(n, 0);
    for (int i = 0; i < n; ++i) { uint64_t s = r(); th.push_back(new boost::thread([&, i, s] {
        Rng q(s); net::Client k; std::string x;
        bool plain_to_tls = e.tls && q.chance(20);
        if (!k.connect(e.port, e.tls && !plain_to_tls)) { x = "connect refused"; }
        else if (plain_to_tls) { k.send(q.bytes(q.range(1, 200))); k.half_close(); if (!k.drain(25)) { stuck[i] = 1; x = "plain data to the TLS port: connection not closed"; } c.count("garbage_handshakes"); }
        else switch (q.below(6)) {
        case 0: case 1: {   // malformed: an error response or a closed connection, and no handler
            std::string t = malformed(q), id = "m" + std::to_string(i);
            size_t p = t.find("\r\n"); t.insert(p + 2, "X-Id: " + id + "\r\n");
            std::string pre; int npre = (int)q.below(3); for (int j = 0; j < npre; ++j) pre += "GET /good HTTP/1.1\r\nHost: a\r\n\r\n";
            bool sent = net::send_pieces(k, pre + t, q); (void)sent;
            if (q.chance(30)) k.half_close();
            for (int j = 0; j < npre && x.empty(); ++j) { net::Response a; x = net::read_response(k, a, false, 25); if (x == "timeout") stuck[i] = 1; if (x == "eof" && k.err) { x = ""; break; } if (x.empty() && a.status != 200) x = "good request before a malformed one got " + std::to_string(a.status); }
            if (x.empty() && !k.eof) {
                net::Response a; std::string y = net::read_response(k, a, false, 25);
                if (y == "timeout") { stuck[i] = 1; x = "malformed request " + show(t.substr(0, 60)) + ": neither an answer nor a close"; }
                else if (y.empty() && (a.status < 400 || a.status > 599)) x = "malformed request " + show(t.substr(0, 60)) + " got status " + std::to_string(a.status);
                else if (y.empty() && !k.drain(25)) { stuck[i] = 1; x = "connection left open after a malformed request"; }
                else if (!y.empty() && y != "eof" && !k.err) x = "malformed request: " + y;
                else if (y.empty() && !k.buf.empty()) x = "more than one response to a malformed request: " + show(k.buf.substr(0, 100));
                if (y.empty()) c.count("malformed_answered"); else c.count("malformed_closed");
            }
            { std::lock_guard<std::mutex> l(bk.mu); if (bk.m.count(id)) x = "the handler ran for a malformed request " + show(t.substr(0, 60)); }
            break; }
        case 2: {   // throwing handlers
            int m = (int)q.range(1, 4); std::string t; std::vector<std::string> ks;
            for (int j = 0; j < m; ++j) { ks.push_back(throws[q.below(7)]); t += "GET /boom?k=" + ks.back() + " HTTP/1.1\r\nHost: a\r\n\r\n"; }
            t += "GET /good HTTP/1.1\r\nConnection: close\r\n\r\n";
            net::send_pieces(k, t, q);
            for (int j = 0; j <= m && x.empty(); ++j) {
                net::Response a; std::string y = net::read_response(k, a, false, 25);
                if (!y.empty()) { if (y == "timeout") stuck[i] = 1; x = "handler throwing " + (j < m ? ks[j] : "(good request after the throws)") + ": " + y; }
                else if (a.status != (j < m ? 500 : 200)) x = "handler throwing " + (j < m ? ks[j] : "nothing") + " gave status " + std::to_string(a.status);
                else if (j < m && ks[j] == "runtime" && (a.body.find("<&") != std::string::npos || a.body.find("boom") == std::string::npos)) x = "error page: " + show(a.body);
                c.count(j < m ? "handler_exceptions" : "good_after_exceptions");
            }
            break; }
        case 3: {   // disconnect at any byte of a request
            std::vector<Req> s2; std::vector<std::string> u2;
            Req a = make_req(q, "d" + std::to_string(i), false); std::string t = a.text; if (q.chance(40)) t += make_req(q, "e" + std::to_string(i), false).text;
            k.send(t.substr(0, q.below(t.size() + 1))); if (q.chance(50)) usleep((useconds_t)q.below(3000));
            k.close(q.chance(50)); c.count("disconnects"); break; }
        case 4: {   // disconnect while a response is on its way
            std::string t; int m = (int)q.range(1, 5); for (int j = 0; j < m; ++j) t += "GET /big HTTP/1.1\r\nX-Id: b" + std::to_string(i) + "\r\n\r\n";
            k.send(t); if (q.chance(60)) k.need((size_t)q.range(1, 70000), 10);
            k.close(q.chance(50)); c.count("disconnects_in_response"); break; }
        default: {  // bytes that may or may not be a request
            std::string t = q.chance(50) ? q.bytes(q.range(1, 400)) : make_req(q, "f" + std::to_string(i), false).text;
            int edits = (int)q.range(0, 6); for (int j = 0; j < edits && !t.empty(); ++j) { size_t p = q.below(t.size()); if (q.chance(40)) t[p] = (char)q.below(256); else if (q.chance(50)) t.erase(p, q.range(1, 4)); else t.insert(p, q.bytes(q.range(1, 4))); }
            net::send_pieces(k, t, q); k.half_close();
            if (!k.drain(40)) { stuck[i] = 1; x = "connection never ended after its client finished sending " + show(t.substr(0, 200)); }
            c.count("garbage_requests"); break; }
        }
        err[i] = x; --left; })); }
    if (!wait_until([&] { return left == 0; }, 90)) { c.hang("clients-never-finished", "attacking clients stuck"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    go = 0;
    if (!wait_until([&] { return steady_done == 1; }, 40)) { c.hang("steady-client-stuck", "the well-behaved client"); bail(); }
    steady.join(); inj::off();
    for (int i = 0; i < n; ++i) if (!err[i].empty()) { if (stuck[i]) { c.hang("attack-stuck", err[i]); bail(); } c.fail("attack-wrong", err[i]); return; }
    if (steady_stuck) { c.hang("steady-client-stuck", "no answer to a well-behaved client"); bail(); }
    CHECK(c, steady_err.empty(), "other-connection-affected", "well-behaved client: " + steady_err);
    c.count("steady_requests", steady_n);
    if (!wait_until([&] { return e.srv->get_connections() == 0; }, 20)) { c.hang("connections-left", std::to_string(e.srv->get_connections()) + " connections reported after all clients ended"); bail(); }
    // a new client is served
    net::Client k; CHECK(c, k.connect(e.port, e.tls), "server-down", "connection refused after attacks");
    k.send("GET /good HTTP/1.1\r\nConnection: close\r\n\r\n"); net::Response p; std::string x = net::read_response(k, p, false, 25);
    if (x == "timeout") { c.hang("server-down", "no answer after attacks"); bail(); }
    CHECK(c, x.empty() && p.status == 200, "server-down", "after attacks: " + x);
    c.distinct(mix64(r())); if (e.tls) c.count("tls_rounds");
    k.close();
    e.end(c);
}

// handlers of one's own for what nobody handles: called once each, with the request in question
SCENARIO("P24", "custom_handlers", 120, 1200) {
    Rng& r = c.rng; Env e(r, 12, 4);
    struct Call { std::string kind, resource, original, id, text; }; struct Log { std::mutex mu; std::vector<Call> v; }; std::shared_ptr<Log> log(new Log);
    auto note_ = [log](const char *k, const request_ptr& q, const std::string& t) { Call x = { k, q->get_resource(), q->get_original_resource(), q->get_header("X-Id"), t }; std::lock_guard<std::mutex> l(log->mu); log->v.push_back(x); };
    auto answer = [](const request_ptr& q, const connection_ptr& k, int code, const std::string& t) { response_writer_ptr w(response_writer::create(k, *q, boost::bind(&connection::finish, k))); w->get_response().set_status_code((unsigned)code); w->get_response().set_status_message("Custom"); w << t; w->send(); };
    bool cb = r.chance(80), cn = r.chance(80), ce = r.chance(80), later_ = r.chance(30);
    boost::asio::io_service *io = &e.srv->io();
    if (cb) e.srv->set_bad_request_handler([=](const request_ptr& q, const connection_ptr& k) { note_("bad", q, ""); answer(q, k, 491, "bad"); });
    if (cn) e.srv->set_not_found_handler([=](const request_ptr& q, const connection_ptr& k) { note_("missing", q, ""); if (later_) later(*io, 800, [=] { answer(q, k, 494, "missing"); }); else answer(q, k, 494, "missing"); });
    if (ce) e.srv->set_error_handler([=](const request_ptr& q, const connection_ptr& k, const std::string& t) { note_("error", q, t); answer(q, k, 591, "error"); });
    e.srv->add_resource("/good", [=](const request_ptr& q, const connection_ptr& k) { note_("good", q, ""); answer(q, k, 200, "good"); });
    e.srv->add_resource("/boom", [=](const request_ptr& q, const connection_ptr& k) { note_("boom", q, ""); thrower(q, k); });
    e.srv->add_redirect("/to-good", "/good"); e.srv->add_redirect("/to-nothing", "/nothing"); e.srv->add_redirect("/to-boom", "/boom"); e.srv->add_redirect("/loop", "/pool"); e.srv->add_redirect("/pool", "/loop");
    e.start();
    int n = (int)r.range(1, 3), id = 0; uint64_t h = 0; struct Want { std::string kind, resource, original, text; bool boom; }; std::map<std::string, Want> want;
    for (int i = 0; i < n; ++i) {
        net::Client k; CHECK(c, k.connect(e.port, e.tls), "connect", "");
        int m = (int)r.range(1, 6); std::string text; std::vector<std::pair<int, std::string> > exp; bool bad = false;
        for (int j = 0; j < m && !bad; ++j) {
            std::string x = "i" + std::to_string(id++), path, q; int code; Want w; w.boom = false; int kind = (int)r.below(6); std::string t;
            const char *th = throws[r.below(7)];
            if (kind == 0) { path = r.chance(50) ? "/good" : "/to-good"; w.kind = "good"; w.resource = "/good"; code = 200; }
            else if (kind == 1) { static const char *ps[] = { "/nothing", "/goodness", "/boo", "/", "/to-nothing", "/good%20" }; path = ps[r.below(6)]; w.kind = "missing"; w.resource = path == "/to-nothing" ? "/nothing" : path; code = cn ? 494 : 404; }
            else if (kind == 2) { path = r.chance(60) ? "/boom" : "/to-boom"; q = std::string("?k=") + th; w.kind = "error"; w.resource = "/boom"; w.boom = true; w.text = !strcmp(th, "runtime") ? "<&\">boom" : !strcmp(th, "logic") ? "logic" : ""; code = ce ? 591 : 500; }
            else if (kind == 3) { path = r.chance(50) ? "/loop" : "/pool"; w.kind = "error"; w.resource = "?"; w.text = "Maximum number of redirects"; code = ce ? 591 : 500; }
            else if (kind == 4 && j + 1 == m) { path = ""; t = malformed(r); size_t p = t.find("\r\n"); t.insert(p + 2, "X-Id: " + x + "\r\n"); bad = true; w.kind = "bad"; w.resource = "?"; code = cb ? 491 : 400; }
            else { path = "/good/deep"; w.kind = "good"; w.resource = path; code = 200; }
            w.original = path; if (t.empty()) { t = "GET " + path + q + " HTTP/1.1\r\nX-Id: " + x + "\r\n\r\n"; want[x] = w; }
            text += t; exp.push_back(std::make_pair(code, w.kind)); h = mix64(h ^ hs(t.substr(0, 200)));
        }
        size_t before; { std::lock_guard<std::mutex> l(log->mu); before = 0; for (auto& x : log->v) before += x.kind == "bad"; }
        net::send_pieces(k, text, r);
        for (size_t j = 0; j < exp.size(); ++j) {
            net::Response a; std::string y = net::read_response(k, a, false, 25), d = "request " + std::to_string(j + 1) + " of " + std::to_string(exp.size()) + " (" + exp[j].second + ")";
            if (y == "timeout") { c.hang("custom-response-missing", d); bail(); }
            if (bad && ((j + 1 == exp.size() && y == "eof") || k.err)) { c.count("malformed_closed"); break; }
            CHECK(c, y.empty(), "custom-response", d + ": " + y); CHECK(c, a.status == exp[j].first, "custom-status", d + ": " + std::to_string(a.status) + " instead of " + std::to_string(exp[j].first));
            if (a.status % 100 > 90) { CHECK(c, a.body == exp[j].second && a.message == "Custom", "custom-body", d + ": " + show(a.body)); c.count("custom_" + exp[j].second); }
        }
        if (bad) {
            if (!k.drain(25)) { c.hang("custom-not-closed", "connection left open after a malformed request"); bail(); }
            std::lock_guard<std::mutex> l(log->mu); size_t after = 0; for (auto& x : log->v) after += x.kind == "bad";
            CHECK(c, after - before == (cb ? 1u : 0u), "bad-request-calls", std::to_string(after - before) + " calls of the handler for malformed requests");
        }
    }
    if (!wait_until([&] { return e.srv->get_connections() == 0; }, 20)) { c.hang("connections-left", std::to_string(e.srv->get_connections()) + " connections reported after all clients ended"); bail(); }
    {
        std::lock_guard<std::mutex> l(log->mu); std::map<std::string, int> seen, booms;
        for (auto& x : log->v) {
            if (x.kind == "bad") { CHECK(c, !want.count(x.id), "bad-request-for-good", x.id); continue; }
            CHECK(c, want.count(x.id), "unknown-request", x.kind + " " + x.id); Want& w = want[x.id];
            if (x.kind == "boom") { CHECK(c, w.boom, "wrong-handler", x.id + " went to boom"); ++booms[x.id]; continue; }
            ++seen[x.id]; std::string d = x.kind + " handler: " + x.resource + " (from " + x.original + "), expected " + w.kind + " " + w.resource + " " + show(x.text);
            CHECK(c, x.kind == w.kind && (w.resource == "?" || x.resource == w.resource) && x.original == w.original, "wrong-handler", d);
            CHECK(c, w.text.empty() || x.text.find(w.text) != std::string::npos, "error-text", d);
        }
        for (auto& kv : want) {
            bool logged = kv.second.kind == "good" || (kv.second.kind == "missing" && cn) || (kv.second.kind == "error" && ce);
            CHECK(c, seen[kv.first] == (logged ? 1 : 0), "handler-calls", kv.second.kind + " handler called " + std::to_string(seen[kv.first]) + " times"); CHECK(c, booms[kv.first] == (kv.second.boom ? 1 : 0), "handler-calls", "throwing handler called " + std::to_string(booms[kv.first]) + " times");
        }
    }
    c.count("custom_rounds"); c.distinct(h); if (e.tls) c.count("tls_rounds");
    e.end(c);
}

// ---------------------------------------------------------------- P25
struct WriteOp { int kind; std::string data; };
static std::vector<WriteOp> write_ops(Rng& r, size_t maxn) {
    std::vector<WriteOp> v(r.range(0, (int64_t)maxn));
    for (size_t i = 0; i < v.size(); ++i) {
        v[i].kind = (int)r.below(6);
        v[i].data = r.chance(10) ? "" : r.chance(15) ? r.bytes(r.range(1000, 30000)) : r.bytes(r.range(1, 50));
        if (r.chance(15) && !v[i].data.empty()) v[i].data[0] = '\0';
    }
    return v;
}
// applies the writes to a writer; referenced data must live on in keep
template <class W> static std::string apply_ops(W& w, const std::vector<WriteOp>& v, std::list<std::string>& keep) {
    std::string all;
    for (size_t i = 0; i < v.size(); ++i) {
        const std::string& d = v[i].data;
        switch (v[i].kind) {
        case 0: w << d; all += d; break;
        case 1: w->write(d.data(), d.size()); all += d; break;
        case 2: keep.push_back(d); w->write_no_copy(keep.back()); all += d; break;
        case 3: keep.push_back(d); w->write_no_copy(&keep.back()[0], keep.back().size()); all += d; break;
        case 4: w << (int)(i * 7919) << ' ' << 'x'; all += std::to_string(i * 7919) + " x"; break;
        default: { std::string copy = d; w->write(copy); copy.assign(copy.size(), '#'); all += d; break; }
        }
    }
    return all;
}
struct Plan { std::vector<std::vector<WriteOp> > blocks; int mode; int status; std::string expect; bool with_message; std::string msg_content; bool message_is_request; };
static Plan make_plan(Rng& r) {
    Plan p; p.mode = (int)r.below(4);          // 0 send, 1 send(handler), 2 chunks + final, 3 final chunk only
    p.status = r.chance(80) ? 200 : r.chance(50) ? 204 : 304;
    p.with_message = r.chance(25);
    if (p.with_message) { p.msg_content = r.bytes(r.range(0, 300)); if (!p.msg_content.empty() && r.chance(40)) p.msg_content[0] = '\0'; }
    int nb = p.mode == 2 ? (int)r.range(1, 6) : 1;
    for (int i = 0; i < nb; ++i) p.blocks.push_back(write_ops(r, 6));
    return p;
}
template <class WP> struct Runner {
    WP w; connection_ptr conn; Plan p; size_t next; std::shared_ptr<std::list<std::string> > keep; std::function<void(bool)> done; std::string all; bool cleared;
    Runner() : next(0), keep(new std::list<std::string>), cleared(false) {}
    static void go(std::shared_ptr<Runner> j) {
        j->all = j->p.with_message ? j->p.msg_content : "";
        if (j->p.mode == 2) { block(j, boost::system::error_code()); return; }
        j->all += apply_ops(j->w, j->p.blocks[0], *j->keep);
        if (j->p.mode == 0) { WP w = j->w; w->send(); }
        else if (j->p.mode == 1) j->w->send([j](const boost::system::error_code& e, std::size_t) { j->done(!e); });
        else j->w->send_final_chunk([j](const boost::system::error_code& e, std::size_t) { j->done(!e); });
    }
    static void block(std::shared_ptr<Runner> j, const boost::system::error_code& e) {
        if (e) { j->done(false); return; }
        if (j->next > 0) j->w->clear();
        if (j->next < j->p.blocks.size()) {
            j->all += apply_ops(j->w, j->p.blocks[j->next++], *j->keep);
            j->w->send_chunk([j](const boost::system::error_code& e2, std::size_t) { block(j, e2); });
        } else j->w->send_final_chunk([j](const boost::system::error_code& e2, std::size_t) { j->done(!e2); });
    }
};
SCENARIO("P25", "responses", 500, 5000) {
    Rng& r = c.rng;
    Env e(r, 15, 4);
    std::vector<Plan> plans(r.range(1, 6)); for (size_t i = 0; i < plans.size(); ++i) plans[i] = make_plan(r);
    std::mutex mu; std::map<int, std::string> written;
    e.srv->add_resource("/w", [&](const request_ptr& q, const connection_ptr& conn) {
        int i = atoi(q->get_query("i").c_str());
        typedef Runner<response_writer_ptr> R; std::shared_ptr<R> j(new R);
        j->p = plans[i]; j->conn = conn;
        std::shared_ptr<std::list<std::string> > keep = j->keep;     // referenced data lives until the message is sent
        std::function<void()> fin = [conn, keep] { conn->finish(); };
        if (j->p.with_message) {
            pion::http::response_ptr rp(new pion::http::response(*q)); rp->set_content(j->p.msg_content);
            j->w = response_writer::create(conn, rp, [fin](const boost::system::error_code&) { fin(); });
        } else j->w = response_writer::create(conn, *q, [fin](const boost::system::error_code&) { fin(); });
        j->done = [fin](bool) { fin(); };
        j->w->get_response().set_status_code((unsigned)j->p.status);
        // what will be written is known beforehand: compute it into the book first
        { std::list<std::string> k2; std::string all = j->p.with_message ? j->p.msg_content : ""; struct Dry { std::string s; } ; (void)sizeof(Dry);
          for (size_t b = 0; b < j->p.blocks.size(); ++b) for (size_t o = 0; o < j->p.blocks[b].size(); ++o) all += j->p.blocks[b][o].kind == 4 ? std::to_string(o * 7919) + " x" : j->p.blocks[b][o].data;
          std::lock_guard<std::mutex> l(mu); written[i] = all; }
        R::go(j);
    });
    e.start();
    net::Client k; CHECK(c, k.connect(e.port, e.tls), "connect-refused", "HTTP server");
    for (size_t i = 0; i < plans.size(); ++i) {
        bool head = r.chance(15), v10 = i + 1 == plans.size() && r.chance(40);
        // without length or chunks the end is the connection's: only the last may be like that
        if (v10 || i + 1 == plans.size()) {} 
        std::string t = std::string(head ? "HEAD" : "GET") + " /w?i=" + std::to_string(i) + " HTTP/1." + (v10 ? "0" : "1") + "\r\nHost: a\r\n" + (i + 1 == plans.size() && !v10 ? "Connection: close\r\n" : "") + "\r\n";
        k.send(t);
        net::Response p; std::string x = net::read_response(k, p, head, 25);
        std::string d = "plan " + std::to_string(i) + " mode " + std::to_string(plans[i].mode) + (v10 ? " HTTP/1.0" : "") + (head ? " HEAD" : "") + " status " + std::to_string(plans[i].status);
        if (x == "timeout") { c.hang("response-incomplete", d); bail(); }
        CHECK(c, x.empty(), "response-framing", d + ": " + x);
        CHECK(c, p.status == plans[i].status, "response-status", d + ": " + std::to_string(p.status));
        std::string want; { std::lock_guard<std::mutex> l(mu); want = written[(int)i]; }
        bool none = head || plans[i].status != 200;
        if (none) { CHECK(c, p.body.empty(), "response-content", d + ": content in a response without content"); }
        else CHECK(c, p.body == want, "response-content", d + ": " + std::to_string(p.body.size()) + " bytes " + show(p.body.substr(0, 80)) + " instead of " + std::to_string(want.size()) + " bytes " + show(want.substr(0, 80)));
        if (!none && plans[i].mode >= 2) { CHECK(c, p.chunked == !v10, "response-chunked", d + (p.chunked ? ": chunked" : ": not chunked")); c.count("chunked_messages"); }
        if (!none && plans[i].mode < 2) CHECK(c, p.header("content-length") == std::to_string(want.size()), "response-length", d + ": length " + p.header("content-length"));
        c.count("messages_written"); c.count("bytes_written", want.size()); if (none) c.count("bodiless_messages"); if (v10) c.count("http10_messages");
        c.distinct(hs(want) ^ plans[i].mode);
    }
    if (!k.drain(25)) { c.hang("connection-open", "after the last message"); bail(); }
    CHECK(c, k.buf.empty(), "data-after-messages", show(k.buf.substr(0, 100)));
    k.close(); e.end(c);
}
// requests written to an outside server
struct RawServer {
    int ls, port;
    RawServer() { ls = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(net::addr()); if (bind(ls, (struct sockaddr*)&a, sizeof a) || listen(ls, 16)) { printf("HARNESS-ERROR listen\n"); _exit(4); } socklen_t l = sizeof a; getsockname(ls, (struct sockaddr*)&a, &l); port = ntohs(a.sin_port); }
    ~RawServer() { close(ls); }
};
SCENARIO("P25", "requests", 300, 3000) {
    Rng& r = c.rng;
    std::shared_ptr<pion::single_service_scheduler> sched(new pion::single_service_scheduler);
    sched->set_num_threads((uint32_t)r.range(1, 3)); sched->add_active_user();
    RawServer rs;
    connection_ptr conn(new connection(sched->get_io_service()));
    CHECK(c, !conn->connect(boost::asio::ip::address_v4(net::addr()), (unsigned)rs.port), "connect", "to the outside server");
    net::Client k; k.fd = ::accept(rs.ls, 0, 0);
    conn->set_lifecycle(connection::LIFECYCLE_KEEPALIVE);
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        typedef Runner<pion::http::request_writer_ptr> R; std::shared_ptr<R> j(new R);
        Plan p = make_plan(r); j->p = p; j->conn = conn;
        std::shared_ptr<std::atomic<int> > done(new std::atomic<int>(0));
        std::shared_ptr<std::list<std::string> > keep = j->keep;
        if (p.with_message) { pion::http::request_ptr q(new pion::http::request("/m")); q->set_method("POST"); q->set_content(p.msg_content); j->w = pion::http::request_writer::create(conn, q, [done, keep](const boost::system::error_code& e) { *done = e ? -1 : 1; }); }
        else { j->w = pion::http::request_writer::create(conn, [done, keep](const boost::system::error_code& e) { *done = e ? -1 : 1; }); j->w->get_request().set_method("POST"); j->w->get_request().set_resource("/m"); }
        j->done = [done](bool ok) { *done = ok ? 1 : -1; };
        std::string all = p.with_message ? p.msg_content : "";
        for (size_t b = 0; b < p.blocks.size(); ++b) for (size_t o = 0; o < p.blocks[b].size(); ++o) all += p.blocks[b][o].kind == 4 ? std::to_string(o * 7919) + " x" : p.blocks[b][o].data;
        R::go(j);
        // an independent reading of the request: as a response with the same framing
        size_t e0; while ((e0 = k.buf.find("\r\n")) == std::string::npos) if (k.fill(25) != 1) { c.hang("request-incomplete", "no request line"); bail(); }
        std::string line = k.take(e0 + 2); line.resize(e0);
        CHECK(c, line == "POST /m HTTP/1.1", "request-line", show(line));
        k.buf = "HTTP/1.1 200 OK\r\n" + k.buf;
        net::Response a; std::string x = net::read_response(k, a, false, 25);
        std::string d = "request mode " + std::to_string(p.mode);
        if (x == "timeout") { c.hang("request-incomplete", d); bail(); }
        CHECK(c, x.empty(), "request-framing", d + ": " + x);
        CHECK(c, a.body == all, "request-content", d + ": " + std::to_string(a.body.size()) + " bytes instead of " + std::to_string(all.size()));
        CHECK(c, a.chunked == (p.mode >= 2), "request-chunked", d);
        if (!wait_until([&] { return *done != 0; }, 20)) { c.hang("writer-never-finished", d); bail(); }
        CHECK(c, *done == 1 && k.buf.empty(), "request-finished", d + " reported as failed, or more bytes followed");
        c.count("requests_written"); c.distinct(hs(all) ^ 77);
    }
    conn->close(); k.close();
    sched->remove_active_user();
    if (!timed([sched] { sched->shutdown(); }, 15)) { c.hang("scheduler-never-stopped", "after writing requests"); bail(); }
}
// repeated use of one writer: nothing may pile up
SCENARIO("P25", "long_stream", 8, 40) {
    Rng& r = c.rng;
    Env e(r, 0, 2); std::atomic<int> chunks(0), total(2000 + (int)r.below(1000)); size_t piece = (size_t)r.range(200, 2000); int kind = (int)r.below(3);
    std::atomic<size_t> at_start(0), at_end(0);
    struct L { response_writer_ptr w; connection_ptr conn; std::string data; };
    std::function<void(std::shared_ptr<L>, const boost::system::error_code&)> step;
    step = [&](std::shared_ptr<L> l, const boost::system::error_code& ec) {
        int i = ++chunks;
#ifndef VH_TSAN
        if (i == 200) at_start = __sanitizer_get_current_allocated_bytes();
        if (i == total - 5) at_end = __sanitizer_get_current_allocated_bytes();
#endif
        if (ec) { l->conn->set_lifecycle(connection::LIFECYCLE_CLOSE); l->conn->finish(); return; }
        l->w->clear();
        if (i < total) {
            if (kind == 0) l->w->write(l->data.data(), l->data.size()); else if (kind == 1) l->w << l->data; else l->w->write_no_copy(l->data);
            l->w->send_chunk([&, l](const boost::system::error_code& e2, std::size_t) { step(l, e2); });
        } else l->w->send_final_chunk([l](const boost::system::error_code&, std::size_t) { l->conn->finish(); });
    };
    e.srv->add_resource("/l", [&](const request_ptr& q, const connection_ptr& conn) {
        std::shared_ptr<L> l(new L); l->conn = conn; l->data = std::string(piece, 'd'); l->w = response_writer::create(conn, *q);
        step(l, boost::system::error_code());
    });
    e.start();
    net::Client k; CHECK(c, k.connect(e.port), "connect-refused", "HTTP server");
    k.send("GET /l HTTP/1.1\r\nConnection: close\r\n\r\n");
    // read without keeping the content
    uint64_t got = 0; double t0 = now();
    while (now() - t0 < 60) { int f = k.fill(20); if (f < 0) { c.hang("stream-stuck", "long chunked response"); bail(); } if (f == 0) break; got += k.buf.size(); k.buf.clear(); }
    CHECK(c, chunks == total && got > (uint64_t)(total - 1) * piece, "stream-incomplete", std::to_string(got) + " bytes");
    c.count("long_streams"); c.count("stream_chunks", chunks);
    if (at_start && at_end && at_end > at_start + (size_t)total * piece / 4) { c.fail("writer-memory-grows", std::to_string(at_end - at_start) + " more bytes allocated after " + std::to_string(total - 200) + " chunks of " + std::to_string(piece) + " (kind " + std::to_string(kind) + ")"); return; }
    c.distinct(mix64(r()));
    k.close(); e.end(c);
}
int main(int argc, char **argv) { G().bail_on_fail = true; return run(argc, argv, 120, 170); }
