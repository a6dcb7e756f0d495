// P39: HTTP clients built on the library, and the readers both sides use.
#include "vh.hpp"
#include "httpenv.hpp"
#include "httpgen.hpp"
#include <pion/http/request_reader.hpp>
#include <pion/http/response_reader.hpp>
#include <pion/http/request_writer.hpp>
using namespace hg;
static pairs_t headers_of(pion::http::message& m) { return sorted(m.get_headers()); }
static SSL_CTX *server_ctx() {
    static SSL_CTX *x = 0;
    if (!x) { x = SSL_CTX_new(TLS_server_method()); SSL_CTX_use_certificate_file(x, net::pem().c_str(), SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(x, net::pem().c_str(), SSL_FILETYPE_PEM); }
    return x;
}
struct Listener {
    int fd, port;
    Listener() {
        fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(net::addr());
        socklen_t l = sizeof a;
        if (bind(fd, (struct sockaddr*)&a, sizeof a) || listen(fd, 16) || getsockname(fd, (struct sockaddr*)&a, &l)) { printf("HARNESS-ERROR listen\n"); fflush(stdout); _exit(4); }
        port = ntohs(a.sin_port);
    }
    ~Listener() { ::close(fd); }
    // adopts the next connection
    std::string accept(net::Client& k, bool tls) {
        struct pollfd p = { fd, POLLIN, 0 };
        if (poll(&p, 1, 20000) != 1) return "no connection arrived";
        k.fd = ::accept(fd, 0, 0); int one = 1; setsockopt(k.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        struct timeval tv = { 30, 0 }; setsockopt(k.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(k.fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
        if (tls) { k.ssl = SSL_new(server_ctx()); SSL_set_fd(k.ssl, k.fd); if (SSL_accept(k.ssl) != 1) return "TLS handshake failed"; }
        return "";
    }
};
// an independent reading of one request
struct GotReq { std::string line, body; pairs_t h; bool chunked; std::string get(const std::string& k) const { for (auto& kv : h) if (kv.first == k) return kv.second; return ""; } };
static std::string read_request(net::Client& k, GotReq& q) {
    size_t e;
    while ((e = k.buf.find("\r\n\r\n")) == std::string::npos) { int f = k.fill(20); if (f == 0) return "connection ended inside a request"; if (f < 0) return "timeout"; }
    std::string hd = k.take(e + 4); hd.resize(e + 2); size_t p = hd.find("\r\n"); q.line = hd.substr(0, p); q.h.clear(); q.body.clear(); q.chunked = false;
    for (p += 2; p < hd.size();) { size_t n = hd.find("\r\n", p), s = hd.find(": ", p); if (s == std::string::npos || s > n) return "bad header line " + show(hd.substr(p, n - p)); q.h.push_back(std::make_pair(lower(hd.substr(p, s - p)), hd.substr(s + 2, n - s - 2))); p = n + 2; }
    if (lower(q.get("transfer-encoding")) == "chunked") {
        q.chunked = true;
        for (;;) {
            while ((e = k.buf.find("\r\n")) == std::string::npos) { int f = k.fill(20); if (f != 1) return f ? "timeout" : "connection ended inside a chunk"; }
            size_t n = strtoul(k.take(e + 2).c_str(), 0, 16); if (!k.need(n + 2)) return "chunk incomplete";
            std::string d = k.take(n + 2); if (d.compare(n, 2, "\r\n")) return "chunk not ended"; if (!n) return ""; q.body.append(d, 0, n);
        }
    }
    std::string cl = q.get("content-length"); size_t n = cl.empty() ? 0 : strtoul(cl.c_str(), 0, 10);
    if (n) { if (!k.need(n)) return "content incomplete"; q.body = k.take(n); }
    return "";
}
// one request to send
struct Ask { int how; std::string method, resource, query, body, xid; std::vector<std::string> parts; };
static Ask make_ask(Rng& r, const std::string& method, int i) {
    Ask a; a.how = (int)r.below(4); a.method = method; a.resource = "/r" + std::to_string(i) + r.from("abcXYZ/-._~", r.below(20)); if (r.chance(40)) a.query = "q=" + r.from("abc123", r.below(9));
    a.xid = std::to_string(i) + "-" + r.from("abcdef", 5); if (method == "HEAD") { a.how = 0; return a; }
    size_t n = r.chance(15) ? 0 : r.chance(15) ? r.below(60000) : r.below(200); a.body = r.bytes(n);
    for (size_t o = 0; o < n;) { size_t m = 1 + r.below(n - o); a.parts.push_back(a.body.substr(o, m)); o += m; }
    return a;
}
// what the client saw of one response
struct Seen {
    int finished, headers, after; boost::system::error_code ec; bool valid, same; unsigned code; std::string reason, body, payload; pairs_t h, h1; unsigned code1; std::string reason1; unsigned vmaj, vmin; bool keep, pipelined; std::string who;
    Seen() : finished(0), headers(0), after(0), valid(false), same(true), code(0), code1(0), vmaj(0), vmin(0), keep(false), pipelined(false) {}
};
struct Cli : boost::enable_shared_from_this<Cli> {
    boost::asio::io_service& io; connection_ptr conn; std::vector<Ask> asks; std::vector<Msg> exp; bool lockstep, use_payload; uint32_t timeout; Rng r;
    std::mutex mu; std::vector<Seen> seen; std::vector<boost::weak_ptr<void> > alive; bool done; std::string err; size_t next_send, next_read; std::vector<std::shared_ptr<std::string> > hold;
    Cli(boost::asio::io_service& i, uint64_t seed) : io(i), lockstep(false), use_payload(false), timeout(10), r(seed), done(false), next_send(0), next_read(0) {}
    typedef boost::shared_ptr<Cli> P;
    void finish(const std::string& e) { std::lock_guard<std::mutex> l(mu); if (err.empty()) err = e; done = true; }
    bool is_done() { std::lock_guard<std::mutex> l(mu); return done; }
    void send() {
        P self = shared_from_this();
        if (next_send >= asks.size()) { receive(); return; }
        Ask& a = asks[next_send]; size_t i = next_send++;
        conn->set_lifecycle(connection::LIFECYCLE_KEEPALIVE);
        std::shared_ptr<std::atomic<int> > once(new std::atomic<int>(0));
        boost::function1<void, const boost::system::error_code&> sent = [self, i, once](const boost::system::error_code& ec) { if ((*once)++) { self->finish("a request was reported as sent twice"); return; } self->sent(ec); };
        if (a.how == 0 || a.how == 3) {
            pion::http::request_ptr q(new pion::http::request); fill(*q, a); if (!a.body.empty()) q->set_content(a.body);
            if (a.how == 3) { boost::system::error_code ec; q->send(*conn, ec); io.post([self, ec] { self->sent(ec); }); return; }
            pion::http::request_writer_ptr w(pion::http::request_writer::create(conn, q, sent)); w->send();
        } else if (a.how == 1) {
            pion::http::request_writer_ptr w(pion::http::request_writer::create(conn, sent)); fill(w->get_request(), a);
            for (auto& s : a.parts) { std::shared_ptr<std::string> keep(new std::string(s)); hold.push_back(keep); if (r.chance(50)) w->write((const void*)keep->data(), keep->size()); else w->write_no_copy((void*)keep->data(), keep->size()); }
            w->send();
        } else {
            pion::http::request_writer_ptr w(pion::http::request_writer::create(conn)); fill(w->get_request(), a); chunk(w, i, 0);
        }
    }
    void chunk(pion::http::request_writer_ptr w, size_t i, size_t k) {
        P self = shared_from_this(); Ask& a = asks[i];
        if (k < a.parts.size()) { w->write((const void*)a.parts[k].data(), a.parts[k].size()); w->send_chunk([self, w, i, k](const boost::system::error_code& ec, std::size_t) { if (ec) { self->sent(ec); return; } w->clear(); self->chunk(w, i, k + 1); }); }
        else w->send_final_chunk([self](const boost::system::error_code& ec, std::size_t) { self->sent(ec); });
    }
    void fill(pion::http::request& q, const Ask& a) { q.set_method(a.method); q.set_resource(a.resource); if (!a.query.empty()) q.set_query_string(a.query); q.add_header("X-Id", a.xid); }
    void sent(const boost::system::error_code& ec) { if (ec) { finish("sending failed: " + ec.message()); return; } if (lockstep) receive(); else send(); }
    void receive() {
        P self = shared_from_this(); size_t i = next_read++;
        if (i >= exp.size()) { finish(""); return; }
        { std::lock_guard<std::mutex> l(mu); seen.push_back(Seen()); }
        pion::http::request q(asks[i].resource); q.set_method(exp[i].request_method);
        pion::http::response_reader_ptr rd(pion::http::response_reader::create(conn, q, [self, i](pion::http::response_ptr m, connection_ptr k, const boost::system::error_code& ec) { self->got(i, m, k, ec); }));
        pion::http::response_reader::finished_handler_t hc = [self, i](pion::http::response_ptr m, connection_ptr, const boost::system::error_code&) {
            std::lock_guard<std::mutex> l(self->mu); Seen& s = self->seen[i]; if (s.finished) ++s.after; ++s.headers; s.code1 = m->get_status_code(); s.reason1 = m->get_status_message(); s.h1 = headers_of(*m); s.who = std::to_string((size_t)m.get());
        };
        rd->set_headers_parsed_callback(hc);
        if (use_payload) { pion::http::parser::payload_handler_t ph = [self, i](const char *p, std::size_t n) { std::lock_guard<std::mutex> l(self->mu); self->seen[i].payload.append(p, n); }; rd->set_payload_handler(ph); }
        rd->set_timeout(timeout);
        { std::lock_guard<std::mutex> l(mu); alive.push_back(boost::weak_ptr<void>(rd)); }
        rd->receive();
    }
    void got(size_t i, pion::http::response_ptr m, connection_ptr k, const boost::system::error_code& ec) {
        bool go;
        {
            std::lock_guard<std::mutex> l(mu); Seen& s = seen[i]; if (s.finished++) return;
            s.ec = ec; s.valid = m->is_valid(); s.code = m->get_status_code(); s.reason = m->get_status_message(); s.h = headers_of(*m); s.vmaj = m->get_version_major(); s.vmin = m->get_version_minor();
            s.body = use_payload ? s.payload : std::string(m->get_content() ? m->get_content() : "", m->get_content() ? m->get_content_length() : 0);
            s.keep = k->get_keep_alive(); s.pipelined = k->get_pipelined(); s.same = k == conn && (s.headers == 0 || s.who == std::to_string((size_t)m.get()));
            go = !ec && s.keep && i + 1 < exp.size();
        }
        if (!go) { finish(""); return; }
        if (lockstep) send(); else receive();
    }
};
SCENARIO("P39", "client", 420, 5000) {
    Rng& r = c.rng; bool tls = r.chance(20); size_t n = 1 + r.below(5); int threads = (int)r.range(1, 3);
    boost::asio::io_service io; std::shared_ptr<boost::asio::io_service::work> work(new boost::asio::io_service::work(io));
    boost::shared_ptr<Cli> cl(new Cli(io, r.next())); cl->lockstep = r.chance(50); cl->use_payload = r.chance(20);
    std::vector<std::string> wires; std::vector<size_t> start; std::string all;
    for (size_t i = 0; i < n; ++i) {
        Opt o; o.allow_eof = i + 1 == n; o.max_body = r.chance(20) ? 40000 : 500; Msg m = gen(r, false, o); bool last = i + 1 == n;
        pairs_t h; for (auto& kv : m.headers) if (lower(kv.first) != "connection") h.push_back(kv); m.headers.swap(h);
        if (!last) m.vmin = 1;
        if (r.chance(30)) m.headers.push_back(std::make_pair(r.chance(80) ? "Connection" : "connection", last && r.chance(50) ? r.chance(50) ? "close" : "Close" : "Keep-Alive"));
        if (m.kind == B_NONE) { std::string nothing; render(r, m); m.tail.clear(); } else render(r, m);
        cl->exp.push_back(m); start.push_back(all.size()); wires.push_back(m.wire()); all += m.wire();
        cl->asks.push_back(make_ask(r, m.request_method == "HEAD" ? "HEAD" : r.chance(50) ? "GET" : "POST", (int)i));
    }
    // how the last response ends: complete, cut off by the end of the stream, by a reset, by silence, or not HTTP
    Msg& z = cl->exp[n - 1]; int end = (int)r.below(8); size_t have = wires[n - 1].size(); bool broken = false; std::string tailtext;
    enum { FULL, CUT, RESET, SILENT, GARBAGE } how = end < 4 ? FULL : end == 4 ? CUT : end == 5 ? RESET : end == 6 ? (r.chance(12) ? SILENT : CUT) : GARBAGE;
    if (how == RESET && (tls || all.size() > 30000)) how = CUT;      // what is in flight is lost with a reset
    if (how == CUT || how == RESET || how == SILENT) {
        have = r.below(wires[n - 1].size()); broken = true; tailtext = wires[n - 1].substr(0, have);
        if (z.kind == B_EOF && have >= z.head.size()) { if (how == RESET) how = CUT; if (how == CUT) broken = false; }
    } else if (how == GARBAGE) {
        broken = true; static const char *bad[] = { "HTTQ/1.1 200 OK\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "HTTP/x.1 200 OK\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5x\r\n\r\nabcde", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcde\r\n0\r\n\r\n", "\x01\x02\x03\x04 \r\n\r\n", "HTTP/1.1 12345 OK\r\n\r\n" };
        tailtext = bad[r.below(9)]; z.request_method = "GET"; if (cl->asks[n - 1].method == "HEAD") cl->asks[n - 1].method = "GET";
    } else tailtext = wires[n - 1];
    if (how == SILENT) cl->timeout = 1; else cl->timeout = r.chance(30) ? 0 : 30;
    Listener ls; uint64_t ss = r.next(); std::atomic<int> left(1); std::string serr; bool hostname = r.chance(20), acon = r.chance(40); int lead = (int)r.below(3); size_t up = 0; for (auto& a : cl->asks) up += a.body.size(); if (up + all.size() > 60000) lead = 1;
    std::vector<GotReq> reqs(n); std::atomic<int> stop(0);
    boost::thread t([&] {
        Rng q(ss); net::Client k; serr = ls.accept(k, tls);
        // responses are sent as soon as their request is in (lead 0), or when all requests are in
        bool lock = cl->lockstep; std::string pending;
        for (size_t i = 0; i < n && serr.empty(); ++i) {
            serr = read_request(k, reqs[i]); if (!serr.empty()) { serr += " (request " + std::to_string(i) + ")"; break; }
            std::string w = i + 1 == n ? tailtext : wires[i];
            if (lock) {
                // at times the start of the next response comes right behind this one
                net::send_pieces(k, w, q);
            } else { pending += w; if (lead == 0 || i + 1 == n) { net::send_pieces(k, pending, q); pending.clear(); } }
        }
        if (serr.empty()) {
            if (how == RESET) { if (q.chance(50)) usleep(2000); k.close(true); }
            else if (how == SILENT) { double t0 = now(); while (!stop && now() - t0 < 20) usleep(1000); }
            else if (how == CUT || (how == FULL && z.kind == B_EOF)) { if (q.chance(50)) usleep(q.below(2000)); k.half_close(); double t0 = now(); while (!stop && now() - t0 < 20) usleep(300); }
            else { double t0 = now(); while (!stop && now() - t0 < 20) usleep(300); }
        }
        k.close(); --left;
    });
    std::vector<boost::thread*> th; for (int i = 0; i < threads; ++i) th.push_back(new boost::thread([&io] { io.run(); }));
    std::shared_ptr<boost::asio::ssl::context> sc(new boost::asio::ssl::context(boost::asio::ssl::context::sslv23));
    cl->conn.reset(tls && r.chance(50) ? new connection(io, *sc) : new connection(io, tls));
    boost::asio::ip::address addr = boost::asio::ip::address_v4(net::addr());
    auto begin = [cl, tls](const boost::system::error_code& ec) {
        if (ec) { cl->finish("connect: " + ec.message()); return; }
        if (tls) cl->conn->async_handshake_client([cl](const boost::system::error_code& e) { if (e) cl->finish("handshake: " + e.message()); else cl->send(); }); else cl->send();
    };
    if (acon) cl->conn->async_connect(addr, (unsigned)ls.port, begin);
    else {
        boost::system::error_code ec = hostname ? cl->conn->connect(addr.to_string(), (unsigned)ls.port) : cl->conn->connect(addr, (unsigned)ls.port);
        if (!ec && tls) ec = cl->conn->handshake_client();
        if (ec) { cl->finish("connect: " + ec.message()); } else { boost::shared_ptr<Cli> k = cl; io.post([k] { k->send(); }); }
    }
    std::string at = " (" + std::to_string(n) + (cl->lockstep ? " responses one by one" : " responses pipelined") + (tls ? " over TLS" : "") + ", the last " + (how == FULL ? "complete" : how == CUT ? "cut" : how == RESET ? "reset" : how == SILENT ? "silent" : "not HTTP") + " after " + std::to_string(how == GARBAGE ? tailtext.size() : have) + ")";
    if (!wait_until([&] { return cl->is_done(); }, 35)) { c.hang("response-never-delivered", "only " + std::to_string(cl->seen.size()) + " responses" + at + " in=" + show(all, 500)); bail(); }
    if (r.chance(30)) usleep(r.below(2000));
    stop = 1;
    if (!wait_until([&] { return left == 0; }, 45)) { c.hang("peer-stuck", "the scripted server" + at); bail(); }
    t.join(); cl->conn->close();
    { std::shared_ptr<boost::asio::io_service::work> w; w.swap(work); }
    bool ended = wait_until([&] { bool any = false; std::lock_guard<std::mutex> l(cl->mu); for (auto& w : cl->alive) if (!w.expired()) any = true; return !any; }, 15);
    if (!ended) { c.hang("reader-never-released", at); bail(); }
    if (!timed([&] { for (auto x : th) x->join(); }, 20)) { c.hang("client-never-idle", "asynchronous operations left" + at); bail(); }
    for (auto x : th) delete x;
    CHECK(c, cl->err.empty(), "client-failed", cl->err + at); CHECK(c, serr.empty(), "requests-received", serr + at);
    for (size_t i = 0; i < n; ++i) {
        Ask& a = cl->asks[i]; GotReq& g = reqs[i]; std::string d = "request " + std::to_string(i) + " sent way " + std::to_string(a.how) + at;
        CHECK(c, g.line == a.method + " " + a.resource + (a.query.empty() ? "" : "?" + a.query) + " HTTP/1.1", "request-line-sent", show(g.line) + " " + d);
        CHECK(c, g.get("x-id") == a.xid && g.body == a.body, "request-sent", std::to_string(g.body.size()) + " bytes instead of " + std::to_string(a.body.size()) + " " + d);
        CHECK(c, lower(g.get("connection")) != "close", "request-lifecycle", d); c.count("requests_received"); if (g.chunked) c.count("chunked_requests_received");
    }
    CHECK(c, cl->seen.size() == n, "responses-delivered", std::to_string(cl->seen.size()) + " of " + std::to_string(n) + at);
    for (size_t i = 0; i < n; ++i) {
        Seen& s = cl->seen[i]; Msg& x = cl->exp[i]; bool last = i + 1 == n, bad = last && broken; std::string d = " response " + std::to_string(i) + at + " in=" + show(last ? tailtext : wires[i], 500);
        CHECK(c, s.finished == 1, "finished-calls", "the handler was called " + std::to_string(s.finished) + " times" + d); CHECK(c, s.after == 0, "headers-after-end", d); CHECK(c, s.same, "other-message", d);
        if (bad) {
            CHECK(c, !!s.ec, "broken-response-unreported", d); CHECK(c, !s.keep, "broken-connection-kept", d);
            if (how == GARBAGE) { CHECK(c, !s.valid, "garbage-valid", d); c.count("malformed_responses_reported"); CHECK(c, s.headers <= 1, "headers-calls", d); }
            else { CHECK(c, s.headers == (have >= x.head.size() ? 1 : 0), "headers-calls", std::to_string(s.headers) + d); c.count(how == CUT ? "cut_responses_reported" : how == RESET ? "reset_responses_reported" : "silent_responses_reported"); }
            continue;
        }
        std::string body = x.body; if (last && how == CUT) { body = x.body.substr(0, have - x.head.size()); c.count("responses_ended_by_close"); }
        CHECK(c, !s.ec && s.valid, "response-failed", s.ec.message() + d);
        CHECK(c, s.headers == 1, "headers-calls", std::to_string(s.headers) + d);
        CHECK(c, s.code == x.code && s.code1 == x.code && s.reason == x.reason && s.reason1 == x.reason && (int)s.vmaj == x.vmaj && (int)s.vmin == x.vmin, "response-status", std::to_string(s.code) + " " + s.reason + d);
        pairs_t want = x.headers, full = x.headers; full.insert(full.end(), x.trailers.begin(), x.trailers.end());
        CHECK(c, s.h1 == sorted_lower(want), "headers-callback", diff_pairs(s.h1, sorted_lower(want)) + d);
        CHECK(c, s.h == sorted_lower(full), "response-headers", diff_pairs(s.h, sorted_lower(full)) + d);
        CHECK(c, s.body == body, "response-content", std::to_string(s.body.size()) + " of " + std::to_string(body.size()) + d);
        bool keep = x.vmin == 1; for (auto& kv : x.headers) if (lower(kv.first) == "connection" && lower(kv.second) == "close") keep = false;
        if (x.kind == B_EOF) keep = false;
        CHECK(c, s.keep == keep, "response-lifecycle", "kept alive " + std::to_string(s.keep) + d);
        c.count("responses_delivered"); if (s.pipelined) c.count("pipelined_responses"); if (x.kind == B_CHUNKED) c.count("chunked_responses"); if (!x.trailers.empty()) c.count("trailers"); if (x.kind == B_EOF) c.count("responses_until_close"); if (x.request_method == "HEAD") c.count("head_responses"); if (cl->use_payload) c.count("payload_handlers");
        if (tls) c.count("responses_over_tls");
    }
    c.distinct(hash_str(all, (uint64_t)how * 8 + n)); if (all.size() < 300 && c.want_sample()) c.sample(show(all) + at);
}
// ---------------------------------------------------------------- a server built on request_reader
struct GotMsg { int headers, after; std::string method, resource, query, body; pairs_t h, h1; bool same; std::string line1; GotMsg() : headers(0), after(0), same(true) {} };
struct RServer : public pion::tcp::server {
    std::mutex mu; std::vector<GotMsg> got; int failed, ended, twice; bool payload;
    RServer(pion::scheduler& s, bool tls, bool pl) : pion::tcp::server(s, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4(net::addr()), 0)), failed(0), ended(0), twice(0), payload(pl) { if (tls) set_ssl_key_file(net::pem()); }
    ~RServer() { if (is_listening()) stop(false); }
    virtual void handle_connection(const connection_ptr& c) {
        struct St { GotMsg m; int calls; size_t who; bool fin; std::string payload; St() : calls(0), who(0), fin(false) {} };
        std::shared_ptr<St> st(new St); bool pl = payload;
        pion::http::request_reader_ptr rd(pion::http::request_reader::create(c, [this, st, pl](request_ptr q, connection_ptr p, const boost::system::error_code& ec) {
            std::lock_guard<std::mutex> l(mu);
            if (st->calls++) { ++twice; return; }
            st->fin = true;
            if (ec || !q->is_valid()) { ++failed; p->set_lifecycle(connection::LIFECYCLE_CLOSE); p->finish(); return; }
            GotMsg& m = st->m; m.method = q->get_method(); m.resource = q->get_resource(); m.query = q->get_query_string(); m.h = headers_of(*q); m.same = st->who == (size_t)q.get();
            m.body = pl ? st->payload : std::string(q->get_content() ? q->get_content() : "", q->get_content() ? q->get_content_length() : 0);
            got.push_back(m);
            response_writer_ptr w(response_writer::create(p, *q, boost::bind(&connection::finish, p))); w << "n " << (got.size() - 1); w->send();
        }));
        pion::http::request_reader::finished_handler_t h = [this, st](request_ptr q, connection_ptr, const boost::system::error_code&) {
            std::lock_guard<std::mutex> l(mu); ++st->m.headers; if (st->fin) ++st->m.after; st->who = (size_t)q.get(); st->m.h1 = headers_of(*q); st->m.line1 = q->get_method() + " " + q->get_resource();
        };
        rd->set_headers_parsed_callback(h);
        if (pl) { pion::http::parser::payload_handler_t ph = [this, st](const char *b, std::size_t n) { std::lock_guard<std::mutex> l(mu); st->payload.append(b, n); }; rd->set_payload_handler(ph); }
        rd->receive();
    }
};
SCENARIO("P39", "server", 260, 3000) {
    Rng& r = c.rng; bool tls = r.chance(15), pl = r.chance(20);
    std::shared_ptr<pion::single_service_scheduler> sched(new pion::single_service_scheduler); sched->set_num_threads((uint32_t)r.range(1, 3));
    std::shared_ptr<RServer> srv(new RServer(*sched, tls, pl)); srv->start(); int port = (int)srv->get_port();
    size_t n = 1 + r.below(5); std::vector<Msg> ms; std::string all; bool open = true;
    for (size_t i = 0; i < n; ++i) {
        Opt o; o.max_body = r.chance(20) ? 40000 : 500; Msg m = gen(r, true, o); if (m.method == "HEAD") m.method = "GET";
        pairs_t h; for (auto& kv : m.headers) if (lower(kv.first) != "connection") h.push_back(kv); m.headers.swap(h); m.vmin = 1;
        if (i + 1 == n && r.chance(50)) { m.headers.push_back(std::make_pair("Connection", r.chance(50) ? "close" : "Close")); open = false; }
        render(r, m); ms.push_back(m); all += m.wire();
    }
    size_t cut = all.size(); Msg& z = ms[n - 1]; bool isshort = r.chance(25); if (isshort) cut = all.size() - z.wire().size() + r.below(z.wire().size());
    bool nothing = isshort && cut == all.size() - z.wire().size();
    net::Client k; CHECK(c, k.connect(port, tls), "connect", "to the server");
    std::string at = " (" + std::to_string(n) + " requests" + (tls ? " over TLS" : "") + (isshort ? ", the last cut short" : "") + ") in=" + show(all, 500);
    Rng q(r.next()); net::send_pieces(k, all.substr(0, cut), q); if (isshort || r.chance(20)) k.half_close();
    size_t full = n - (isshort ? 1 : 0); uint64_t h = 0;
    for (size_t i = 0; i < full; ++i) {
        net::Response a; std::string e = net::read_response(k, a, false, 25);
        if (e == "timeout") { c.hang("request-never-delivered", "request " + std::to_string(i) + at); bail(); }
        CHECK(c, e.empty(), "server-response", "request " + std::to_string(i) + ": " + e + at); CHECK(c, a.body == "n " + std::to_string(i), "server-order", a.body + " for " + std::to_string(i) + at);
    }
    if (isshort || !open) { if (!k.drain(25)) { c.hang("connection-left-open", at); bail(); } CHECK(c, k.buf.empty(), "more-responses", show(k.buf) + at); }
    k.close();
    if (!wait_until([&] { return srv->get_connections() == 0; }, 20)) { c.hang("connections-left", at); bail(); }
    std::vector<GotMsg> got; int failed, twice; { std::lock_guard<std::mutex> l(srv->mu); got = srv->got; failed = srv->failed; twice = srv->twice; }
    std::shared_ptr<RServer> s = srv; srv.reset(); if (!timed([s] { s->stop(false); }, 20)) { c.hang("stop-never-returned", at); bail(); } s.reset();
    if (!timed([sched] { sched->shutdown(); }, 20)) { c.hang("scheduler-never-stopped", at); bail(); }
    CHECK(c, twice == 0, "finished-calls", "a handler was called twice" + at); CHECK(c, got.size() == full, "requests-delivered", std::to_string(got.size()) + " of " + std::to_string(full) + at);
    CHECK(c, failed <= 1 && (!isshort || nothing || failed == 1), "short-request-unreported", std::to_string(failed) + " failures" + at); if (isshort) c.count("short_requests");
    for (size_t i = 0; i < full; ++i) {
        GotMsg& g = got[i]; Msg& x = ms[i]; std::string d = " request " + std::to_string(i) + at; pairs_t tr = x.headers; tr.insert(tr.end(), x.trailers.begin(), x.trailers.end());
        CHECK(c, g.headers == 1 && g.after == 0 && g.same, "headers-calls", std::to_string(g.headers) + d); CHECK(c, g.line1 == x.method + " " + x.resource && g.h1 == sorted_lower(x.headers), "headers-callback", diff_pairs(g.h1, sorted_lower(x.headers)) + d);
        CHECK(c, g.method == x.method && g.resource == x.resource && g.query == x.query && g.h == sorted_lower(tr), "request-fields", g.method + " " + show(g.resource) + d);
        CHECK(c, g.body == x.body, "request-content", std::to_string(g.body.size()) + " of " + std::to_string(x.body.size()) + d); c.count("requests_delivered"); if (x.kind == B_CHUNKED) c.count("chunked_requests"); h = mix64(h ^ hash_str(x.wire()));
    }
    c.distinct(h + cut); if (tls) c.count("tls_servers"); if (all.size() < 300 && c.want_sample()) c.sample("requests " + show(all));
}
int main(int argc, char **argv) { G().bail_on_fail = true; return run(argc, argv, 120, 150); }
