// P19 TCP server connection accounting and lifecycle, P20 TCP streams, P21 read timeouts.
#include "vh.hpp"
#include "inject.hpp"
#include "net.hpp"
#include <pion/tcp/server.hpp>
#include <pion/tcp/stream.hpp>
#include <pion/tcp/timer.hpp>
#include <pion/http/request_reader.hpp>
#include <pion/http/response_reader.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/scheduler.hpp>
using namespace vh;
using pion::tcp::connection;
using pion::tcp::connection_ptr;

// ---------------------------------------------------------------- the server under test
// Protocol: the client first sends a 4-digit number; then every command byte is one step.
//  e answer and go on   k answer and finish with keep-alive (handler is to be called again)
//  c answer and finish with close   d finish with close without answering
//  s finish with close from another thread a little later   x close the socket, then finish
struct Peer { int id; int handled, finished_keep, finished_close; bool expect; Peer() : id(-1), handled(0), finished_keep(0), finished_close(0), expect(true) {} };
struct TServer : public pion::tcp::server {
    std::mutex mu;
    std::map<const void*, std::shared_ptr<Peer> > live;     // connections between first handling and final finish
    std::vector<std::shared_ptr<Peer> > all;
    std::vector<std::string> errors;
    std::atomic<int> handled, starts, stops, sync_limit;
    bool get_calls;                                          // ask the server about itself inside the handler
    pion::scheduler *sched;
    TServer() : pion::tcp::server(boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4(net::addr()), 0)), handled(0), starts(0), stops(0), sync_limit(0), get_calls(false), sched(0) {}
    TServer(pion::scheduler& s) : pion::tcp::server(s, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4(net::addr()), 0)), handled(0), starts(0), stops(0), sync_limit(0), get_calls(false), sched(&s) {}
    ~TServer() { if (is_listening()) stop(false); }
    virtual void before_starting() { ++starts; }
    virtual void after_stopping() { ++stops; }
    void error(const std::string& e) { std::lock_guard<std::mutex> l(mu); if (errors.size() < 5) errors.push_back(e); }
    // (one finished to be kept alive is not handed over again by a server that is stopping)
    size_t live_count() { std::lock_guard<std::mutex> l(mu); size_t n = 0; for (std::map<const void*, std::shared_ptr<Peer> >::iterator i = live.begin(); i != live.end(); ++i) n += !i->second->expect; return n; }
    virtual void handle_connection(const connection_ptr& c) {
        ++handled;
        std::shared_ptr<Peer> p; bool fresh = false;
        {
            std::lock_guard<std::mutex> l(mu);
            std::shared_ptr<Peer>& q = live[c.get()];
            if (!q) { q.reset(new Peer); all.push_back(q); fresh = true; }
            if (!q->expect) { if (errors.size() < 5) errors.push_back("connection handed to its handler again without having been finished"); }
            q->expect = false; ++q->handled; p = q;
        }
        if (get_calls) { get_connections(); is_listening(); get_port(); }
        if (!c->is_open()) { /* closed by a stop in between */ }
        int lim = sync_limit;
        if (lim && p->handled >= lim) { finish(c, p, false); return; }   // finished right inside the handler
        if (fresh) read_id(c, p, std::make_shared<std::string>()); else read_cmd(c, p);
    }
    void finish(const connection_ptr& c, const std::shared_ptr<Peer>& p, bool keep) {
        {
            std::lock_guard<std::mutex> l(mu);
            if (keep) { ++p->finished_keep; p->expect = true; } else { ++p->finished_close; live.erase(c.get()); }
        }
        c->set_lifecycle(keep ? connection::LIFECYCLE_KEEPALIVE : connection::LIFECYCLE_CLOSE);
        c->finish();
        // (nothing of the server may be used from here on: it may be gone)
    }
    void read_id(const connection_ptr& c, std::shared_ptr<Peer> p, std::shared_ptr<std::string> acc) {
        c->async_read_some(boost::asio::buffer(c->get_read_buffer().data(), 4 - acc->size()), [this, c, p, acc](const boost::system::error_code& ec, std::size_t n) {
            if (ec) { finish(c, p, false); return; }
            acc->append(c->get_read_buffer().data(), n);
            if (acc->size() < 4) { read_id(c, p, acc); return; }
            { std::lock_guard<std::mutex> l(mu); p->id = atoi(acc->c_str()); }
            read_cmd(c, p);
        });
    }
    void read_cmd(const connection_ptr& c, std::shared_ptr<Peer> p) {
        c->async_read_some(boost::asio::buffer(c->get_read_buffer().data(), 1), [this, c, p](const boost::system::error_code& ec, std::size_t n) {
            if (ec || n != 1) { finish(c, p, false); return; }
            char k = c->get_read_buffer()[0];
            std::shared_ptr<std::string> ans(new std::string(1, k));
            if (k == 'd') { finish(c, p, false); return; }
            if (k == 'x') { c->close(); finish(c, p, false); return; }
            if (k == 's') {
                std::shared_ptr<boost::asio::deadline_timer> t(new boost::asio::deadline_timer(get_io_service()));
                t->expires_from_now(boost::posix_time::milliseconds(3));
                t->async_wait([this, c, p, t](const boost::system::error_code&) { finish(c, p, false); });
                return;
            }
            c->async_write(boost::asio::buffer(*ans), [this, c, p, k, ans](const boost::system::error_code& we, std::size_t) {
                if (we) { finish(c, p, false); return; }
                if (k == 'e') read_cmd(c, p); else finish(c, p, k == 'k');
            });
        });
    }
};

static std::string num4(int i) { char b[8]; snprintf(b, sizeof b, "%04d", i); return b; }

struct Expect { int id; int keeps; bool exact; std::string fail; };

// one client: random commands, then an orderly or abrupt end
static void client_script(int port, bool tls, int id, uint64_t seed, bool abrupt_ok, Expect& ex, Ctx& c) {
    Rng r(seed);
    ex.id = id; ex.keeps = 0; ex.exact = true;
    net::Client k;
    if (!k.connect(port, tls)) { ex.fail = "connect refused"; return; }
    if (abrupt_ok && r.chance(12)) { ex.exact = false; c.count("abrupt_ends"); if (r.chance(50)) k.send(num4(id).substr(0, r.below(4))); k.close(r.chance(50)); return; }
    if (!k.send(num4(id))) { ex.fail = "send failed"; return; }
    int n = (int)r.range(0, 6);
    for (int i = 0; i < n; ++i) {
        char cmd = r.chance(50) ? 'k' : 'e';
        if (abrupt_ok && r.chance(6)) { ex.exact = false; k.send(std::string(1, cmd)); k.close(r.chance(50)); c.count("abrupt_ends"); return; }
        if (!k.send(std::string(1, cmd)) || !k.need(1, 20)) { ex.fail = std::string("no answer to ") + cmd + (k.eof ? " (closed)" : " (silence)"); return; }
        if (k.take(1)[0] != cmd) { ex.fail = "wrong answer"; return; }
        if (cmd == 'k') ++ex.keeps;
        if (r.chance(10)) usleep((useconds_t)r.below(300));
    }
    char end = "cdsx"[r.below(4)];
    if (!k.send(std::string(1, end))) { ex.fail = "send failed"; return; }
    if (!k.drain(20)) { ex.fail = std::string("connection not closed after it was finished with ") + end; return; }
    if (end == 'c' && k.buf != "c" && !k.err) { ex.fail = "answer lost before close: " + show(k.buf); return; }
    if (end != 'c' && !k.buf.empty()) { ex.fail = "unexpected data"; return; }
    c.count("orderly_connections");
}

struct Sched {
    std::shared_ptr<pion::scheduler> s;
    std::shared_ptr<TServer> srv;
    std::shared_ptr<pion::scheduler> hold;
};
static void set_injection(Rng& r) {
    inj::lock_delay_pct = r.chance(50) ? (int)r.range(1, 60) : 0;
}
template <class F> static bool timed(F f, double limit) {
    std::shared_ptr<std::atomic<int> > d(new std::atomic<int>(0));
    boost::thread *t = new boost::thread([f, d] { f(); *d = 1; });
    if (!wait_until([&] { return *d == 1; }, limit)) return false;
    t->join(); delete t; return true;
}

SCENARIO("P19", "connections", 220, 2200) {
    Rng& r = c.rng;
    bool tls = r.chance(20);
    std::shared_ptr<pion::scheduler> sched;
    std::shared_ptr<TServer> srv;
    int kind = (int)r.below(3);
    if (kind == 0) srv.reset(new TServer);
    else {
        if (kind == 1) sched.reset(new pion::single_service_scheduler); else sched.reset(new pion::one_to_one_scheduler);
        sched->set_num_threads((uint32_t)r.range(1, 6));
        srv.reset(new TServer(*sched));
    }
    if (tls) srv->set_ssl_key_file(net::pem());
    srv->get_calls = r.chance(30);
    set_injection(r);
    int cycles = (int)r.range(1, 3);
    for (int cy = 0; cy < cycles; ++cy) {
        srv->all.clear();
        if (!timed([srv] { srv->start(); }, 15)) { c.hang("start-never-returned", "start()"); bail(); }
        CHECK(c, srv->is_listening(), "not-listening", "is_listening() is false after start()");
        if (r.chance(20)) srv->start();       // no effect
        int port = (int)srv->get_port();
        int n = (int)r.range(1, 14);
#ifndef VH_TSAN
        if (r.chance(30)) { static const int es[] = { EMFILE, ENFILE, ENOBUFS, ENOMEM }; inj::accept_errno = es[r.below(4)]; inj::accept_faults = (int)r.range(1, 4); c.count("accept_fault_rounds"); }
#endif
        std::vector<Expect> ex(n);
        std::vector<boost::thread*> th;
        std::atomic<int> left(n);
        bool abrupt = r.chance(60);
        for (int i = 0; i < n; ++i) {
            uint64_t s = r();
            th.push_back(new boost::thread([&, i, s] { client_script(port, tls, i, s, abrupt, ex[i], c); --left; }));
        }
        if (!wait_until([&] { return left == 0; }, 60)) { c.hang("clients-never-finished", "clients stuck"); bail(); }
        for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
        for (int i = 0; i < n; ++i) if (!ex[i].fail.empty()) {
            std::string d = "client " + std::to_string(i) + (tls ? " (tls)" : "") + ": " + ex[i].fail;
            if (ex[i].fail.find("silence") != std::string::npos || ex[i].fail.find("not closed") != std::string::npos) { c.hang("connection-stuck", d); bail(); }
            c.fail("connection-mishandled", d); return;
        }
        // every connection has been handed over once (plus once per keep-alive finish), and all are gone
        if (!wait_until([&] { return srv->get_connections() == 0 && srv->live_count() == 0; }, 15)) {
            c.hang("connections-not-zero", std::to_string(srv->get_connections()) + " connections reported, " + std::to_string(srv->live_count()) + " unfinished, after all clients ended"); bail();
        }
        {
            std::lock_guard<std::mutex> l(srv->mu);
            CHECK(c, srv->errors.empty(), "handler-called-wrongly", srv->errors[0]);
            std::map<int, int> seen;
            for (size_t i = 0; i < srv->all.size(); ++i) {
                Peer& p = *srv->all[i];
                CHECK(c, p.finished_close == 1, "finished-count", "connection finished " + std::to_string(p.finished_close) + " times");
                if (p.id >= 0) ++seen[p.id];
                if (p.id >= 0 && p.id < n && ex[p.id].exact) CHECK(c, p.handled == ex[p.id].keeps + 1, "handler-count", "client " + std::to_string(p.id) + ": handler called " + std::to_string(p.handled) + " times for " + std::to_string(ex[p.id].keeps) + " keep-alives");
                c.count("handler_calls", p.handled);
            }
            for (int i = 0; i < n; ++i) if (ex[i].exact) CHECK(c, seen[i] == 1, "connection-count", "client " + std::to_string(i) + " was handed over " + std::to_string(seen[i]) + " times");
            c.count("connections", srv->all.size());
        }
        bool wait = r.chance(50);
        if (!timed([srv, wait] { srv->stop(wait); }, 15)) { c.hang("stop-never-returned", "stop() with no connection left"); bail(); }
        CHECK(c, !srv->is_listening() && srv->get_connections() == 0, "stopped-state", "listening or connections left after stop()");
        CHECK(c, srv->starts == srv->stops, "start-stop-hooks", std::to_string(srv->starts) + " starts, " + std::to_string(srv->stops) + " stops");
        net::Client k; CHECK(c, !k.connect(port), "accepts-after-stop", "connection accepted after stop()");
        if (r.chance(20)) srv->stop(r.chance(50));
        c.count("cycles");
    }
    if (tls) c.count("tls_rounds");
    inj::off();
    c.distinct(mix64(r()));
    srv.reset();
    if (sched) { std::shared_ptr<pion::scheduler> s2 = sched; if (!timed([s2] { s2->shutdown(); }, 15)) { c.hang("scheduler-never-stopped", "scheduler shutdown after the server was stopped"); bail(); } }
}

// connections still in progress when the server is stopped
SCENARIO("P19", "stop_with_connections", 260, 2600) {
    Rng& r = c.rng;
    bool tls = r.chance(15);
    std::shared_ptr<pion::scheduler> sched;
    std::shared_ptr<TServer> srv;
    if (r.chance(40)) srv.reset(new TServer);
    else { sched.reset(new pion::single_service_scheduler); sched->set_num_threads((uint32_t)r.range(1, 5)); srv.reset(new TServer(*sched)); }
    if (tls) srv->set_ssl_key_file(net::pem());
    srv->get_calls = r.chance(30);
    if (r.chance(30)) srv->sync_limit = (int)r.range(1, 4);
    set_injection(r);
    int cycles = (int)r.range(1, 3);
    for (int cy = 0; cy < cycles; ++cy) {
        srv->all.clear();
        if (!timed([srv] { srv->start(); }, 15)) { c.hang("start-never-returned", "start()"); bail(); }
        int port = (int)srv->get_port();
        int n = (int)r.range(1, 8), state[8];
        std::vector<std::shared_ptr<net::Client> > k(n);
        for (int i = 0; i < n; ++i) {
            k[i].reset(new net::Client);
            CHECK(c, k[i]->connect(port, tls), "connect-refused", "connection refused by a running server");
            state[i] = (int)r.below(4);      // 0 nothing sent, 1 number sent, 2 answered, 3 kept alive once
            if (srv->sync_limit == 1) { if (!k[i]->drain(20)) { c.hang("connection-stuck", "connection finished inside the handler was not closed"); bail(); } state[i] = 9; continue; }
            if (state[i] >= 1) k[i]->send(num4(i));
            int rounds = state[i] >= 3 ? (int)r.range(1, 4) : 1;
            if (state[i] >= 2) for (int q = 0; q < rounds; ++q) {
                k[i]->send(state[i] == 3 ? "k" : "e");
                if (!k[i]->need(1, 20)) {
                    if (k[i]->eof && srv->sync_limit) { state[i] = 9; break; }
                    c.hang("connection-stuck", k[i]->eof ? "connection lost" : "no answer on an open connection"); bail();
                }
                k[i]->take(1);
            }
            if (state[i] == 3 && srv->sync_limit && rounds + 1 >= srv->sync_limit) { if (!k[i]->drain(20)) { c.hang("connection-stuck", "connection finished inside the handler was not closed"); bail(); } state[i] = 9; }
        }
        int open = 0; for (int i = 0; i < n; ++i) if (state[i] != 9) ++open;
        if (!wait_until([&] { return (int)srv->live_count() >= open; }, 20)) { c.hang("connections-not-handed-over", "accepted connections never reached the handler"); bail(); }
        bool wait = r.chance(50);
        std::atomic<int> returned(0);
        boost::thread st([&] { srv->stop(wait); returned = 1; });
        if (wait && open) {
            usleep((useconds_t)r.range(200, 30000));
            CHECK(c, !returned || srv->live_count() == 0, "stop-did-not-wait", "stop(true) returned with unfinished connections");
            // now let them finish, in all the ways there are
            for (int i = 0; i < n; ++i) if (state[i] != 9) {
                if (returned) CHECK(c, srv->live_count() == 0, "stop-did-not-wait", "stop(true) returned with unfinished connections");
                int how = (int)r.below(4);
                if (how == 0 || state[i] == 0) k[i]->close(r.chance(50));
                else if (how == 1) { k[i]->send("c"); if (!k[i]->drain(20)) { c.hang("connection-stuck", "finished connection not closed while stopping"); bail(); } }
                else if (how == 2) { k[i]->send("k"); if (!k[i]->drain(20)) { c.hang("connection-stuck", "kept-alive connection not closed while stopping"); bail(); } c.count("keepalive_while_stopping"); }
                else k[i]->send("s");
            }
            c.count("waiting_stops");
        }
        if (!wait_until([&] { return returned == 1; }, 20)) { c.hang("stop-never-returned", std::string("stop(") + (wait ? "true" : "false") + ") with " + std::to_string(open) + " connections"); bail(); }
        st.join();
        CHECK(c, srv->get_connections() == 0, "connections-after-stop", std::to_string(srv->get_connections()) + " connections after stop()");
        int h = srv->handled;
        for (int i = 0; i < n; ++i) if (k[i]->fd >= 0 && !k[i]->drain(10)) { c.hang("connection-open-after-stop", "client connection still open after stop() returned"); bail(); }
        CHECK(c, srv->handled == h, "handled-after-stop", "a handler was called after stop() had returned");
        CHECK(c, srv->errors.empty(), "handler-called-wrongly", srv->errors[0]);
        {
            std::lock_guard<std::mutex> l(srv->mu);
            srv->live.clear();
        }
        c.count("stops_with_connections"); c.count("connections_closed_by_stop", open);
        c.distinct(mix64(r() ^ (uint64_t)open << 50));
    }
    inj::off();
    // destruction of a running server stops it
    if (r.chance(40)) {
        srv->sync_limit = 0;
        srv->start();
        int port = (int)srv->get_port();
        net::Client k; CHECK(c, k.connect(port, tls), "connect-refused", "after restart");
        std::shared_ptr<TServer> *keep = new std::shared_ptr<TServer>(srv); srv.reset();
        if (!timed([keep] { delete keep; }, 15)) { c.hang("destructor-never-returned", "destroying a running server"); bail(); }
        if (!k.drain(10)) { c.hang("connection-open-after-stop", "client connection still open after the server was destroyed"); bail(); }
        c.count("destroyed_while_running");
    }
    srv.reset();
    if (sched) { std::shared_ptr<pion::scheduler> s2 = sched; if (!timed([s2] { s2->shutdown(); }, 15)) { c.hang("scheduler-never-stopped", "scheduler shutdown after the server was stopped"); bail(); } }
}

SCENARIO("P19", "bind_failure", 120, 1200) {
    Rng& r = c.rng;
    TServer srv;
    int s = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(net::addr());
    if (bind(s, (struct sockaddr*)&a, sizeof a) || listen(s, 5)) { printf("HARNESS-ERROR bind\n"); _exit(4); }
    socklen_t l = sizeof a; getsockname(s, (struct sockaddr*)&a, &l);
    int port = ntohs(a.sin_port);
    if (r.chance(50)) { srv.start(); net::Client k; k.connect((int)srv.get_port()); k.send("0001c"); k.drain(20); srv.stop(r.chance(50)); }
    srv.set_port((unsigned)port);
    int tries = (int)r.range(1, 3);
    for (int i = 0; i < tries; ++i) {
        bool threw = false;
        try { srv.start(); } catch (std::exception&) { threw = true; }
        CHECK(c, threw, "bind-failure-unreported", "start() succeeded on a port in use");
        CHECK(c, !srv.is_listening() && srv.get_connections() == 0, "bind-failure-state", "server claims to listen after failing to bind");
    }
    if (r.chance(30)) srv.stop();
    bool other = r.chance(50);
    if (!other) close(s); else srv.set_port(0);
    try { srv.start(); } catch (std::exception& e) {
        // another process may have taken the freed port meanwhile
        if (!other) { int s2 = socket(AF_INET, SOCK_STREAM, 0); int one = 1; setsockopt(s2, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); bool taken = bind(s2, (struct sockaddr*)&a, sizeof a) != 0 || listen(s2, 1) != 0; close(s2); if (taken) return; }
        if (other) close(s);
        c.fail("unusable-after-bind-failure", std::string("start() after a failed start: ") + e.what()); return;
    }
    net::Client k; CHECK(c, k.connect((int)srv.get_port()), "unusable-after-bind-failure", "not accepting");
    k.send("0001ec"); bool ok = k.drain(20) && k.buf == "ec";
    if (!ok) { c.hang("unusable-after-bind-failure", "connection not handled after a failed start"); bail(); }
    if (other) close(s);
    srv.stop(true);
    c.count("bind_failures", tries); c.distinct(mix64(r()));
}

// start and stop from several threads while clients come and go
// the same server with another address, port or encryption each time it is started
static bool refused(const boost::asio::ip::tcp::endpoint& ep) {
    int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(ep.port()); a.sin_addr.s_addr = htonl((uint32_t)ep.address().to_v4().to_ulong());
    bool r = ::connect(s, (struct sockaddr*)&a, sizeof a) != 0; close(s); return r;
}
SCENARIO("P19", "reconfigured", 120, 1200) {
    Rng& r = c.rng; TServer srv; srv.set_ssl_key_file(net::pem()); typedef boost::asio::ip::tcp::endpoint ep_t;
    CHECK(c, srv.get_ssl_flag(), "ssl-flag", "off after setting a key file");
    boost::asio::ip::address own = boost::asio::ip::address_v4(net::addr()), alt = boost::asio::ip::address_v4(net::addr() + (64u << 16)), want = own; int port = 0; bool tls = true; std::vector<ep_t> used;
    std::vector<int> ports;    // ports that can be had: of this process's own addresses
    for (int i = 0; i < 2; ++i) { boost::asio::io_service io; boost::asio::ip::tcp::acceptor a(io, ep_t(alt, 0)); ports.push_back(a.local_endpoint().port()); }
    int n = (int)r.range(2, 6); uint64_t h = 0;
    for (int i = 0; i < n; ++i) {
        if (r.chance(60)) { want = r.chance(50) ? own : alt; port = r.chance(40) ? 0 : ports[r.below(2)]; if (r.chance(50)) srv.set_endpoint(ep_t(want, (unsigned short)port)); else if (r.chance(50)) { srv.set_address(want); srv.set_port((unsigned)port); } else { srv.set_port((unsigned)port); srv.set_address(want); } }
        else if (r.chance(50)) { want = want == own ? alt : own; srv.set_address(want); } else if (r.chance(50)) { port = 0; srv.set_port(0); }
        if (r.chance(60)) { tls = r.chance(50); if (tls && r.chance(50)) srv.set_ssl_flag(); else srv.set_ssl_flag(tls); }
        CHECK(c, srv.get_address() == want && (int)srv.get_port() == port && srv.get_endpoint() == ep_t(want, (unsigned short)port) && srv.get_ssl_flag() == tls, "settings-not-kept", "before start " + std::to_string(i));
        try { srv.start(); } catch (std::exception& e) {
            // one of the clients of this process may have been given the port
            if (port) { c.count("ports_taken"); port = 0; srv.set_port(0); continue; }
            c.fail("restart-failed", e.what()); return;
        }
        int at = (int)srv.get_port(); ep_t now_(want, (unsigned short)at); std::string d = "start " + std::to_string(i + 1) + " of " + std::to_string(n) + " at " + want.to_string() + ":" + std::to_string(at) + (tls ? " over TLS" : "");
        CHECK(c, port == 0 ? at > 0 : at == port, "wrong-port", d + ", asked for " + std::to_string(port)); CHECK(c, srv.get_endpoint() == now_, "endpoint", d);
        for (auto& e : used) if (!(e == now_)) { if (e.port() != now_.port() || e.address() != now_.address()) CHECK(c, refused(e), "old-address-still-served", d + ", also at " + e.address().to_string() + ":" + std::to_string(e.port())); c.count("old_addresses_refused"); }
        int m = (int)r.range(1, 3);
        for (int j = 0; j < m; ++j) {
            net::Client k; k.to = want == own ? 0 : (uint32_t)want.to_v4().to_ulong();
            CHECK(c, k.connect(at, tls), "not-served-where-configured", d); k.send("0001ec");
            bool ok = k.drain(20); if (!ok) { c.hang("connection-stuck", d); bail(); } CHECK(c, k.buf == "ec", "not-served-where-configured", d + ": " + show(k.buf)); c.count("reconfigured_connections");
        }
        if (!timed([&] { srv.stop(r.chance(50)); }, 15)) { c.hang("stop-never-returned", d); bail(); }
        CHECK(c, refused(now_), "served-after-stop", d); port = at; used.push_back(now_); if (r.chance(40)) { port = 0; srv.set_port(0); }
        h = mix64(h ^ (uint64_t)tls ^ (uint64_t)(want == own) << 1 ^ (uint64_t)(port != 0) << 2);
    }
    c.count("reconfigurations", n); c.distinct(h ^ r());
}
SCENARIO("P19", "lifecycle_race", 90, 900) {
    Rng& r = c.rng;
    std::shared_ptr<pion::single_service_scheduler> sched(new pion::single_service_scheduler);
    sched->set_num_threads((uint32_t)r.range(1, 5));
    sched->add_active_user();      // the scheduler is shared with others
    std::shared_ptr<TServer> srv(new TServer(*sched));
    srv->start(); int port = (int)srv->get_port();
    set_injection(r);
    std::atomic<int> left(0), go(1), served(0), bad(0), odd(0);
    std::vector<boost::thread*> th;
    int nl = (int)r.range(1, 3), nc = (int)r.range(1, 4);
    for (int i = 0; i < nl; ++i) { ++left; uint64_t s = r(); th.push_back(new boost::thread([&, s] {
        Rng q(s);
        for (int j = 0; j < 12; ++j) {
            if (q.chance(50)) { try { srv->start(); } catch (std::exception&) {} } else srv->stop(false);
            size_t n = srv->get_connections(); if (n > 1000) ++odd;
            usleep((useconds_t)q.below(2000));
        }
        --left; })); }
    std::atomic<int> cl(nc);
    for (int i = 0; i < nc; ++i) { uint64_t s = r(); th.push_back(new boost::thread([&, s] {
        Rng q(s);
        while (go) {
            net::Client k;
            if (!k.connect(port)) { usleep(300); continue; }
            k.send("0001"); if (q.chance(50)) { k.send("e"); } k.send("c");
            if (k.drain(20)) ++served; else ++bad;
        }
        --cl; })); }
    if (!wait_until([&] { return left == 0; }, 40)) { c.hang("lifecycle-call-never-returned", "start/stop from several threads"); bail(); }
    go = 0;
    if (!timed([srv] { srv->stop(false); }, 15)) { c.hang("stop-never-returned", "final stop"); bail(); }
    if (!wait_until([&] { return cl == 0; }, 40)) { c.hang("client-stuck", "a client connection was neither served nor closed"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    inj::off();
    CHECK(c, odd == 0, "impossible-connection-count", "get_connections() returned an impossible number");
    if (bad) { c.hang("client-stuck", "a client connection was neither served nor closed"); bail(); }
    CHECK(c, !srv->is_listening(), "lifecycle-race", "listening after the last stop");
    // and it still works
    try { srv->start(); } catch (std::exception& e) { c.fail("unusable-after-lifecycle-race", e.what()); return; }
    net::Client k; CHECK(c, k.connect((int)srv->get_port()), "unusable-after-lifecycle-race", "connection refused");
    k.send("0001ec"); if (!k.drain(20) || k.buf != "ec") { c.hang("unusable-after-lifecycle-race", "connection not handled"); bail(); }
    if (!timed([srv] { srv->stop(false); }, 15)) { c.hang("stop-never-returned", "stop after restart"); bail(); }
    CHECK(c, srv->get_connections() == 0, "connections-after-stop", "connections left");
    srv.reset();
    sched->remove_active_user();
    std::shared_ptr<pion::scheduler> s2 = sched;
    if (!timed([s2] { s2->shutdown(); }, 15)) { c.hang("scheduler-never-stopped", "users left registered with the scheduler by the server"); bail(); }
    c.count("lifecycle_races"); c.count("served_in_races", served); c.distinct(mix64(r() ^ (uint64_t)served << 40));
}

// garbage, silence and disconnects during the TLS handshake
SCENARIO("P19", "tls_handshake_faults", 80, 800) {
    Rng& r = c.rng;
    std::shared_ptr<TServer> srv(new TServer);
    srv->set_ssl_key_file(net::pem());
    srv->start(); int port = (int)srv->get_port();
    int n = (int)r.range(1, 6), silent = 0;
    std::vector<std::shared_ptr<net::Client> > ks;
    for (int i = 0; i < n; ++i) {
        std::shared_ptr<net::Client> k(new net::Client);
        CHECK(c, k->connect(port), "connect-refused", "plain connect");
        int how = (int)r.below(4);
        if (how == 0) { k->send(r.bytes(r.range(1, 300))); k->half_close(); if (!k->drain(20)) { c.hang("connection-stuck", "connection with a failed handshake not closed"); bail(); } }
        else if (how == 1) k->close(r.chance(50));
        else if (how == 2) { k->send("GET / HTTP/1.1\r\n\r\n"); k->half_close(); if (!k->drain(20)) { c.hang("connection-stuck", "plain-text connection not closed"); bail(); } }
        else { ++silent; ks.push_back(k); }
        c.count("failed_handshakes");
    }
    net::Client g; CHECK(c, g.connect(port, true), "tls-refused", "proper TLS client refused after failed handshakes");
    g.send("0001ec"); if (!g.drain(20) || g.buf != "ec") { c.hang("connection-stuck", "TLS client not served"); bail(); }
    if (!wait_until([&] { return (int)srv->get_connections() == silent; }, 15)) { c.hang("connections-not-zero", std::to_string(srv->get_connections()) + " connections reported, " + std::to_string(silent) + " open"); bail(); }
    CHECK(c, srv->handled == 1, "handled-without-handshake", std::to_string(srv->handled) + " connections handled, 1 completed its handshake");
    if (!timed([srv] { srv->stop(false); }, 15)) { c.hang("stop-never-returned", "stop() during handshakes"); bail(); }
    c.distinct(mix64(r()));
}

// ---------------------------------------------------------------- P20 streams
// byte i of direction d of connection k
static inline char seq(uint64_t k, uint64_t i) { uint64_t x = (k + 1) * 0x9E3779B97F4A7C15ULL + i * 0xD1342543DE82EF95ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; return (char)x; }
static size_t wsize(Rng& r) {
    static const size_t edge[] = { 0, 1, 2, 9, 10, 11, 4096, 8180, 8181, 8182, 8183, 8189, 8190, 8191, 8192, 8193, 8194, 16381, 16382, 16383, 16384, 16385, 24573, 40000 };
    if (r.chance(55)) return r.range(0, 40);
    if (r.chance(50)) return edge[r.below(sizeof edge / sizeof *edge)];
    return r.range(0, 20000);
}
struct StreamEnd {
    std::string err; bool stuck;
    uint64_t wpos, rpos, hi; // bytes written / consumed so far / furthest read position
    StreamEnd() : stuck(false), wpos(0), rpos(0), hi(0) {}
};
// writes n bytes of the sequence through random stream operations
static void stream_write(pion::tcp::stream& st, uint64_t k, size_t n, Rng& r, StreamEnd& e, Ctx& c) {
    while (n > 0 && e.err.empty()) {
        size_t m = wsize(r); if (m > n) m = n;
        std::string d(m, 0); for (size_t i = 0; i < m; ++i) d[i] = seq(k, e.wpos + i);
        switch (r.below(4)) {
        case 0: if (m > 300) { st.write(d.data(), (std::streamsize)m); break; } for (size_t i = 0; i < m; ++i) st.put(d[i]); break;
        case 1: st.write(d.data(), (std::streamsize)m); break;
        case 2: st << d; break;
        default: if (m) { m = r.range(1, m); st.write(d.data(), (std::streamsize)m); } else st.flush(); break;
        }
        if (!st) { e.err = "writing failed on an open connection"; return; }
        e.wpos += m; n -= m; c.count("stream_writes");
        if (r.chance(10)) st.flush();
    }
    st.flush();
    if (!st && e.err.empty()) e.err = "flush failed on an open connection";
}
// consumes exactly n more bytes through random stream operations, comparing each
static void stream_read(pion::tcp::stream& st, uint64_t k, size_t n, Rng& r, StreamEnd& e, Ctx& c) {
    uint64_t end = e.rpos + n;
    while (e.rpos < end && e.err.empty()) {
        size_t left = (size_t)(end - e.rpos), m = wsize(r); if (m > left) m = left;
        uint64_t at = e.rpos; std::string got;
        switch (r.below(7)) {
        case 0: { int ch = st.get(); if (ch == EOF) { e.err = "end of stream before all data"; return; } got = std::string(1, (char)ch); break; }
        case 1: case 2: { std::string b(m, 0); st.read(&b[0], (std::streamsize)m); got = b.substr(0, (size_t)st.gcount()); if (got.size() != m) { e.err = "read " + std::to_string(got.size()) + " of " + std::to_string(m) + " bytes"; return; } break; }
        case 3: { int ch = st.peek(); if (ch == EOF) { e.err = "end of stream before all data (peek)"; return; } if ((char)ch != seq(k, e.rpos)) { e.err = "peek returned another byte than follows, at " + std::to_string(e.rpos); return; } continue; }
        case 4: {   // step back as far as the buffer must allow and read again
            if (e.rpos > e.hi) e.hi = e.rpos;
            uint64_t b = e.hi - e.rpos > 10 ? 0 : 10 - (e.hi - e.rpos); if (b > e.rpos) b = e.rpos; b = r.range(0, (int64_t)b);
            for (uint64_t i = 0; i < b; ++i) {
                if (r.chance(50)) st.unget(); else st.putback(seq(k, e.rpos - 1));
                if (!st) { e.err = "could not put back byte " + std::to_string(i + 1) + " of " + std::to_string(b) + " at " + std::to_string(e.rpos); return; }
                --e.rpos;
            }
            c.count("stream_put_backs", b); continue; }
        case 5: { std::streamsize av = st.rdbuf()->in_avail(); if (av > 0) { std::string b((size_t)av + 5, 0); std::streamsize lim = (std::streamsize)(left < b.size() ? left : b.size()); std::streamsize q = st.readsome(&b[0], lim); got = b.substr(0, (size_t)(q > 0 ? q : 0)); } else continue; break; }
        default: {
            std::string exp; for (size_t i = 0; i < left && i < 60; ++i) exp += seq(k, e.rpos + i);
            if (exp.size() < 2) continue;
            size_t q = exp.find(exp[exp.size() - 1]); char delim = exp[q];
            std::string line; std::getline(st, line, delim);
            if (!st) { e.err = "getline failed"; return; }
            got = line + delim; break; }
        }
        if (!st) { e.err = "stream failed while data was due"; return; }
        for (size_t i = 0; i < got.size(); ++i) if (got[i] != seq(k, at + i)) { e.err = "byte " + std::to_string(at + i) + " differs from what was written"; return; }
        e.rpos += got.size(); c.count("stream_reads");
    }
}
// one end of an alternating conversation; rounds[i] bytes go from side i%2 to the other
static void stream_side(pion::tcp::stream& st, int side, uint64_t conn, const std::vector<size_t>& rounds, bool closer, uint64_t seed, StreamEnd& e, Ctx& c) {
    Rng r(seed);
    for (size_t i = 0; i < rounds.size() && e.err.empty(); ++i) {
        if ((int)(i % 2) == side) stream_write(st, conn * 2 + side, rounds[i], r, e, c);
        else stream_read(st, conn * 2 + (1 - side), rounds[i], r, e, c);
    }
    if (!e.err.empty()) return;
    if (!closer) {
        // the peer closes: nothing more may come, and what was read last can still be put back
        if (st.get() != EOF) { e.err = "data after the end"; return; }
        c.count("stream_ends_seen");
        st.clear();
        uint64_t b = e.rpos < 10 ? e.rpos : 10; b = r.range(0, (int64_t)b);
        uint64_t at = e.rpos;
        for (uint64_t i = 0; i < b; ++i) { st.unget(); if (!st) { e.err = "could not put back after the end of the stream"; return; } --at; }
        for (uint64_t i = 0; i < b; ++i) { int ch = st.get(); if (ch == EOF || (char)ch != seq(conn * 2 + (1 - side), at + i)) { e.err = "byte put back after the end of the stream came back different"; return; } }
        c.count("put_backs_after_end", b);
    } else st.close();
}

SCENARIO("P20", "conversations", 500, 5000) {
    Rng& r = c.rng;
    bool tls = r.chance(25);
    std::shared_ptr<pion::single_service_scheduler> sched(new pion::single_service_scheduler);
    sched->set_num_threads((uint32_t)r.range(1, 4));
    sched->add_active_user();
    inj::lock_delay_pct = r.chance(40) ? (int)r.range(1, 60) : 0;
#ifndef VH_TSAN
    inj::spurious_pct = r.chance(60) ? (int)r.range(5, 60) : 0;
#endif
    boost::asio::io_service& io = sched->get_io_service();
    std::vector<size_t> rounds(r.range(1, 6));
    for (size_t i = 0; i < rounds.size(); ++i) { rounds[i] = r.chance(30) ? (size_t)r.range(0, 12) : r.chance(50) ? wsize(r) : (size_t)r.range(0, 120000); }
    int closer = (int)r.below(2); uint64_t conn = r.below(1000);
    if (closer != (int)((rounds.size() - 1) % 2) && r.chance(70)) closer = (int)((rounds.size() - 1) % 2);   // usually the last writer closes
    boost::asio::ip::tcp::acceptor acc(io, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4(net::addr()), 0));
    acc.listen();
    boost::asio::ip::tcp::endpoint ep = acc.local_endpoint();
    boost::asio::ssl::context sctx(boost::asio::ssl::context::sslv23), cctx(boost::asio::ssl::context::sslv23);
    sctx.use_certificate_file(net::pem(), boost::asio::ssl::context::pem); sctx.use_private_key_file(net::pem(), boost::asio::ssl::context::pem);
    StreamEnd e[2]; std::atomic<int> left(2); uint64_t s0 = r(), s1 = r();
    int how = (int)r.below(2);
    boost::thread ta([&] {
        // the accepting side: a stream of its own, or one over an existing connection
        std::shared_ptr<pion::tcp::stream> st;
        boost::system::error_code ec;
        if (tls) { st.reset(new pion::tcp::stream(io, sctx)); ec = st->accept(acc); }
        else if (how) { st.reset(new pion::tcp::stream(io)); ec = st->accept(acc); }
        else { pion::tcp::connection_ptr p(new pion::tcp::connection(io)); ec = p->accept(acc); st.reset(new pion::tcp::stream(p)); }
        if (ec) e[0].err = "accept failed: " + ec.message();
        else if (!st->is_open() || st->get_ssl_flag() != tls) e[0].err = "stream state wrong after accept";
        else if (!st->get_remote_ip().is_loopback() && !(closer == 1 && st->get_remote_ip().is_unspecified())) e[0].err = "wrong remote address";
        else stream_side(*st, 0, conn, rounds, closer == 0, s0, e[0], c);
        st->close(); st.reset(); --left;
    });
    boost::thread tb([&] {
        std::shared_ptr<pion::tcp::stream> st(tls ? new pion::tcp::stream(io, cctx) : new pion::tcp::stream(io));
        boost::system::error_code ec = how ? st->connect(ep) : st->connect(ep.address(), ep.port());
        if (ec) e[1].err = "connect failed: " + ec.message();
        else stream_side(*st, 1, conn, rounds, closer == 1, s1, e[1], c);
        st->close(); st.reset(); --left;
    });
    if (!wait_until([&] { return left == 0; }, 40)) { c.hang("stream-stuck", std::string(tls ? "TLS" : "plain") + " stream: bytes consumed " + std::to_string(e[0].rpos) + " and " + std::to_string(e[1].rpos) + ", written " + std::to_string(e[0].wpos) + " and " + std::to_string(e[1].wpos)); bail(); }
    ta.join(); tb.join();
    inj::off();
    // of two ends that fail, the first to do so is unknown: report both
    if (!e[0].err.empty() || !e[1].err.empty()) { c.fail("stream-wrong", std::string(tls ? "TLS: " : "") + "accepting side: " + e[0].err + "; connecting side: " + e[1].err); return; }
    c.count("stream_bytes", e[0].rpos + e[1].rpos); c.count("conversations"); if (tls) c.count("tls_conversations");
    uint64_t h = tls; for (size_t i = 0; i < rounds.size(); ++i) h = mix64(h ^ rounds[i]); c.distinct(h);
    if (c.want_sample()) { std::string t; for (size_t i = 0; i < rounds.size(); ++i) t += std::to_string(rounds[i]) + " "; c.sample(std::string(tls ? "TLS " : "") + "alternating blocks of " + t + "bytes"); }
    acc.close();
    sched->remove_active_user();
    if (!timed([sched] { sched->shutdown(); }, 15)) { c.hang("scheduler-never-stopped", "after stream use"); bail(); }
}

// against a peer outside the library: arbitrary pieces, early closes and resets
SCENARIO("P20", "raw_peer", 500, 5000) {
    Rng& r = c.rng;
    std::shared_ptr<pion::single_service_scheduler> sched(new pion::single_service_scheduler);
    sched->set_num_threads((uint32_t)r.range(1, 4));
    sched->add_active_user();
#ifndef VH_TSAN
    inj::spurious_pct = r.chance(60) ? (int)r.range(5, 60) : 0;
#endif
    boost::asio::io_service& io = sched->get_io_service();
    boost::asio::ip::tcp::acceptor acc(io, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4(net::addr()), 0));
    acc.listen(); int port = acc.local_endpoint().port();
    size_t nin = r.chance(30) ? (size_t)r.range(0, 30) : (size_t)r.range(0, 60000), nout = r.chance(40) ? 0 : r.chance(30) ? (size_t)r.range(0, 30) : (size_t)r.range(0, 60000);
    bool reset = r.chance(20), early = r.chance(15);
    StreamEnd e; std::atomic<int> left(1); uint64_t s0 = r();
    std::atomic<int> wrote_to_dead(0);
    boost::thread t([&] {
        Rng q(s0);
        pion::tcp::stream st(io);
        if (st.accept(acc)) e.err = "accept";
        else {
            stream_write(st, 1, nout, q, e, c);
            if (early) e.err.clear();
            if (e.err.empty()) {
                if (!reset && !early) { stream_read(st, 0, nin, q, e, c); if (e.err.empty() && st.get() != EOF) e.err = "data after the end"; }
                else { std::string all((std::istreambuf_iterator<char>(&*st.rdbuf())), std::istreambuf_iterator<char>()); for (size_t i = 0; i < all.size(); ++i) if (all[i] != seq(0, i)) { e.err = "byte " + std::to_string(i) + " differs from what was sent"; break; } if (e.err.empty() && all.size() > nin) e.err = "more bytes than sent"; }
                // writing to a peer that is gone must fail, not hang
                st.clear();
                for (int i = 0; i < 40 && st; ++i) { st << std::string(3000, 'z'); st.flush(); usleep(200); }
                if (!st) ++wrote_to_dead;
            }
        }
        st.close();
        --left;
    });
    {
        net::Client k;
        if (!k.connect(port)) { c.fail("connect-refused", "listening acceptor"); bail(); }
        std::string d(nin, 0); for (size_t i = 0; i < nin; ++i) d[i] = seq(0, i);
        if (early) { k.send(d.substr(0, nin / 2)); k.close(r.chance(50)); }
        else {
            // read what the stream writes first, then send
            if (!k.need(nout, 20)) { c.hang("stream-output-missing", std::to_string(k.buf.size()) + " of " + std::to_string(nout) + " bytes arrived"); bail(); }
            for (size_t i = 0; i < nout; ++i) if (k.buf[i] != seq(1, i)) { c.fail("stream-output-wrong", "byte " + std::to_string(i)); return; }
            CHECK(c, k.buf.size() == nout, "stream-output-wrong", "more bytes than written");
            net::send_pieces(k, d, r);
            if (reset) { if (r.chance(50)) usleep(2000); k.close(true); } else k.close();
        }
    }
    if (!wait_until([&] { return left == 0; }, 40)) { c.hang("stream-stuck", "peer " + std::string(early ? "closed early" : reset ? "reset" : "closed") + ", " + std::to_string(e.rpos) + " bytes read of " + std::to_string(nin)); bail(); }
    t.join(); inj::off();
    CHECK(c, e.err.empty(), "stream-wrong", e.err);
    c.count(reset ? "peer_resets" : early ? "peer_early_closes" : "peer_closes"); c.count("failed_writes_reported", wrote_to_dead);
    c.distinct(mix64(nin * 100003 + nout)); 
    acc.close();
    sched->remove_active_user();
    if (!timed([sched] { sched->shutdown(); }, 15)) { c.hang("scheduler-never-stopped", "after stream use"); bail(); }
}

// ---------------------------------------------------------------- P21 read timeouts
struct RServer : public pion::tcp::server {
    uint32_t timeout; bool set; std::atomic<int> requests, lost, both;
    RServer(pion::scheduler& s) : pion::tcp::server(s, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4(net::addr()), 0)), timeout(1), set(true), requests(0), lost(0), both(0) {}
    ~RServer() { if (is_listening()) stop(false); }
    virtual void handle_connection(const connection_ptr& c) {
        std::shared_ptr<std::atomic<int> > once(new std::atomic<int>(0));
        pion::http::request_reader_ptr rd(pion::http::request_reader::create(c, [this, once](pion::http::request_ptr q, pion::tcp::connection_ptr p, const boost::system::error_code& ec) {
            if ((*once)++) ++both;
            if (ec || !q->is_valid()) { ++lost; p->set_lifecycle(connection::LIFECYCLE_CLOSE); p->finish(); return; }
            ++requests;
            pion::http::response_writer_ptr w(pion::http::response_writer::create(p, *q, boost::bind(&connection::finish, p)));
            w << "got " << q->get_content_length();
            w->send();
        }));
        if (set) rd->set_timeout(timeout);
        rd->receive();
    }
};
// what one client does, with what must follow
//  steps: (delay in ms before sending, text); after the last step the client waits
struct TStep { int ms; std::string text; };
static void timeout_client(int port, bool tls, double timeout, const std::vector<TStep>& steps, bool complete, size_t answers, std::string& err, bool& suspect, bool& skipped, Ctx& c) {
    suspect = skipped = false;
    net::Client k;
    if (!k.connect(port, tls)) { err = "connect refused"; return; }
    double last = now();
    for (size_t i = 0; i < steps.size(); ++i) {
        while (now() - last < steps[i].ms * 0.001) {
            int f = k.fill(steps[i].ms * 0.001 - (now() - last));
            if (f == 0) { suspect = true; err = "connection closed " + std::to_string((int)((now() - last) * 1000)) + " ms after the last data, before the read timeout of " + std::to_string(timeout) + " s"; return; }
        }
        // the gap as the server may have seen it must be well inside the timeout for a verdict
        if (timeout > 0 && now() - last > timeout - 0.25) { skipped = true; return; }
        if (!k.send(steps[i].text)) { suspect = true; err = "connection closed while data kept arriving"; return; }
        last = now();
    }
    for (size_t a = 0; a < answers; ++a) {
        net::Response p; std::string x = net::read_response(k, p, false, 15);
        if (!x.empty()) { suspect = x == "timeout" || x == "eof"; err = "no response to a complete request whose parts came in time: " + x; return; }
        last = now();
    }
    if (timeout <= 0) { k.close(); c.count(complete ? "untimed_complete" : "untimed_stalled"); return; }
    // stalled (or idle after the answers): closed after the timeout, not before
    bool ended = k.drain(timeout + 12);
    double t = now() - last;
    if (!ended) { suspect = true; err = "connection still open " + std::to_string((int)(t * 1000)) + " ms after the last data, read timeout " + std::to_string(timeout) + " s"; return; }
    if (t < timeout - 0.02) { err = "connection closed after " + std::to_string((int)(t * 1000)) + " ms of silence, read timeout " + std::to_string(timeout) + " s"; return; }
    if (!k.buf.empty() && steps.size() && !complete) { /* an error response is allowed */ }
    c.count(steps.empty() ? "idle_timeouts" : answers ? "keepalive_timeouts" : "stalled_timeouts");
    c.count("silence_ms_total", (uint64_t)(t * 1000));
}
SCENARIO("P21", "requests", 24, 200) {
    Rng& r = c.rng;
    bool tls = r.chance(25);
    std::shared_ptr<pion::single_service_scheduler> sched(new pion::single_service_scheduler);
    sched->set_num_threads((uint32_t)r.range(1, 4));
    std::shared_ptr<RServer> srv(new RServer(*sched));
    if (tls) srv->set_ssl_key_file(net::pem());
    int kind = (int)r.below(6);      // mostly 1 s; also 2 s, none, and the built-in default (10 s)
    srv->timeout = kind < 3 ? 1 : kind == 3 ? 2 : 0; srv->set = true;
    if (c.index % 12 == 5) { srv->set = false; srv->timeout = 10; }
    double T = srv->timeout;
    srv->start(); int port = (int)srv->get_port();
    int n = 24; std::vector<std::string> err(n); std::vector<char> sus(n, 0), skip(n, 0); std::atomic<int> left(n);
    std::vector<boost::thread*> th; int expected_requests = 0, skipped = 0;
    for (int i = 0; i < n; ++i) {
        // a request, or two pipelined, cut into pieces; stalled cases stop before the end
        std::string body(r.below(30), 'b'); bool chunked = r.chance(30);
        std::string one = "POST /x HTTP/1.1\r\nHost: a\r\n" + (chunked ? std::string("Transfer-Encoding: chunked\r\n\r\n") + (body.empty() ? "" : std::to_string(0) + "" ) : "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body);
        if (chunked) { char b[16]; snprintf(b, sizeof b, "%zx", body.size()); one = "POST /x HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n" + (body.empty() ? std::string() : std::string(b) + "\r\n" + body + "\r\n") + "0\r\n\r\n"; }
        bool pipelined = r.chance(25); size_t answers = 0; bool complete = r.chance(45);
        std::string text = pipelined ? one + one : one; std::vector<TStep> st;
        size_t upto = complete ? text.size() : r.chance(25) ? 0 : (size_t)r.range(pipelined ? (int64_t)one.size() : 1, (int64_t)text.size() - 1);
        answers = upto / one.size();
        if (chunked && !complete) { /* the last line end of a chunked message is part of it */ }
        size_t o = 0; int pieces = (int)r.range(1, 6);
        int maxgap = T <= 0 ? 1400 : T < 1.5 ? 450 : 900;
        while (o < upto) {
            size_t m = pieces-- > 1 ? (size_t)r.range(1, (int64_t)(upto - o)) : upto - o;
            TStep s = { (int)r.range(0, maxgap), text.substr(o, m) }; st.push_back(s); o += m;
        }
        expected_requests += (int)answers; 
        th.push_back(new boost::thread([&, i, st, complete, answers] { bool a, b; timeout_client(port, tls, T, st, complete, answers, err[i], a, b, c); sus[i] = a; skip[i] = b; --left; }));
    }
    if (!wait_until([&] { return left == 0; }, 90)) { c.hang("timeout-clients-stuck", "clients did not finish"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; skipped += skip[i]; }
    c.count("skipped_slow_clients", skipped);
    for (int i = 0; i < n; ++i) if (!err[i].empty()) { std::string d = (tls ? "TLS: " : "") + err[i]; if (sus[i]) { c.hang("read-timeout-wrong", d); bail(); } c.fail("read-timeout-wrong", d); return; }
    CHECK(c, srv->both == 0, "reader-finished-twice", "the reader's handler was called more than once for one message");
    if (!skipped) CHECK(c, srv->requests == expected_requests, "requests-delivered", std::to_string(srv->requests) + " requests delivered of " + std::to_string(expected_requests));
    if (T > 0) { if (!wait_until([&] { return srv->get_connections() == 0; }, 15)) { c.hang("timed-out-connections-kept", std::to_string(srv->get_connections()) + " connections left after timeouts"); bail(); } }
    c.count("timeout_rounds"); if (tls) c.count("tls_rounds"); if (!srv->set) c.count("default_timeout_rounds");
    c.distinct(mix64(r()));
    if (!timed([srv] { srv->stop(false); }, 15)) { c.hang("stop-never-returned", "after timeouts"); bail(); }
    srv.reset(); if (!timed([sched] { sched->shutdown(); }, 15)) { c.hang("scheduler-never-stopped", "after timeouts"); bail(); }
}
// the timer itself: the only worker is busy while it expires, then the data that came in time is handled first
SCENARIO("P21", "late_cancel", 24, 200) {
    Rng& r = c.rng; int n = (int)r.range(2, 16);
    struct One { net::Client k; connection_ptr s; pion::tcp::timer_ptr t; bool feed, cancel; int when; std::atomic<int> first, second; One() : feed(false), cancel(false), when(0), first(0), second(0) {} };
    boost::asio::io_service io; std::vector<std::shared_ptr<One> > v; boost::asio::ip::tcp::acceptor acc(io, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4(net::addr()), 0));
    for (int i = 0; i < n; ++i) {
        std::shared_ptr<One> o(new One); o->feed = r.chance(75); o->cancel = r.chance(80); o->when = (int)r.range(50, 850);
        CHECK(c, o->k.connect(acc.local_endpoint().port()), "connect", ""); o->s.reset(new connection(io)); boost::system::error_code ec = o->s->accept(acc); CHECK(c, !ec, "accept", ec.message());
        o->t.reset(new pion::tcp::timer(o->s)); v.push_back(o);
    }
    double t0 = now(); int busy = (int)r.range(1060, 1400); std::atomic<bool> go(false);
    for (int i = 0; i < n; ++i) {
        std::shared_ptr<One> o = v[i]; o->t->start(1);
        o->s->async_read_some([o](const boost::system::error_code& ec, std::size_t) {
            if (ec) { o->first = -1; return; }
            if (o->cancel) o->t->cancel();
            o->first = 1;
            o->s->async_read_some([o](const boost::system::error_code& e2, std::size_t m) { o->second = e2 ? -1 : (int)m; });
        });
    }
    io.post([&] { go = true; double d = t0 + busy / 1000. - now(); if (d > 0) usleep((useconds_t)(d * 1e6)); });
    boost::asio::io_service::work *work = new boost::asio::io_service::work(io); boost::thread th([&] { io.run(); });
    wait_until([&] { return go == true; }, 20);
    std::vector<std::pair<int, int> > order; for (int i = 0; i < n; ++i) if (v[i]->feed) order.push_back(std::make_pair(v[i]->when, i)); std::sort(order.begin(), order.end()); bool late = false;
    for (size_t i = 0; i < order.size(); ++i) { double d = t0 + order[i].first / 1000. - now(); if (d > 0) usleep((useconds_t)(d * 1e6)); if (!v[order[i].second]->k.send("x")) late = true; if (now() - t0 > .95) late = true; }
    { double d = t0 + busy / 1000. + .25 - now(); if (d > 0) usleep((useconds_t)(d * 1e6)); }
    bool settled = wait_until([&] { for (int i = 0; i < n; ++i) if (!v[i]->first && (v[i]->feed)) return false; return true; }, 20);
    bool ended = wait_until([&] { for (int i = 0; i < n; ++i) if (!v[i]->first) return false; return true; }, 20);
    for (int i = 0; i < n; ++i) if (v[i]->first == 1 && v[i]->cancel) v[i]->k.send("y");
    bool answered = wait_until([&] { for (int i = 0; i < n; ++i) if (v[i]->first == 1 && !v[i]->second) return false; return true; }, 20);
    std::string why; int kept = 0, cut = 0;
    for (int i = 0; i < n; ++i) {
        One& o = *v[i];
        if (!o.feed && !late && o.first == 1) why = "a read without data completed";
        if (o.first == 1 && o.cancel && o.second == -1) why = "the connection was cut off although its timer had been cancelled when its data came";
        if (o.first == 1 && o.cancel && o.second > 0) ++kept;
        if (!o.feed && o.first == -1) ++cut;
    }
    delete work; for (int i = 0; i < n; ++i) { One *o = v[i].get(); io.post([o] { o->t->cancel(); boost::system::error_code e; o->s->close(); (void)e; }); }
    if (!timed([&] { th.join(); }, 20)) { c.hang("timer-never-ended", "work left after every timer was cancelled"); bail(); }
    CHECK(c, why.empty(), "timer-cut-off", why);
    if (!settled || !ended || !answered) { c.hang("timer-never-fired", std::string("an idle connection was not cut off: ") + (settled ? "" : "data not read ") + (ended ? "" : "idle read still waiting ") + (answered ? "" : "second read still waiting")); return; }
    c.count("late_cancels", kept); c.count("expired_timers", cut); c.distinct(mix64(r()));
}
// the client side: a response that stalls
SCENARIO("P21", "responses", 24, 200) {
    Rng& r = c.rng;
    std::shared_ptr<pion::single_service_scheduler> sched(new pion::single_service_scheduler);
    sched->set_num_threads((uint32_t)r.range(1, 4));
    sched->add_active_user();
    boost::asio::io_service& io = sched->get_io_service();
    int ls = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(net::addr());
    if (bind(ls, (struct sockaddr*)&a, sizeof a) || listen(ls, 64)) { printf("HARNESS-ERROR listen\n"); _exit(4); }
    socklen_t al = sizeof a; getsockname(ls, (struct sockaddr*)&a, &al); int port = ntohs(a.sin_port);
    int n = 20; std::vector<std::string> err(n); std::atomic<int> left(n); std::atomic<int> skipped(0);
    std::vector<char> sus(n, 0);
    std::vector<boost::thread*> th;
    for (int i = 0; i < n; ++i) {
        int T = (int)r.below(3);         // 0: none, 1 s, 2 s
        int form = (int)r.below(3);      // with length, chunked, until close
        std::string body = r.bytes(r.range(1, 200));
        char hx[16]; snprintf(hx, sizeof hx, "%zx", body.size());
        std::string text = form == 0 ? "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body
            : form == 1 ? "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + std::string(hx) + "\r\n" + body + "\r\n0\r\n\r\n"
            : "HTTP/1.1 200 OK\r\nServer: x\r\n\r\n" + body;
        bool complete = T == 0 || r.chance(40);
        size_t upto = complete ? text.size() : r.chance(20) ? 0 : (size_t)r.range(1, (int64_t)text.size() - (form == 2 ? 0 : 1));
        std::vector<TStep> st; size_t o = 0; int pieces = (int)r.range(1, 5); int maxgap = T == 0 ? 1300 : T == 1 ? 450 : 900;
        while (o < upto) { size_t m = pieces-- > 1 ? (size_t)r.range(1, (int64_t)(upto - o)) : upto - o; TStep s = { (int)r.range(0, maxgap), text.substr(o, m) }; st.push_back(s); o += m; }
        th.push_back(new boost::thread([&, i, T, form, complete, st, body, io_ = &io] {
            pion::tcp::connection_ptr p(new pion::tcp::connection(*io_));
            if (p->connect(boost::asio::ip::address_v4(net::addr()), (unsigned)port)) { err[i] = "connect"; --left; return; }
            int fd = accept(ls, 0, 0); (void)fd;
            // accept order may differ between threads: the peer of p is whichever matches its port
            static std::mutex am; static std::map<int, int> byport;
            int mine = -1, myport = 0;
            { struct sockaddr_in b; socklen_t bl = sizeof b; getpeername(fd, (struct sockaddr*)&b, &bl); std::lock_guard<std::mutex> l(am); byport[ntohs(b.sin_port)] = fd; }
            { struct sockaddr_in b; socklen_t bl = sizeof b; getsockname((int)p->get_socket().native_handle(), (struct sockaddr*)&b, &bl); myport = ntohs(b.sin_port); }
            if (!wait_until([&] { std::lock_guard<std::mutex> l(am); if (!byport.count(myport)) return false; mine = byport[myport]; byport.erase(myport); return true; }, 20)) { err[i] = "HARNESS"; --left; return; }
            pion::http::request q("/x");
            struct Res { std::atomic<int> calls; boost::system::error_code ec; bool valid; std::string body; double at; Res() : calls(0), valid(false), at(0) {} };
            std::shared_ptr<Res> res(new Res);
            pion::http::response_reader_ptr rd(pion::http::response_reader::create(p, q, [res](pion::http::response_ptr m, pion::tcp::connection_ptr, const boost::system::error_code& ec) {
                res->ec = ec; res->valid = m->is_valid(); res->body.assign(m->get_content() ? m->get_content() : "", m->get_content() ? m->get_content_length() : 0); res->at = now(); ++res->calls;
            }));
            rd->set_timeout((uint32_t)T);
            double last = now(); 
            rd->receive(); rd.reset();
            bool sk = false;
            for (size_t s = 0; s < st.size(); ++s) {
                while (now() - last < st[s].ms * 0.001 && !res->calls) usleep(1000);
                if (T && now() - last > T - 0.25) { sk = true; break; }
                if (res->calls) { sus[i] = 1; err[i] = "reader ended " + std::to_string((int)((now() - last) * 1000)) + " ms after the last data: " + res->ec.message() + ", timeout " + std::to_string(T); break; }
                ssize_t w = ::send(mine, st[s].text.data(), st[s].text.size(), MSG_NOSIGNAL); (void)w; last = now();
            }
            if (err[i].empty() && !sk) {
                if (complete) { if (form == 2) { usleep(50000); ::close(mine); mine = -1; } }
                bool ended = wait_until([&] { return res->calls > 0; }, T + 12);
                if (!ended && (T || complete)) { sus[i] = 1; err[i] = complete ? "complete response never delivered" : "stalled response never given up, timeout " + std::to_string(T); }
                else if (ended) {
                    usleep(2000);
                    if (res->calls != 1) err[i] = "handler called " + std::to_string(res->calls) + " times";
                    else if (complete) { if (res->ec || !res->valid || res->body != body) { sus[i] = 1; err[i] = "complete response reported as " + (res->ec ? res->ec.message() : std::string("different content")); } else c.count("slow_responses_complete"); }
                    else if (!res->ec) err[i] = std::string("a response cut off by the timeout was reported as complete (") + (form == 0 ? "with length" : form == 1 ? "chunked" : "until close") + ")";
                    else if (res->at - last < T - 0.02) err[i] = "reader gave up " + std::to_string((int)((res->at - last) * 1000)) + " ms after the last data, timeout " + std::to_string(T);
                    else c.count("stalled_responses_ended");
                }
            }
            if (sk) ++skipped;
            p->close(); if (mine >= 0) ::close(mine);
            --left;
        }));
    }
    if (!wait_until([&] { return left == 0; }, 90)) { c.hang("timeout-clients-stuck", "readers did not finish"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    close(ls); c.count("skipped_slow_clients", skipped);
    for (int i = 0; i < n; ++i) if (!err[i].empty()) { if (err[i] == "HARNESS") { printf("HARNESS-ERROR pairing\n"); _exit(4); } if (sus[i]) { c.hang("read-timeout-wrong", err[i]); bail(); } c.fail("read-timeout-wrong", err[i]); return; }
    c.distinct(mix64(r()));
    sched->remove_active_user();
    if (!timed([sched] { sched->shutdown(); }, 15)) { c.hang("scheduler-never-stopped", "after timeouts"); bail(); }
}
int main(int argc, char **argv) { G().bail_on_fail = true; return run(argc, argv, 120, 150); }
