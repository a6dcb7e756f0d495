// P41: the TCP connection object by itself: connecting, accepting, handshakes, every form of reading and writing, endings.
#include "vh.hpp"
#include "net.hpp"
#include <netdb.h>
#include <pion/config.hpp>
#include <boost/asio.hpp>
#include <boost/asio/ssl.hpp>
#include <pion/tcp/connection.hpp>
using namespace vh;
using pion::tcp::connection;
using pion::tcp::connection_ptr;
typedef boost::system::error_code EC;
typedef boost::asio::ip::tcp tcp;

// names are resolved by this stand-in: the addresses of a name are chosen by the case, so that some of them can be dead
static std::mutex nm; static std::map<std::string, std::vector<uint32_t> > names; static std::atomic<long> lookups(0);
extern "C" int getaddrinfo(const char *node, const char *service, const struct addrinfo *, struct addrinfo **res) {
    ++lookups; *res = 0; std::vector<uint32_t> a; struct in_addr x;
    { std::lock_guard<std::mutex> l(nm); std::map<std::string, std::vector<uint32_t> >::iterator i = names.find(node ? node : ""); if (i != names.end()) a = i->second; }
    if (a.empty() && node && inet_pton(AF_INET, node, &x) == 1) a.push_back(ntohl(x.s_addr));
    if (a.empty()) return EAI_NONAME;
    char *e = 0; long port = service ? strtol(service, &e, 10) : 0; if (e && (*e || e == service)) return EAI_SERVICE;
    for (size_t i = a.size(); i-- > 0; ) {
        struct addrinfo *n = (struct addrinfo*)calloc(1, sizeof *n + sizeof(struct sockaddr_in)); struct sockaddr_in *s = (struct sockaddr_in*)(n + 1);
        s->sin_family = AF_INET; s->sin_port = htons((uint16_t)port); s->sin_addr.s_addr = htonl(a[i]);
        n->ai_family = AF_INET; n->ai_socktype = SOCK_STREAM; n->ai_protocol = IPPROTO_TCP; n->ai_addrlen = sizeof *s; n->ai_addr = (struct sockaddr*)s; n->ai_next = *res; *res = n;
    }
    return 0;
}
extern "C" void freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; } }

// one asynchronous operation: how often the handler ran and what it was told
struct Op { std::atomic<int> calls; std::mutex m; EC ec; size_t n; Op() : calls(0), n(0) {} };
typedef std::shared_ptr<Op> OpP;
struct World {
    boost::asio::io_service io; std::unique_ptr<boost::asio::io_service::work> work; boost::asio::ssl::context sctx; tcp::acceptor acc; std::vector<boost::thread*> th; std::mutex em; std::string err, esig, what; std::vector<OpP> ops; std::atomic<int> failed;
    World(int threads) : work(new boost::asio::io_service::work(io)), sctx(boost::asio::ssl::context::sslv23), acc(io, tcp::endpoint(boost::asio::ip::address_v4(net::addr()), 0)), failed(0) {
        acc.listen(); sctx.use_certificate_file(net::pem(), boost::asio::ssl::context::pem); sctx.use_private_key_file(net::pem(), boost::asio::ssl::context::pem);
        for (int i = 0; i < threads; ++i) th.push_back(new boost::thread([this] { io.run(); }));
    }
    int port() { return acc.local_endpoint().port(); }
    OpP op() { OpP o(new Op); std::lock_guard<std::mutex> l(em); ops.push_back(o); return o; }
    bool done(const OpP& o, EC& ec, size_t& n) { if (!wait_until([&] { return o->calls > 0; }, 30)) { bad("handler-never-called", "an asynchronous operation did not complete" + what); return false; } std::lock_guard<std::mutex> l(o->m); ec = o->ec; n = o->n; return true; }
    void bad(const std::string& s, const std::string& d) { std::lock_guard<std::mutex> l(em); if (err.empty()) { esig = s; err = d; } failed = 1; }
    // false: the case failed
    bool finish(Ctx& c) {
        work.reset(); EC ec; acc.close(ec);
        std::atomic<int> left((int)th.size()); boost::thread w([&] { for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); --left; } });
        bool ended = wait_until([&] { return left == 0; }, 20);
        if (!err.empty()) { if (esig == "handler-never-called" || !ended) { c.hang(esig, err); bail(); } w.join(); c.fail(esig, err); return false; }
        if (!ended) { c.hang("operations-never-ended", "the service still had work after every connection was closed"); bail(); }
        w.join(); for (size_t i = 0; i < th.size(); ++i) delete th[i];
        th.clear();
        for (size_t i = 0; i < ops.size(); ++i) if (ops[i]->calls != 1) { c.fail("handler-calls", "a completion handler ran " + std::to_string(ops[i]->calls) + " times"); return false; }
        c.count("async_operations", (long)ops.size()); return true;
    }
};
struct On { OpP o; On(const OpP& p) : o(p) {} void operator()(const EC& ec, size_t n) const { { std::lock_guard<std::mutex> l(o->m); o->ec = ec; o->n = n; } ++o->calls; } void operator()(const EC& ec) const { (*this)(ec, 0); } };

static void fire(const OpP& o) { On x(o); x(EC(), 0); }
struct Fin { std::atomic<int> calls; std::atomic<const void*> last; Fin() : calls(0), last(0) {} };
static connection_ptr make(World& w, Rng& r, bool tls, bool server, std::shared_ptr<Fin> f, bool *plain = 0) {
    if (tls && plain && (*plain = r.chance(25))) return connection::create(w.io, w.sctx, false, [f](const connection_ptr& k) { f->last = k.get(); ++f->calls; });      // encrypted from its handshake on
    switch (r.below(3)) {
        case 0: if (!tls) return connection_ptr(new connection(w.io)); if (!server) return connection_ptr(new connection(w.io, true)); // fall through
        case 1: if (tls) return connection_ptr(new connection(w.io, w.sctx)); // fall through
        default: return connection::create(w.io, w.sctx, tls, [f](const connection_ptr& k) { f->last = k.get(); ++f->calls; });
    }
}
static EC do_accept(World& w, Rng& r, const connection_ptr& k) {
    if (r.chance(50)) return k->accept(w.acc);
    OpP o = w.op(); k->async_accept(w.acc, On(o)); EC ec; size_t n; if (!w.done(o, ec, n)) ec = boost::asio::error::timed_out; return ec;
}
static EC do_connect(World& w, Rng& r, const connection_ptr& k, uint32_t to, int port, std::string *form = 0) {
    boost::asio::ip::address a = boost::asio::ip::address_v4(to); tcp::endpoint ep(a, (unsigned short)port); EC ec; size_t n; int f = (int)r.below(5); static const char *nm[] = { "endpoint", "address", "name", "async endpoint", "async address" };
    if (form) *form = nm[f];
    switch (f) {
        case 0: return k->connect(ep);
        case 1: return k->connect(a, (unsigned)port);
        case 2: return k->connect(a.to_string(), (unsigned)port);
        default: { OpP o = w.op(); if (f == 3) k->async_connect(ep, On(o)); else k->async_connect(a, (unsigned)port, On(o)); if (!w.done(o, ec, n)) ec = boost::asio::error::timed_out; return ec; }
    }
}
static EC do_handshake(World& w, Rng& r, const connection_ptr& k, bool server) {
    if (r.chance(50)) return server ? k->handshake_server() : k->handshake_client();
    OpP o = w.op(); EC ec; size_t n; if (server) k->async_handshake_server(On(o)); else k->async_handshake_client(On(o));
    if (!w.done(o, ec, n)) ec = boost::asio::error::timed_out; return ec;
}
static char at(uint64_t seed, size_t i) { return (char)(mix64(seed + i / 8) >> (i % 8 * 8)); }
static std::string piece(uint64_t seed, size_t from, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = at(seed, from + i); return s; }

struct Round { bool a_writes; size_t n; uint64_t seed; };
static bool write_round(World& w, Rng& r, connection_ptr k, const Round& d, long& forms) {
    size_t done = 0;
    while (done < d.n && !w.failed) {
        size_t n = std::min(d.n - done, r.chance(20) ? (size_t)r.range(1, 40) : r.chance(30) ? d.n : (size_t)r.range(1, 30000)); std::string s = piece(d.seed, done, n);
        std::vector<boost::asio::const_buffer> v; size_t o = 0; while (o < n) { size_t p = r.chance(60) ? n - o : (size_t)r.range(0, (int64_t)(n - o)); v.push_back(boost::asio::buffer(s.data() + o, p)); o += p; if (r.chance(10)) v.push_back(boost::asio::const_buffer(s.data(), 0)); }
        EC ec; size_t got; int f = (int)r.below(4);
        if (f == 0) got = k->write(boost::asio::buffer(s), ec);
        else if (f == 1) got = k->write(v, ec);
        else { OpP op = w.op(); if (f == 2) k->async_write(boost::asio::buffer(s), On(op)); else k->async_write(v, On(op)); if (!w.done(op, ec, got)) return false; }
        if (ec || got != n) { w.bad("write-short", "form " + std::to_string(f) + ": wrote " + std::to_string(got) + " of " + std::to_string(n) + " " + ec.message()); return false; }
        done += n; ++forms; if (r.chance(15)) usleep(r.below(800));
    }
    return !w.failed;
}
static bool read_round(World& w, Rng& r, connection_ptr k, const Round& d, long& forms) {
    size_t done = 0;
    while (done < d.n && !w.failed) {
        size_t left = d.n - done, cap, least, got = 0; EC ec; int f = (int)r.below(8); std::string where = "form " + std::to_string(f) + " at " + std::to_string(done) + " of " + std::to_string(d.n);
        std::vector<char> own; size_t guard = 64, parts = 1; std::vector<boost::asio::mutable_buffer> v; const char *p; std::string out;
        bool internal = f == 0 || f == 2 || f == 4 || f == 6, async = f & 2; bool some = f < 2 || f == 2 || f == 3; const size_t ib = connection::read_buffer_type().size();
        if (internal) { cap = ib; } else { cap = r.chance(30) ? left : r.chance(30) ? (size_t)r.range(1, 9) : (size_t)r.range(1, 40000); if (!some && r.chance(50)) cap = std::min(cap, left); }
        bool all = !some && cap <= left && r.chance(50); least = all ? cap : some ? 1 : (size_t)r.range(1, (int64_t)std::min(cap, left));
        if (internal) memset(&k->get_read_buffer()[0], 0x55, ib);
        else { own.assign(cap + guard, 0x55); size_t o = 0; while (o < cap) { size_t q = some || r.chance(60) ? cap - o : (size_t)r.range(1, (int64_t)(cap - o)); v.push_back(boost::asio::buffer(&own[o], q)); o += q; } parts = v.size(); }
        OpP op; if (async) op = w.op();
        if (some) {
            if (f == 0) got = k->read_some(ec); else if (f == 1) got = k->read_some(boost::asio::buffer(&own[0], cap), ec);
            else if (f == 2) k->async_read_some(On(op)); else k->async_read_some(boost::asio::buffer(&own[0], cap), On(op));
        } else {
            if (f == 4) got = all ? k->read(boost::asio::transfer_all(), ec) : k->read(boost::asio::transfer_at_least(least), ec);
            else if (f == 5) got = all ? k->read(v, boost::asio::transfer_all(), ec) : k->read(v, boost::asio::transfer_at_least(least), ec);
            else if (f == 6) { if (all) k->async_read(boost::asio::transfer_all(), On(op)); else k->async_read(boost::asio::transfer_at_least(least), On(op)); }
            else { if (all) k->async_read(v, boost::asio::transfer_all(), On(op)); else k->async_read(v, boost::asio::transfer_at_least(least), On(op)); }
        }
        if (async && !w.done(op, ec, got)) return false;
        if (ec) { w.bad("read-failed", where + ": " + ec.message()); return false; }
        if (got < least || got > cap || got > left) { w.bad("read-count", where + ": " + std::to_string(got) + " bytes, at least " + std::to_string(least) + " and at most " + std::to_string(std::min(cap, left)) + " asked for"); return false; }
        p = internal ? &k->get_read_buffer()[0] : &own[0];
        for (size_t i = 0; i < got; ++i) if (p[i] != at(d.seed, done + i)) { w.bad("read-bytes", where + ": byte " + std::to_string(i) + " of " + std::to_string(got) + " differs, " + std::to_string(parts) + " buffers"); return false; }
        if (!internal) for (size_t i = 0; i < guard; ++i) if (own[cap + i] != 0x55) { w.bad("read-past-buffer", where); return false; }
        done += got; ++forms; if (r.chance(5)) usleep(r.below(500));
    }
    return !w.failed;
}
static std::string ends(const connection_ptr& a, const tcp::endpoint& want) {
    tcp::endpoint e = a->get_remote_endpoint(); std::ostringstream o; o << e << " ip " << a->get_remote_ip() << " port " << a->get_remote_port() << " instead of " << want;
    return e == want && a->get_remote_ip() == want.address() && a->get_remote_port() == want.port() ? "" : o.str();
}
static std::string closed(const connection_ptr& k) { if (k->is_open()) return "open"; return ends(k, tcp::endpoint()); }

SCENARIO("P41", "transfers", 700, 7000) {
    Rng& r = c.rng; bool tls = r.chance(40); World w((int)r.range(1, 3)); std::shared_ptr<Fin> fa(new Fin), fb(new Fin); arm_wall(100);
    bool pa = false, pb = false; connection_ptr a = make(w, r, tls, false, fa, &pa), b = make(w, r, tls, true, fb, &pb); if (pa || pb) c.count("encrypted_by_handshake");
    CHECK(c, closed(a).empty() && closed(b).empty(), "new-connection", "a new connection: " + closed(a) + closed(b)); CHECK(c, a->get_ssl_flag() == (tls && !pa) && b->get_ssl_flag() == (tls && !pb), "ssl-flag", "of a new connection");
    CHECK(c, !a->get_keep_alive() && !a->get_pipelined() && a->get_lifecycle() == connection::LIFECYCLE_CLOSE, "lifecycle", "of a new connection"); const char *p1 = "x", *p2 = "y"; a->load_read_pos(p1, p2); CHECK(c, !p1 && !p2, "read-position", "of a new connection");
    CHECK(c, &a->get_io_service() == &w.io, "io-service", "another service"); a->close(); a->cancel(); a->shutdown();      // nothing to do
    std::vector<Round> rounds(r.range(1, 8)); uint64_t h = tls; bool first = r.chance(50); for (size_t i = 0; i < rounds.size(); ++i) { rounds[i].a_writes = (i & 1) ^ first; rounds[i].n = r.chance(20) ? 1 + r.below(20) : r.chance(15) ? (size_t)r.range(100000, 400000) : (size_t)r.range(1, 20000); rounds[i].seed = r.next(); h = mix64(h ^ rounds[i].n * 2 ^ rounds[i].a_writes); }
    bool fin_a = false; uint64_t sa = r.next(), sb = r.next(); long ra = 0, rb = 0; int how = (int)r.below(3); bool a_ends = r.chance(50); size_t last = r.chance(50) ? r.below(60000) : r.below(30); std::string form; EC bec;
    boost::thread t([&] {
        Rng q(sb); EC ec = do_accept(w, q, b); if (ec) { w.bad("accept-failed", ec.message()); return; }
        if (tls && (ec = do_handshake(w, q, b, true))) { w.bad("handshake-failed", "server: " + ec.message()); return; }
        for (size_t i = 0; i < rounds.size(); ++i) if (!(rounds[i].a_writes ? read_round(w, q, b, rounds[i], rb) : write_round(w, q, b, rounds[i], rb))) { b->shutdown(); return; }
    });
    EC ec = do_connect(w, r, a, net::addr(), w.port(), &form); if (ec) { w.bad("connect-failed", form + ": " + ec.message()); }
    else if (tls && (ec = do_handshake(w, r, a, false))) w.bad("handshake-failed", "client: " + ec.message());
    if (!w.failed) { Rng q(sa); for (size_t i = 0; i < rounds.size(); ++i) if (!(rounds[i].a_writes ? write_round(w, q, a, rounds[i], ra) : read_round(w, q, a, rounds[i], ra))) break; }
    if (w.failed) { if (!a->is_open()) { EC x; w.acc.close(x); } a->shutdown(); }
    t.join();
    if (!w.failed) {
        tcp::endpoint ae = a->get_socket().local_endpoint(), be = b->get_socket().local_endpoint(); std::string x = ends(a, be) + ends(b, ae);
        if (!x.empty()) w.bad("remote-endpoint", form + ": " + x); else if (be != w.acc.local_endpoint()) w.bad("remote-endpoint", "not the acceptor's");
        if (!a->is_open() || !b->is_open()) w.bad("not-open", "connected but not open"); if (a->get_ssl_flag() != tls || b->get_ssl_flag() != tls) w.bad("ssl-flag", "of a connected connection");
        // settings of the object
        connection::lifecycle_type l[] = { connection::LIFECYCLE_CLOSE, connection::LIFECYCLE_KEEPALIVE, connection::LIFECYCLE_PIPELINED };
        for (int i = 0; i < 6; ++i) { int j = (int)r.below(3); a->set_lifecycle(l[j]); if (a->get_lifecycle() != l[j] || a->get_keep_alive() != (j > 0) || a->get_pipelined() != (j == 2)) w.bad("lifecycle", "set to " + std::to_string(j)); }
        const char *q = &a->get_read_buffer()[0] + r.below(100), *e = q + r.below(100), *q2, *e2; a->save_read_pos(q, e); a->load_read_pos(q2, e2); if (q2 != q || e2 != e) w.bad("read-position", "not the one saved");
        int nf = (int)r.below(4), before = fa->calls; bool handler = false; for (int i = 0; i < nf; ++i) a->finish(); handler = fa->calls > before;
        if (handler && (fa->calls != before + nf || fa->last != a.get())) w.bad("finished-handler", std::to_string(fa->calls) + " calls for " + std::to_string(nf)); fin_a = handler; if (handler) c.count("finishes", nf); if (fb->calls) w.bad("finished-handler", "called without finish()");
        // the end: what was written before it arrives, then the end
        connection_ptr& e1 = a_ends ? a : b; connection_ptr& o1 = a_ends ? b : a; const uint64_t s = r.next(); std::string tail = tls ? "" : piece(s, 0, last), got;
        boost::thread reader([&] { EC ec; size_t n; for (;;) { n = o1->read_some(ec); if (n) got.append(&o1->get_read_buffer()[0], n); if (ec) break; } bec = ec; });
        if (!tail.empty()) { EC ec; size_t n = e1->write(boost::asio::buffer(tail), ec); if (ec || n != tail.size()) w.bad("write-short", "last block"); }
        if (how == 0) { e1->close(); if (r.chance(50)) e1->close(); if (!closed(e1).empty()) w.bad("close-left-open", closed(e1)); c.count("closes"); } else if (how == 1) { e1->shutdown(); e1->shutdown(); c.count("shutdowns"); } else { e1.reset(); c.count("destructions"); }
        reader.join();
        if (got != tail || (!tls && bec != boost::asio::error::eof)) w.bad("end-of-connection", std::to_string(got.size()) + " of " + std::to_string(tail.size()) + " bytes before the end, " + bec.message() + " how=" + std::to_string(how));
        o1->close(); o1->close(); if (!closed(o1).empty()) w.bad("close-left-open", closed(o1));
        if (e1) { e1->close(); if (!closed(e1).empty()) w.bad("close-left-open", closed(e1)); EC ec; e1->read_some(ec); if (!ec) w.bad("read-after-close", "no error"); e1->write(boost::asio::buffer("abc", 3), ec); if (!ec) w.bad("write-after-close", "no error"); }
    }
    if (a) a->close();
    if (b) b->close();
    if (!w.failed) for (int i = 0; i < 2; ++i) { const connection_ptr& k = i ? b : a; Fin& f = i ? *fb : *fa; int before = f.calls; if (!k) continue; bool has = false; k->finish(); has = f.calls > before; k->finish(); if (has && f.calls != before + 2) w.bad("finished-handler", "after close"); if (!i && fin_a && !has) w.bad("finished-handler", "not called after close"); if (has) c.count("finishes_after_close", 2); }
    if (!w.finish(c)) return;
    c.count("transfers"); if (tls) c.count("tls_transfers"); c.count("reads_and_writes", ra + rb); c.count("connected_by_" + form); c.distinct(h);
    if (c.want_sample()) c.sample(std::string(tls ? "tls " : "plain ") + form + ", " + std::to_string(rounds.size()) + " rounds");
}
SCENARIO("P41", "refused", 1500, 15000) {
    // connections that cannot be made, and the same object used again
    Rng& r = c.rng; World w(1); std::shared_ptr<Fin> f(new Fin); arm_wall(100); uint32_t live = net::addr(), dead = 127u << 24 | 1u << 16 | (uint32_t)r.range(2, 60000); int port = w.port();
    connection_ptr a = make(w, r, r.chance(30), false, f); int kind = (int)r.below(3); std::string form; EC ec; size_t nlist = 0; bool reach = false;
    if (kind == 0) {
        ec = do_connect(w, r, a, dead, port, &form); if (ec != boost::asio::error::connection_refused) w.bad("refused-connect", form + ": " + ec.message());
        if (!ends(a, tcp::endpoint()).empty()) w.bad("refused-endpoint", ends(a, tcp::endpoint())); if (form == "name" && a->is_open()) w.bad("refused-left-open", form);
        a->close(); if (!closed(a).empty()) w.bad("close-left-open", "after a refused connection: " + closed(a)); c.count("refused");
    } else if (kind == 1) {
        static const std::string bad[] = { "no-such-host.invalid", "bad name", "256.1.1.1", "", "127.0.0.1.", "a..b" }; std::string n = bad[r.below(6)]; bool threw = false;
        try { ec = a->connect(n, (unsigned)port); } catch (std::exception& e) { threw = true; ec = boost::asio::error::fault; }
        if (threw || !ec || a->is_open()) w.bad("unresolvable-name", "'" + n + "': " + (threw ? "exception" : ec.message()) + (a->is_open() ? " open" : "")); c.count("unresolvable");
    } else {
        std::vector<uint32_t> v; nlist = 1 + r.below(4); size_t pos = r.below(nlist + 1); reach = pos < nlist; for (size_t i = 0; i < nlist; ++i) v.push_back(i == pos ? live : dead + (uint32_t)i + 1); if (reach && r.chance(30)) v.push_back(live);
        std::string n = "host" + std::to_string(r.below(1000)); { std::lock_guard<std::mutex> l(nm); names.clear(); names[n] = v; }
        ec = a->connect(n, (unsigned)port);
        if (reach ? !!ec || !a->is_open() || a->get_remote_endpoint() != w.acc.local_endpoint() : ec != boost::asio::error::connection_refused || a->is_open()) w.bad("name-addresses", "address " + std::to_string(pos) + " of " + std::to_string(nlist) + " can be reached: " + ec.message() + (a->is_open() ? " open" : " closed"));
        c.count(reach ? "names_reached" : "names_unreached"); if (reach && pos) c.count("names_reached_later");
    }
    if (!w.failed && !(kind == 2 && reach)) { ec = do_connect(w, r, a, live, port, &form); if (ec || ends(a, w.acc.local_endpoint()) != "") w.bad("connect-after-refusal", form + ": " + ec.message()); }
    if (!w.failed) {    // the peer's end of it
        connection_ptr b = make(w, r, false, true, f); ec = do_accept(w, r, b); if (ec || ends(b, a->get_socket().local_endpoint()) != "") w.bad("accept-failed", ec.message());
        else if (r.chance(40)) {     // the peer resets the connection
            b->get_socket().set_option(boost::asio::socket_base::linger(true, 0)); b->close(); EC e; size_t n = a->get_ssl_flag() ? 0 : a->read_some(e); if (!a->get_ssl_flag() && (!e || n)) w.bad("reset-unnoticed", "no error");
            if (a->get_ssl_flag()) usleep(300); tcp::endpoint q = a->get_remote_endpoint(); (void)q; a->close(); if (!closed(a).empty()) w.bad("close-left-open", "after a reset: " + closed(a)); c.count("resets");
        } else if (r.chance(60)) {   // a handshake with a peer that does not speak it
            a->close(); connection_ptr k(new connection(w.io, w.sctx)), l; bool server = r.chance(50); int talk = (int)r.below(3);
            if (server) { ec = k->connect(tcp::endpoint(w.acc.local_endpoint()).address(), (unsigned)port); } else ec = k->connect(boost::asio::ip::address_v4(live), (unsigned)port);
            b->close(); l = make(w, r, false, true, f); if (ec || (ec = l->accept(w.acc))) w.bad("accept-failed", ec.message());
            else {
                std::string g = talk ? r.chance(50) ? "HTTP/1.1 400 no\r\n\r\n" + r.bytes(r.below(300)) : r.bytes(r.below(400) + 20) : ""; EC e; if (!g.empty() && g[0] == 0x16) g[0] = 'H'; if (!g.empty()) l->write(boost::asio::buffer(g), e);
                l->get_socket().shutdown(tcp::socket::shutdown_send, e); e = do_handshake(w, r, k, server); if (!e) w.bad("handshake-with-nobody", "no error"); c.count("failed_handshakes"); l->close(); k->close(); if (!closed(k).empty()) w.bad("close-left-open", "after a failed handshake");
            }
        }
        b->close();
    }
    a->close(); a.reset(); if (!w.finish(c)) return;
    c.count("refusals"); c.distinct(mix64((uint64_t)kind * 31 + nlist * 7 + reach) ^ hash_str(form));
}
SCENARIO("P41", "pending", 1500, 15000) {
    // operations that wait for something that never comes, and are ended
    Rng& r = c.rng; int how = (int)r.below(4); World w(how < 2 ? 1 : (int)r.range(1, 3)); std::shared_ptr<Fin> f(new Fin); arm_wall(100); bool tls = r.chance(30);
    connection_ptr a = make(w, r, tls, false, f), b = make(w, r, tls, true, f); EC se; 
    boost::thread t([&] { se = b->accept(w.acc); if (!se && tls) se = b->handshake_server(); });
    EC ec = a->connect(boost::asio::ip::address_v4(net::addr()), (unsigned)w.port()); if (!ec && tls) ec = a->handshake_client(); t.join(); CHECK(c, !ec && !se, "connect-failed", ec.message() + se.message());
    int kind = (int)r.below(5); std::vector<char> own(20000); std::string big(kind == 4 ? 30000000 : 0, 'w'); OpP o = w.op();
    if (tls && kind == 4) kind = 0;
    w.what = ": how " + std::to_string(how) + " kind " + std::to_string(kind) + (tls ? " tls" : "");
    switch (kind) { case 0: a->async_read_some(On(o)); break; case 1: a->async_read_some(boost::asio::buffer(own), On(o)); break; case 2: a->async_read(boost::asio::transfer_all(), On(o)); break; case 3: a->async_read(boost::asio::buffer(own), boost::asio::transfer_at_least(100), On(o)); break; default: a->async_write(boost::asio::buffer(big), On(o)); }
    size_t some = 0; int repeats = 0; if ((kind == 2 || kind == 3) && r.chance(50)) { some = (size_t)r.range(1, 90); std::string s(some, 's'); EC e; b->write(boost::asio::buffer(s), e); }
    if (r.chance(70)) usleep(r.below(1500));
    if (o->calls) w.bad("operation-ended-early", "kind " + std::to_string(kind));
    else {
        OpP posted = w.op(); EC e; size_t n;
        // close() and cancel() belong on the thread that uses the connection; shutdown() does not
        if (how == 0) { w.io.post([=] { a->cancel(); fire(posted); }); while (o->calls == 0) { usleep(2000); OpP again = w.op(); w.io.post([=] { if (o->calls == 0) a->cancel(); fire(again); }); if (!wait_until([&] { return again->calls > 0; }, 20) || ++repeats > 5000) break; } }   // a composed operation may be between two steps
        else if (how == 1) w.io.post([=] { a->close(); fire(posted); });
        else if (how == 2) { a->shutdown(); fire(posted); } else { b->close(); fire(posted); }
        if (w.done(o, e, n)) {
            if (!e) w.bad("ended-without-error", "how " + std::to_string(how) + " kind " + std::to_string(kind)); if (kind == 2 || kind == 3) { if (n > some) w.bad("ended-count", std::to_string(n) + " of " + std::to_string(some)); }
            if (how == 0 && !tls && e != boost::asio::error::operation_aborted) w.bad("ended-with", e.message() + " how " + std::to_string(how)); if (how == 2 && !tls && kind != 4 && e != boost::asio::error::eof) w.bad("ended-with", e.message());
            size_t pn; w.done(posted, e, pn);
            if (how == 1) { if (!closed(a).empty()) w.bad("close-left-open", closed(a)); } else if (!a->is_open()) w.bad("not-open", "how " + std::to_string(how));
            if (how == 0 && !tls && kind < 4 && !w.failed) {     // still usable
                if (ends(a, w.acc.local_endpoint()) != "") w.bad("remote-endpoint", "after cancel(): " + ends(a, w.acc.local_endpoint()));
                std::string s = r.bytes((size_t)r.range(1, 3000)), g(s.size(), 0); EC x; a->write(boost::asio::buffer(s), x); if (!x) b->read(boost::asio::buffer(&g[0], g.size()), boost::asio::transfer_all(), x); if (x || g != s) w.bad("unusable-after-cancel", x.message());
                b->write(boost::asio::buffer(s), x); size_t skip = some > n ? some - n : 0; std::string g2(skip + s.size(), 0); if (!x) a->read(boost::asio::buffer(&g2[0], g2.size()), boost::asio::transfer_all(), x); if (x || g2.substr(skip) != s) w.bad("unusable-after-cancel", "reading: " + x.message()); c.count("used_after_cancel");
            }
            if ((how == 1 || how == 2) && !w.failed) { EC x; char buf[70000]; size_t m; do m = b->read_some(boost::asio::buffer(buf), x); while (!x); if (!x) w.bad("peer-not-told", std::to_string(m)); c.count("peers_told"); }
        }
    }
    // an accept that is waiting ends with the acceptor
    if (!w.failed && r.chance(30)) { connection_ptr k = make(w, r, false, true, f); OpP q = w.op(); k->async_accept(w.acc, On(q)); EC e; size_t n; if (w.th.size() == 1) w.io.post([&w] { EC x; w.acc.close(x); }); else { EC x; w.acc.cancel(x); } if (w.done(q, e, n) && (e != boost::asio::error::operation_aborted || k->is_open())) w.bad("accept-ended-with", e.message()); c.count("accepts_ended"); wait_until([&] { return w.th.size() > 1 || !w.acc.is_open(); }, 5); }
    a->close(); b->close(); if (!w.finish(c)) return;
    c.count("pending_ended"); c.count(how == 0 ? "cancelled" : how == 1 ? "closed" : how == 2 ? "shut_down" : "closed_by_peer"); c.distinct(mix64((uint64_t)(how * 50 + kind * 8 + tls * 4 + (int)w.ops.size())) ^ some);
}
int main(int argc, char **argv) { G().bail_on_fail = true; return run(argc, argv, 120, 150); }
