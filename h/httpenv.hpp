// An HTTP server on a scheduler of random kind, plain or TLS, and how to end it.
#pragma once
#include "vh.hpp"
#include "inject.hpp"
#include "net.hpp"
#include <boost/lexical_cast.hpp>
#include <pion/http/server.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/scheduler.hpp>
#include <pion/error.hpp>
using namespace vh;
using pion::tcp::connection;
using pion::tcp::connection_ptr;
using pion::http::request_ptr;
using pion::http::response_writer;
using pion::http::response_writer_ptr;

template <class F> static bool timed(F f, double limit) {
    std::shared_ptr<std::atomic<int> > d(new std::atomic<int>(0));
    boost::thread *t = new boost::thread([f, d] { f(); *d = 1; });
    if (!wait_until([&] { return *d == 1; }, limit)) return false;
    t->join(); delete t; return true;
}
template <class S> struct HServerT : S {
    HServerT(const boost::asio::ip::tcp::endpoint& e) : S(e) {}
    HServerT(pion::scheduler& s, const boost::asio::ip::tcp::endpoint& e) : S(s, e) {}
    boost::asio::io_service& io() { return S::get_io_service(); }
};
template <class S> struct EnvT {
    typedef HServerT<S> HServer;
    std::shared_ptr<pion::scheduler> sched;
    std::shared_ptr<HServer> srv;
    bool tls; int port;
    EnvT(Rng& r, int tls_pct, int max_threads = 6) : tls(r.chance(tls_pct)), port(0) {
        boost::asio::ip::tcp::endpoint ep(boost::asio::ip::address_v4(net::addr()), 0);
        int kind = (int)r.below(3);
        if (kind == 0) srv.reset(new HServer(ep));
        else {
            if (kind == 1) sched.reset(new pion::single_service_scheduler); else sched.reset(new pion::one_to_one_scheduler);
            sched->set_num_threads((uint32_t)r.range(1, max_threads));
            srv.reset(new HServer(*sched, ep));
        }
        if (tls) srv->set_ssl_key_file(net::pem());
    }
    void start() { srv->start(); port = (int)srv->get_port(); }
    // ends everything; false (already reported) if something never came to its end
    bool end(Ctx& c) {
        std::shared_ptr<HServer> s = srv; srv.reset();
        if (!timed([s] { s->stop(false); }, 20)) { c.hang("stop-never-returned", "stopping the HTTP server"); bail(); }
        s.reset();
        if (sched) { std::shared_ptr<pion::scheduler> k = sched; if (!timed([k] { k->shutdown(); }, 20)) { c.hang("scheduler-never-stopped", "scheduler shutdown after the HTTP server was stopped"); bail(); } }
        return true;
    }
};
typedef EnvT<pion::http::server> Env;
