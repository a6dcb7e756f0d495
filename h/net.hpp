// Client side of the network harnesses: blocking sockets with deadlines, TLS, an independent
// response reader.
#pragma once
#include "vh.hpp"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <openssl/ssl.h>
#include <boost/thread.hpp>
#include <boost/bind.hpp>

namespace net {
// every process of a check uses a loopback address of its own: no other process can take the
// port of a server that is stopped for a moment, or connect to the wrong server
inline uint32_t addr() { uint32_t p = (uint32_t)getpid(); return 127u << 24 | (64 + (p >> 16 & 63)) << 16 | (p & 0xffff); }
inline SSL_CTX *client_ctx() { static SSL_CTX *c = SSL_CTX_new(TLS_client_method()); return c; }
struct Client {
    int fd; SSL *ssl; std::string buf; bool eof, err; uint32_t to;   // to: another address than the usual one
    Client() : fd(-1), ssl(0), eof(false), err(false), to(0) {}
    ~Client() { close(); }
    bool connect(int port, bool tls = false) {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        if (fd < 0) { printf("HARNESS-ERROR socket: %s\n", strerror(errno)); fflush(stdout); _exit(4); }
        struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); a.sin_addr.s_addr = htonl(to ? to : addr());
        if (::connect(fd, (struct sockaddr*)&a, sizeof a) != 0) { ::close(fd); fd = -1; return false; }
        int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        struct timeval tv = { 30, 0 }; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
        if (tls) {
            ssl = SSL_new(client_ctx()); SSL_set_fd(ssl, fd);
            if (SSL_connect(ssl) != 1) { close(); return false; }
        }
        return true;
    }
    int local_port() { struct sockaddr_in a; socklen_t l = sizeof a; getsockname(fd, (struct sockaddr*)&a, &l); return ntohs(a.sin_port); }
    bool send(const std::string& s) {
        size_t o = 0;
        while (o < s.size()) {
            long n = ssl ? SSL_write(ssl, s.data() + o, (int)(s.size() - o)) : ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
            if (n <= 0) { err = true; return false; }
            o += (size_t)n;
        }
        return true;
    }
    // 1 got data, 0 end of stream (or reset), -1 nothing within the limit
    int fill(double limit) {
        if (eof) return 0;
        double t0 = vh::now();
        for (;;) {
            if (!(ssl && SSL_pending(ssl) > 0)) {
                struct pollfd p = { fd, POLLIN, 0 }; int r;
                int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);    // no 40 ms waits for delayed ACKs
                do { double left = limit - (vh::now() - t0); r = poll(&p, 1, left > 0 ? (int)(left * 1000) + 1 : 0); } while (r < 0 && errno == EINTR);
                if (r == 0) return -1;
            }
            char b[16384]; long n;
            if (ssl) {
                // what is readable may be a record without data for us
                int fl = fcntl(fd, F_GETFL); fcntl(fd, F_SETFL, fl | O_NONBLOCK);
                n = SSL_read(ssl, b, sizeof b); int e = n > 0 ? 0 : SSL_get_error(ssl, (int)n);
                fcntl(fd, F_SETFL, fl);
                if (e == SSL_ERROR_WANT_READ) continue;
            } else n = ::recv(fd, b, sizeof b, 0);
            if (n > 0) { buf.append(b, (size_t)n); return 1; }
            if (n < 0 && !ssl) err = true;
            eof = true; return 0;
        }
    }
    // read until n bytes are buffered; false: end or limit
    bool need(size_t n, double limit = 20) { while (buf.size() < n) if (fill(limit) != 1) return false; return true; }
    // the peer closes: everything up to end of stream; false if it did not end within the limit
    bool drain(double limit = 20) { for (;;) { int r = fill(limit); if (r == 0) return true; if (r < 0) return false; } }
    std::string take(size_t n) { std::string s = buf.substr(0, n); buf.erase(0, n); return s; }
    void half_close() { if (fd >= 0) { if (ssl) SSL_shutdown(ssl); ::shutdown(fd, SHUT_WR); } }
    void close(bool rst = false) {
        if (ssl) { SSL_free(ssl); ssl = 0; }
        if (fd >= 0) {
            if (rst) { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
            ::close(fd); fd = -1;
        }
    }
private:
    Client(const Client&);
};

struct Response {
    std::string line, version, message, body; int status; std::multimap<std::string, std::string> h;
    bool close_delimited, chunked; size_t nchunks;
    Response() : status(0), close_delimited(false), chunked(false), nchunks(0) {}
    std::string header(const std::string& k) const { std::multimap<std::string, std::string>::const_iterator i = h.find(k); return i == h.end() ? std::string() : i->second; }
};
inline std::string lower(std::string s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'A' && s[i] <= 'Z') s[i] = (char)(s[i] + 32); return s; }

// reads one response from the connection by the framing rules of HTTP; error text or ""
inline std::string read_response(Client& c, Response& r, bool head = false, double limit = 20) {
    size_t e;
    while ((e = c.buf.find("\r\n\r\n")) == std::string::npos) {
        int k = c.fill(limit);
        if (k == 0) return c.buf.empty() ? "eof" : "eof inside the headers: " + vh::show(c.buf);
        if (k < 0) return "timeout";
    }
    std::string hd = c.take(e + 4); hd.resize(e);
    size_t p = hd.find("\r\n");
    r.line = hd.substr(0, p);
    if (r.line.size() < 12 || r.line.compare(0, 5, "HTTP/") || r.line[8] != ' ') return "bad status line " + vh::show(r.line);
    r.version = r.line.substr(5, 3); r.status = atoi(r.line.c_str() + 9); r.message = r.line.size() > 13 ? r.line.substr(13) : "";
    while (p != std::string::npos) {
        size_t q = hd.find("\r\n", p + 2);
        std::string l = hd.substr(p + 2, q == std::string::npos ? q : q - p - 2);
        size_t k = l.find(": ");
        if (k == std::string::npos) return "bad header line " + vh::show(l);
        r.h.insert(std::make_pair(lower(l.substr(0, k)), l.substr(k + 2)));
        p = q;
    }
    if (head || r.status / 100 == 1 || r.status == 204 || r.status == 304) return "";
    if (r.h.count("transfer-encoding")) {
        if (lower(r.header("transfer-encoding")) != "chunked") return "unknown transfer encoding " + r.header("transfer-encoding");
        if (r.h.count("content-length")) return "both lengths announced";
        r.chunked = true;
        for (;;) {
            size_t l;
            while ((l = c.buf.find("\r\n")) == std::string::npos) { int k = c.fill(limit); if (k == 0) return "eof inside a chunk line"; if (k < 0) return "timeout"; }
            std::string cs = c.take(l + 2); cs.resize(l);
            if (cs.empty() || cs.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) return "bad chunk size " + vh::show(cs);
            size_t n = strtoul(cs.c_str(), 0, 16);
            if (!c.need(n + 2, limit)) return c.eof ? "eof inside a chunk" : "timeout";
            std::string d = c.take(n + 2);
            if (d.compare(n, 2, "\r\n")) return "chunk not followed by line end: " + vh::show(d);
            if (n == 0) return "";
            ++r.nchunks; r.body.append(d, 0, n);
        }
    }
    if (r.h.count("content-length")) {
        if (r.h.count("content-length") != 1) return "several lengths announced";
        std::string cl = r.header("content-length");
        if (cl.empty() || cl.find_first_not_of("0123456789") != std::string::npos) return "bad content length " + vh::show(cl);
        size_t n = strtoul(cl.c_str(), 0, 10);
        if (!c.need(n, limit)) return c.eof ? "eof inside the content (" + std::to_string(c.buf.size()) + " of " + cl + ")" : "timeout";
        r.body = c.take(n);
        return "";
    }
    r.close_delimited = true;
    if (!c.drain(limit)) return "timeout";
    r.body.swap(c.buf); c.buf.clear();
    return "";
}
// send in random pieces
inline bool send_pieces(Client& c, const std::string& s, vh::Rng& r) {
    size_t o = 0; int style = (int)r.below(4);
    while (o < s.size()) {
        size_t n = style == 0 ? s.size() : style == 1 ? (size_t)r.range(1, 3) : style == 2 ? (size_t)r.range(1, 60) : (size_t)r.range(1, 3000);
        if (n > s.size() - o) n = s.size() - o;
        if (style == 1 && s.size() > 400) n = (size_t)r.range(1, 200) < s.size() - o ? (size_t)r.range(1, 200) : s.size() - o;
        if (n > s.size() - o) n = s.size() - o;
        if (!c.send(s.substr(o, n))) return false;
        o += n;
        if (o < s.size() && r.chance(30)) usleep((useconds_t)r.below(120));
    }
    return true;
}
inline std::string pem() { return std::string(getenv("VH_DATA") ? getenv("VH_DATA") : "/verif/h/data") + "/server.pem"; }
}
