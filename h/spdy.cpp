// Monitors for the SPDY frame parser and header decompressor.
#include "vh.hpp"
#include <zlib.h>
#include <new>
#include <pion/spdy/parser.hpp>
#include <pion/spdy/decompressor.hpp>
#include <pion/spdy/types.hpp>
using namespace vh;
namespace spdy = pion::spdy;

static const char DICT[] =
    "optionsgetheadpostputdeletetraceacceptaccept-charsetaccept-encodingaccept-"
    "languageauthorizationexpectfromhostif-modified-sinceif-matchif-none-matchi"
    "f-rangeif-unmodifiedsincemax-forwardsproxy-authorizationrangerefererteuser"
    "-agent10010120020120220320420520630030130230330430530630740040140240340440"
    "5406407408409410411412413414415416417500501502503504505accept-rangesageeta"
    "glocationproxy-authenticatepublicretry-afterservervarywarningwww-authentic"
    "ateallowcontent-basecontent-encodingcache-controlconnectiondatetrailertran"
    "sfer-encodingupgradeviawarningcontent-languagecontent-lengthcontent-locati"
    "oncontent-md5content-rangecontent-typeetagexpireslast-modifiedset-cookieMo"
    "ndayTuesdayWednesdayThursdayFridaySaturdaySundayJanFebMarAprMayJunJulAugSe"
    "pOctNovDecchunkedtext/htmlimage/pngimage/jpgimage/gifapplication/xmlapplic"
    "ation/xhtmltext/plainpublicmax-agecharset=iso-8859-1utf-8gzipdeflateHTTP/1"
    ".1statusversionurl";

// A block of exactly n bytes that ends at an inaccessible page: catches overruns of code
// the compiler did not instrument (zlib) as well.
struct Guarded {
    char *base; size_t total; char *p;
    Guarded(size_t n, size_t align = 1) {
        size_t ps = 4096, body = (n + ps - 1) / ps * ps; if (!body) body = ps;
        total = body + ps;
        base = (char*)mmap(0, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base + body, ps, PROT_NONE);
        p = base + body - (n + align - 1) / align * align;
    }
    ~Guarded() { munmap(base, total); }
};
// one packet in memory: exact heap block (instrumented redzones) or guarded block
struct Packet {
    Guarded *g; char *h; const char *p; uint32_t n;
    Packet(Rng& r, const std::string& s) : g(0), h(0), p(0), n((uint32_t)s.size()) {
        if (r.chance(50)) { g = new Guarded(s.size()); memcpy(g->p, s.data(), s.size()); p = g->p; }
        else { h = new char[s.size()]; memcpy(h, s.data(), s.size()); p = h; }
    }
    ~Packet() { delete g; delete[] h; }
};
// Decompressor whose buffer (its last member) ends at an inaccessible page. Padding that may
// follow the buffer inside the object is made inaccessible too, once it is known that nothing is kept there.
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)(a), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)(a), (void)(n))
#endif
static size_t padding_of() {
    const size_t size = sizeof(spdy::decompressor), buf = 16384; size_t pad = 0; static char z[200];
    z_stream zs; memset(&zs, 0, sizeof zs); deflateInit(&zs, 6); deflateSetDictionary(&zs, (const Bytef*)DICT, sizeof DICT); char in[] = "\0\0"; zs.next_in = (Bytef*)in; zs.avail_in = 2; zs.next_out = (Bytef*)z; zs.avail_out = sizeof z; deflate(&zs, Z_SYNC_FLUSH); uint32_t zn = (uint32_t)(sizeof z - zs.avail_out); deflateEnd(&zs);
    for (int k = 0; k < 2; ++k) {
        Guarded g(size, alignof(spdy::decompressor)); memset(g.p, k ? 0x55 : 0xaa, size); spdy::decompressor *d = new (g.p) spdy::decompressor;
        spdy::spdy_control_frame_info f; memset(&f, 0, sizeof f); f.type = SPDY_SYN_STREAM; char *p = d->decompress(z, 1, f, zn);
        if (!p || p < g.p || p + buf > g.p + size || (size_t)(g.p + size - p) - buf >= 8) { d->~decompressor(); return 0; }
        pad = (size_t)(g.p + size - p) - buf; for (size_t i = 0; i < pad; ++i) if (p[buf + i] != (char)(k ? 0x55 : 0xaa)) { d->~decompressor(); return 0; }
        d->~decompressor();
    }
    return pad;
}
static size_t padding() { static size_t n = padding_of(); return n; }
struct DeadDecomp {
    Guarded *g; spdy::decompressor *d;
    void operator()(spdy::decompressor *) const { ASAN_UNPOISON_MEMORY_REGION((char*)d + sizeof *d - padding(), padding()); d->~decompressor(); delete g; }
};
static spdy::decompressor_ptr make_decomp() {
    Guarded *g = new Guarded(sizeof(spdy::decompressor), alignof(spdy::decompressor));
    spdy::decompressor *d = new (g->p) spdy::decompressor; ASAN_POISON_MEMORY_REGION(g->p + sizeof *d - padding(), padding());
    DeadDecomp del = { g, d };
    return spdy::decompressor_ptr(d, del);
}

static std::string be16(uint32_t v) { std::string s; s += (char)(v >> 8); s += (char)v; return s; }
static std::string be24(uint32_t v) { std::string s; s += (char)(v >> 16); s += (char)(v >> 8); s += (char)v; return s; }
static std::string be32(uint32_t v) { return be16(v >> 16) + be16(v & 0xffff); }

struct Zip { // one direction's compression context
    z_stream z; bool broken;
    Zip(Rng& r) {
        memset(&z, 0, sizeof z);
        static const int strat[] = { Z_DEFAULT_STRATEGY, Z_DEFAULT_STRATEGY, Z_FILTERED, Z_HUFFMAN_ONLY, Z_FIXED };
        deflateInit2(&z, (int)r.range(0, 9), Z_DEFLATED, 15, (int)r.range(1, 9), strat[r.below(5)]);
        if (!r.chance(15)) deflateSetDictionary(&z, (const Bytef*)DICT, sizeof DICT);
    }
    ~Zip() { deflateEnd(&z); }
    std::string pack(const std::string& s, int flush = Z_SYNC_FLUSH) {
        std::string out(deflateBound(&z, s.size()) + 64, 0);
        z.next_in = (Bytef*)s.data(); z.avail_in = (uInt)s.size(); z.next_out = (Bytef*)&out[0]; z.avail_out = (uInt)out.size();
        deflate(&z, flush);
        out.resize(out.size() - z.avail_out);
        return out;
    }
};

typedef std::map<std::string, std::string> Headers;
static std::string block_of(const Headers& h, std::vector<std::string> order) {
    std::string s = be16((uint32_t)order.size());
    for (auto& k : order) { const std::string& v = h.find(k)->second; s += be16((uint32_t)k.size()) + k + be16((uint32_t)v.size()) + v; }
    return s;
}
static Headers gen_headers(Rng& r, std::vector<std::string>& order) {
    static const std::vector<std::string> names = { "method", "url", "version", "status", "host", "user-agent", "accept", "accept-encoding", "cookie", "content-type", "content-length", "date", "server", "set-cookie", "scheme", "" };
    static const std::vector<std::string> vals = { "GET", "/", "HTTP/1.1", "200 OK", "https", "text/html; charset=utf-8", "gzip,deflate,sdch", "0", "" };
    Headers h; size_t n = r.below(4) == 0 ? r.below(60) : r.below(12), total = 2;
    for (size_t i = 0; i < n; ++i) {
        std::string k = r.chance(70) ? r.pick(names) : r.chance(70) ? r.from("abcdefghijklmnop-", 1 + r.below(20)) : r.bytes(r.below(300));
        std::string v = r.chance(40) ? r.pick(vals) : r.chance(60) ? r.from("abcdefgh =;/0123", r.below(60)) : r.chance(80) ? r.bytes(r.below(400)) : r.from("ab", r.below(9000));
        if (total + 4 + k.size() + v.size() > 16300) continue;
        if (!h.insert(std::make_pair(k, v)).second) continue;
        total += 4 + k.size() + v.size(); order.push_back(k);
    }
    return h;
}

struct Frame {
    std::string bytes; int type; int flags; uint32_t sid; Headers headers; std::string content; bool control; int err; // err: expected parser error, 0 none
    Frame() : type(0), flags(0), sid(0), control(false), err(0) {}
};
static std::string ctl(int ver, int type, int flags, const std::string& body) {
    return be16(0x8000 | ver) + be16(type) + (char)flags + be24((uint32_t)body.size()) + body;
}
static uint32_t gen_sid(Rng& r, int parity) {
    uint32_t s = r.chance(70) ? (uint32_t)r.below(64) : (uint32_t)r.below(0x7fffffff);
    if (parity == 1) s |= 1; else if (parity == 0) s &= ~1u;
    return s & 0x7fffffff;
}
static Frame gen_frame(Rng& r, Zip& req, Zip& rep, bool big) {
    Frame f;
    int ver = (int)r.range(1, 3);
    switch (r.below(12)) {
        case 0: case 1: case 2: { // SYN_STREAM: odd streams are the client's, even ones pushed by the server
            bool odd = r.chance(75); f.type = SPDY_SYN_STREAM; f.sid = gen_sid(r, odd ? 1 : 0); f.flags = (int)r.below(4);
            std::vector<std::string> o; f.headers = gen_headers(r, o);
            std::string z = (odd ? req : rep).pack(block_of(f.headers, o));
            uint32_t top = r.chance(20) ? 0x80000000u : 0;
            f.bytes = ctl(ver, f.type, f.flags, be32(f.sid | top) + be32((uint32_t)r.below(100)) + be16((uint32_t)r.below(65536)) + z); f.control = true; break; }
        case 3: case 4: case 5: { // SYN_REPLY or HEADERS
            f.type = r.chance(70) ? SPDY_SYN_REPLY : SPDY_HEADERS; f.sid = gen_sid(r, r.chance(70) ? 1 : 0); f.flags = (int)r.below(2);
            std::vector<std::string> o; f.headers = gen_headers(r, o);
            std::string z = rep.pack(block_of(f.headers, o));
            f.bytes = ctl(ver, f.type, f.flags, be32(f.sid) + be16((uint32_t)r.below(65536)) + z); f.control = true; break; }
        case 6: case 7: case 8: { // DATA
            f.sid = gen_sid(r, -1) & 0xffffff; f.flags = (int)r.below(4); if (r.chance(10)) f.flags = (int)r.below(256);
            size_t n = r.chance(10) ? 0 : r.chance(80) ? r.below(200) : big ? r.below(300000) : r.below(70000);
            f.content = r.bytes(n);
            f.bytes = be32(f.sid) + (char)f.flags + be24((uint32_t)n) + f.content; break; }
        case 9: f.type = SPDY_PING; f.control = true; f.bytes = ctl(ver, f.type, 0, be32((uint32_t)r.next())); break;
        case 10: f.control = true;
            if (r.chance(50)) { f.type = SPDY_RST_STREAM; f.sid = gen_sid(r, -1); f.bytes = ctl(ver, f.type, 0, be32(f.sid) + be32((uint32_t)r.below(14))); }
            else { f.type = SPDY_WINDOW_UPDATE; f.sid = gen_sid(r, -1); f.bytes = ctl(ver, f.type, 0, be32(f.sid) + be32((uint32_t)r.below(0x7fffffff))); }
            break;
        default: f.control = true;
            if (r.chance(40)) { f.type = SPDY_SETTINGS; size_t n = r.below(6); std::string b = be32((uint32_t)n); for (size_t i = 0; i < n; ++i) b += be32((uint32_t)r.next()) + be32((uint32_t)r.next()); f.bytes = ctl(ver, f.type, (int)r.below(2), b); }
            else if (r.chance(50)) { f.type = SPDY_CREDENTIAL; f.bytes = ctl(ver, f.type, 0, r.bytes(r.below(80))); }
            else { f.type = SPDY_GOAWAY; uint32_t st = (uint32_t)r.below(13); std::string b = be32(gen_sid(r, -1)); if (r.chance(70)) { b += be32(st); if (st == 1) f.err = spdy::parser::ERROR_PROTOCOL_ERROR; if (st == 11) f.err = spdy::parser::ERROR_INTERNAL_SPDY_ERROR; } f.bytes = ctl(ver, f.type, 0, b); }
    }
    return f;
}
static std::string show_h(const Headers& h) { std::string s; for (auto& k : h) s += show(k.first, 40) + "=" + show(k.second, 40) + "; "; return s; }

// One connection: packets of whole frames (the last data frame of a packet may continue
// beyond it); every frame must decode to what was put in, in both directions.
static void connection(Ctx& c, bool big) {
    Rng& r = c.rng;
    Zip req(r), rep(r);
    spdy::decompressor_ptr d = make_decomp();
    spdy::parser par;
    int npk = (int)r.range(1, 12);
    uint64_t hd = 1;
    for (int k = 0; k < npk; ++k) {
        std::vector<Frame> fs; std::string bytes; std::vector<size_t> off;
        int nf = r.chance(50) ? 1 : (int)r.range(1, 6);
        for (int i = 0; i < nf; ++i) { fs.push_back(gen_frame(r, req, rep, big)); off.push_back(bytes.size()); bytes += fs.back().bytes; if (fs.back().err) break; }
        bool cut_data = false; size_t have = 0;
        if (!fs.back().control && fs.back().content.size() && r.chance(25)) {
            have = r.below(fs.back().content.size()); bytes.resize(off.back() + 8 + have); cut_data = true;
        }
        // a packet with an incomplete header frame is refused and leaves the connection intact
        if (r.chance(20)) {
            size_t last = fs.size() - 1;
            if (fs[last].type == SPDY_SYN_STREAM || fs[last].type == SPDY_SYN_REPLY || fs[last].type == SPDY_HEADERS) {
                std::string part = fs[last].bytes.substr(0, 1 + r.below(fs[last].bytes.size() - 1));
                Packet pk(r, part); spdy::http_protocol_info hi; boost::system::error_code ec; uint32_t len = pk.n;
                boost::tribool rc = par.parse(hi, ec, d, pk.p, len, 1);
                CHECK(c, !(rc == true) && ec, "cut-frame-accepted", "type=" + std::to_string(fs[last].type) + " part=" + std::to_string(part.size()) + "/" + std::to_string(fs[last].bytes.size()));
                CHECK(c, hi.http_headers.empty(), "cut-frame-has-headers", show_h(hi.http_headers));
                c.count("incomplete_header_frames_refused");
            }
        }
        Packet pk(r, bytes);
        const char *ptr = pk.p; uint32_t len = pk.n;
        for (size_t i = 0; i < fs.size(); ++i) {
            Frame& f = fs[i];
            bool last = i + 1 == fs.size();
            std::string where = "packet " + std::to_string(k) + " frame " + std::to_string(i) + " type " + std::to_string(f.type) + " len " + std::to_string(f.bytes.size());
            // static classifiers
            spdy::spdy_frame_type ft = spdy::parser::get_spdy_frame_type(ptr);
            CHECK(c, ft == (f.control ? spdy::spdy_control_frame : spdy::spdy_data_frame), "frame-kind-wrong", where);
            if (len >= 4) CHECK(c, spdy::parser::is_spdy_control_frame(ptr) == f.control, "control-kind-wrong", where);
            if (f.control && len >= 12 && (f.type == SPDY_SYN_STREAM || f.type == SPDY_SYN_REPLY || f.type == SPDY_HEADERS || f.type == SPDY_RST_STREAM || f.type == SPDY_WINDOW_UPDATE))
                CHECK(c, spdy::parser::get_control_frame_stream_id(ptr) == f.sid, "control-stream-id-wrong", where);
            spdy::http_protocol_info hi; boost::system::error_code ec; uint32_t before = len;
            boost::tribool rc = par.parse(hi, ec, d, ptr, len, 1);
            c.count("frames");
            if (f.err) {
                CHECK(c, rc == false && ec.value() == f.err, "goaway-error-not-reported", where + " ec=" + ec.message());
                c.count("error_statuses"); break;
            }
            CHECK(c, !ec && !(rc == false), "valid-frame-refused", where + " ec=" + ec.message());
            if (last) CHECK(c, rc == true, "last-frame-not-finished", where);
            else {
                CHECK(c, boost::indeterminate(rc), "more-frames-not-reported", where);
                CHECK(c, len == before - f.bytes.size(), "remaining-length-wrong", where + " len=" + std::to_string(len) + " want " + std::to_string(before - f.bytes.size()));
                CHECK(c, par.get_spdy_read_pointer() == ptr + f.bytes.size(), "next-frame-pointer-wrong", where);
            }
            CHECK(c, hi.data_offset == 8, "data-offset-wrong", where);
            CHECK(c, hi.data_size == f.bytes.size() - 8, "data-size-wrong", where + " got " + std::to_string(hi.data_size));
            switch (f.type) {
                case SPDY_SYN_STREAM: CHECK(c, hi.http_type == HTTP_REQUEST, "http-type-wrong", where); break;
                case SPDY_SYN_REPLY: CHECK(c, hi.http_type == HTTP_RESPONSE, "http-type-wrong", where); break;
                case SPDY_DATA: CHECK(c, hi.http_type == HTTP_DATA, "http-type-wrong", where); break;
                case SPDY_HEADERS: break;
                default: CHECK(c, hi.http_type == SPDY_CONTROL, "http-type-wrong", where); break;
            }
            if (f.type == SPDY_SYN_STREAM || f.type == SPDY_SYN_REPLY || f.type == SPDY_HEADERS) {
                CHECK(c, hi.stream_id == f.sid, "stream-id-wrong", where);
                CHECK(c, hi.http_headers == f.headers, "headers-wrong", where + " got " + show_h(hi.http_headers) + " want " + show_h(f.headers));
                c.count("header_frames"); c.count("headers", f.headers.size());
            } else CHECK(c, hi.http_headers.empty(), "headers-from-nowhere", where + show_h(hi.http_headers));
            if (!f.control) {
                CHECK(c, hi.stream_id == f.sid, "stream-id-wrong", where);
                CHECK(c, hi.last_chunk == ((f.flags & 1) != 0), "last-chunk-wrong", where);
                const char *q = par.get_spdy_data_content();
                CHECK(c, q == ptr + 8, "data-content-pointer-wrong", where);
                size_t n = last && cut_data ? have : f.content.size();
                CHECK(c, std::string(q, n) == f.content.substr(0, n), "data-content-wrong", where);
                c.count("data_frames");
            }
            hd = mix64(hd ^ (f.type * 31 + f.headers.size() * 7 + f.flags));
            if (!last) ptr = par.get_spdy_read_pointer();
        }
        if (c.failed) return;
        c.count("packets");
    }
    c.count("connections");
    c.distinct(hd);
    if (c.want_sample()) c.sample("connection of " + std::to_string(npk) + " packets");
}
SCENARIO("P15", "connections", 4000, 60000) { connection(c, false); }
SCENARIO("P15", "large_frames", 200, 4000) { connection(c, true); }

// a header block that ends before its last name or value does is refused, and what it lacks is not made up
SCENARIO("P15", "short_blocks", 3000, 40000) {
    Rng& r = c.rng; Zip req(r), rep(r); spdy::decompressor_ptr d = make_decomp(); spdy::parser par; uint64_t h = 1;
    for (int k = 0, n = (int)r.range(1, 8); k < n; ++k) {
        std::vector<std::string> o; Headers hs; do { o.clear(); hs = gen_headers(r, o); } while (o.empty() && r.chance(90));
        std::string b = block_of(hs, o); bool whole = r.chance(25); size_t at = b.size();
        if (!whole) {
            std::vector<size_t> ends(1, 2); size_t q = 2; for (auto& x : o) { ends.push_back(q += 2); ends.push_back(q += x.size()); ends.push_back(q += 2); ends.push_back(q += hs[x].size()); }
            at = r.chance(40) ? r.below(b.size()) : r.pick(ends); if (at >= b.size() || r.chance(30)) { size_t back = 1 + r.below(3); at = at > back ? at - back : 0; }
            if (at >= b.size()) at = b.size() - 1;
            // the lengths are right but the block stops; or the block is whole and its last length reaches past its end
            if (o.size() && r.chance(40)) { at = b.size(); const std::string& v = hs[o.back()]; bool name = r.chance(50); uint32_t by = 1 + (uint32_t)r.below(r.chance(60) ? 3 : 300);
                if (name && v.size()) by = std::max<uint32_t>(by, (uint32_t)v.size() + 1); else if (name) by = std::max<uint32_t>(by, 1);
                size_t lo = b.size() - v.size() - 2 - (name ? o.back().size() + 2 : 0); uint32_t l = (uint32_t)(name ? o.back().size() : v.size()) + by; b[lo] = (char)(l >> 8); b[lo + 1] = (char)l; c.count("lengths_past_end"); }
        }
        b.resize(at);
        static const int types[] = { SPDY_SYN_STREAM, SPDY_SYN_REPLY, SPDY_HEADERS }; int type = types[r.below(3)]; uint32_t sid = gen_sid(r, 1);
        std::string z = (type == SPDY_SYN_STREAM ? req : rep).pack(b), f = ctl(2, type, 0, be32(sid) + (type == SPDY_SYN_STREAM ? be32(0) : "") + be16(0) + z);
        std::string where = "block of " + std::to_string(at) + " bytes, " + std::to_string(o.size()) + " headers: " + hex(b.substr(b.size() > 40 ? b.size() - 40 : 0));
        Packet pk(r, f); spdy::http_protocol_info hi; boost::system::error_code ec; uint32_t len = pk.n; boost::tribool rc = par.parse(hi, ec, d, pk.p, len, 1);
        if (whole) { CHECK(c, rc == true && !ec && hi.http_headers == hs, "block-after-short-one", where + " got " + show_h(hi.http_headers)); c.count("whole_blocks"); }
        else {
            CHECK(c, !(rc == true) && ec, "short-block-accepted", where + " got " + show_h(hi.http_headers));
            for (auto& x : hi.http_headers) CHECK(c, hs.count(x.first) && hs[x.first] == x.second, "header-made-up", where + " got " + show_h(hi.http_headers));
            c.count("short_blocks_refused");
        }
        h = hash_str(b, h);
    }
    c.distinct(h);
}

// every first two bytes x every type
SCENARIO("P15", "classify", 256, 256) {
    Rng& r = c.rng;
    unsigned hi = (unsigned)(c.index & 255);
    for (unsigned lo = 0; lo < 256; ++lo) for (int k = 0; k < 24; ++k) {
        unsigned type = k < 16 ? (unsigned)k : (unsigned)r.below(65536);
        std::string s; s += (char)hi; s += (char)lo; s += be16(type);
        Guarded g(4); memcpy(g.p, s.data(), 4);
        unsigned ver = ((hi << 8) | lo) & 0x7fff;
        bool want = (hi & 0x80) && ver >= 1 && ver <= 3 && type < 11;
        CHECK(c, spdy::parser::is_spdy_control_frame(g.p) == want, "control-kind-wrong", hex(s));
        if (k == 0) {
            Guarded g1(1); g1.p[0] = (char)hi;
            spdy::spdy_frame_type w = hi == 0x80 ? spdy::spdy_control_frame : hi == 0 ? spdy::spdy_data_frame : spdy::spdy_invalid_frame;
            CHECK(c, spdy::parser::get_spdy_frame_type(g1.p) == w, "frame-kind-wrong", hex(s));
        }
        c.count("classifications");
        // anything that is neither kind of frame is refused
        if (k >= 20 || (k < 11 && hi == 0x80 && lo > 3)) {
            std::string full = s + r.bytes(8 + r.below(20));
            Packet pk(r, full); spdy::http_protocol_info info; boost::system::error_code ec; uint32_t len = pk.n;
            spdy::parser par; spdy::decompressor_ptr d; // no header frame gets as far as needing it
            if (hi != 0x80 && hi != 0) {
                boost::tribool rc = par.parse(info, ec, d, pk.p, len, 1);
                CHECK(c, rc == false && ec, "non-spdy-accepted", hex(full));
                c.count("non_spdy_refused");
            } else if (hi == 0x80 && type >= 11) {
                boost::tribool rc = par.parse(info, ec, d, pk.p, len, 1);
                CHECK(c, rc == false && ec, "invalid-type-accepted", hex(full));
                c.count("invalid_types_refused");
            } else if (hi == 0x80 && lo > 3) {
                boost::tribool rc = par.parse(info, ec, d, pk.p, len, 1);
                CHECK(c, rc == false && ec, "invalid-version-accepted", hex(full));
                c.count("invalid_versions_refused");
            }
        }
    }
    c.distinct(hi);
}

// ---------------------------------------------------------------- P14
static void walk(Ctx& c, spdy::parser& par, const spdy::decompressor_ptr& d, const std::string& bytes) {
    Packet pk(c.rng, bytes);
    const char *ptr = pk.p, *end = pk.p + pk.n; uint32_t len = pk.n;
    for (int steps = 0; ; ++steps) {
        CHECK(c, steps < 200000, "walk-does-not-progress", hex(bytes));
        spdy::http_protocol_info hi; boost::system::error_code ec; uint32_t before = len;
        boost::tribool rc = par.parse(hi, ec, d, ptr, len, (uint32_t)c.rng.below(5));
        c.count("frames");
        const char *rd = par.get_spdy_read_pointer();
        CHECK(c, rd >= pk.p && rd <= end, "read-pointer-outside-packet", hex(bytes));
        CHECK(c, len <= before, "length-grew", hex(bytes));
        if (rc == false) { CHECK(c, ec, "refused-without-error", hex(bytes)); c.count("refused"); return; }
        if (rc == true) {
            const char *q = par.get_spdy_data_content();
            CHECK(c, !ec && q >= pk.p && q <= end, "content-pointer-outside-packet", hex(bytes));
            c.count("finished"); return;
        }
        if (ec) { c.count("incomplete"); return; }
        const char *q = par.get_spdy_data_content();
        CHECK(c, q >= pk.p && q <= end, "content-pointer-outside-packet", hex(bytes));
        CHECK(c, len < before && rd == end - len, "walk-inconsistent", hex(bytes));
        ptr = rd; c.count("continued");
    }
}
static std::string hostile_block(Rng& r) {
    // uncompressed header block whose counts and lengths lie
    std::vector<std::string> o; Headers h = gen_headers(r, o); std::string b = block_of(h, o);
    switch (r.below(8)) {
        case 0: { uint32_t n = (uint32_t)r.below(65536); b[0] = (char)(n >> 8); b[1] = (char)n; break; }
        case 1: b.resize(r.below(b.size() + 1)); break;
        case 2: for (int i = 0; i < 4; ++i) b[r.below(b.size())] = (char)r.next(); break;
        case 3: b = r.bytes(r.below(40)); break;
        case 4: b = be16(65535) + r.from(std::string("\0\xff\x7f\x80\x01", 5), r.below(16384)); break;
        case 5: b += std::string(r.below(40000), 'x'); break; // oversized when inflated
        case 6: { // fills the inflate buffer (or nearly), the last name or value ending at, or a few bytes past, its end
            size_t total = 16384 - (r.chance(80) ? 0 : r.below(8)), left = total - 2; bool name = r.chance(50); b = be16(1);
            if (!name) { size_t k = r.below(200); b += be16((uint32_t)k) + std::string(k, 'n'); left -= k + 2; }
            uint32_t l = (uint32_t)(left - 2); b += be16((uint32_t)((int)l + (int)r.range(-3, 3))) + std::string(l, r.chance(50) ? '\0' : 'v'); break; }
        default: { // last name or value reaches exactly to, or just past, the end
            uint32_t left = (uint32_t)r.below(20); b = be16((uint32_t)r.range(1, 3)) + be16(left + (uint32_t)r.range(-1, 2)) + std::string(left, 'n');
            if (r.chance(50)) b += be16((uint32_t)r.below(6)) + std::string(r.below(6), 'v'); }
    }
    return b;
}
static std::string hostile(Rng& r, Zip& req, Zip& rep) {
    std::string s;
    switch (r.below(8)) {
        case 0: s = r.bytes(r.below(40)); if (s.size() && r.chance(80)) s[0] = r.chance(50) ? (char)0x80 : 0; break;
        case 1: { // any type and version, any announced length, any body
            std::string body = r.bytes(r.below(30)); s = ctl((int)r.below(5), (int)r.below(13), (int)r.below(256), body);
            if (r.chance(60)) { uint32_t n = r.chance(50) ? (uint32_t)body.size() + (uint32_t)r.range(-3, 3) : (uint32_t)r.next(); s[5] = (char)(n >> 16); s[6] = (char)(n >> 8); s[7] = (char)n; }
            break; }
        case 2: case 3: { // header frame with a lying block, correctly compressed
            int type = r.chance(50) ? SPDY_SYN_STREAM : r.chance(50) ? SPDY_SYN_REPLY : SPDY_HEADERS;
            uint32_t sid = gen_sid(r, -1); bool toreq = type == SPDY_SYN_STREAM && (sid & 1);
            std::string b = hostile_block(r), z = (toreq ? req : rep).pack(b, r.chance(90) ? Z_SYNC_FLUSH : Z_FINISH);
            if (b.size() == 16384 && r.chance(90)) z.resize(z.size() - std::min<size_t>(z.size(), (size_t)r.range(4, 8))); // the full buffer leaves no room to take in the end mark
            s = ctl((int)r.range(1, 3), type, (int)r.below(4), be32(sid) + (type == SPDY_SYN_STREAM ? be32(0) : "") + be16(0) + z);
            break; }
        case 4: { // header frame with damaged compressed data
            Frame f = gen_frame(r, req, rep, false); s = f.bytes;
            for (int i = 0, n = (int)r.range(1, 5); i < n && s.size() > 8; ++i) s[8 + r.below(s.size() - 8)] = (char)r.next();
            break; }
        case 5: { // any frame cut anywhere
            Frame f = gen_frame(r, req, rep, false); s = f.bytes.substr(0, r.below(f.bytes.size() + 1)); break; }
        case 6: { // frame with a wrong length field
            Frame f = gen_frame(r, req, rep, false); s = f.bytes;
            uint32_t n = (uint32_t)s.size() - 8 + (uint32_t)r.range(-12, 12); s[5] = (char)(n >> 16); s[6] = (char)(n >> 8); s[7] = (char)n; break; }
        default: s = gen_frame(r, req, rep, false).bytes;
    }
    return s;
}
SCENARIO("P14", "hostile_packets", 8000, 150000) {
    Rng& r = c.rng; Zip req(r), rep(r);
    spdy::decompressor_ptr d; if (!r.chance(5)) d = make_decomp();
    spdy::parser par;
    int n = (int)r.range(1, 8); uint64_t h = 1;
    for (int i = 0; i < n && !c.failed; ++i) {
        std::string s = hostile(r, req, rep); while (r.chance(30)) s += hostile(r, req, rep);
        h = hash_str(s, h);
        walk(c, par, d, s); c.count("packets");
    }
    c.distinct(h);
    if (c.want_sample()) c.sample("hash " + std::to_string(h));
}
// every truncation and every small length field of each header frame
SCENARIO("P14", "every_cut", 60, 800) {
    Rng& r = c.rng; Zip req(r), rep(r);
    Frame f; do f = gen_frame(r, req, rep, false); while (!f.control || f.bytes.size() > 600);
    for (size_t n = 0; n <= f.bytes.size() && !c.failed; ++n) {
        spdy::decompressor_ptr d = make_decomp(); spdy::parser par; walk(c, par, d, f.bytes.substr(0, n)); c.count("cuts");
        std::string s = f.bytes; s[5] = (char)(n >> 16); s[6] = (char)(n >> 8); s[7] = (char)n;
        if (c.failed) return;
        spdy::decompressor_ptr d2 = make_decomp(); spdy::parser p2; walk(c, p2, d2, s); c.count("length_fields");
    }
    c.distinct(f.bytes);
}
// the static classifiers look only at the bytes they need
SCENARIO("P14", "classifiers", 200, 4000) {
    Rng& r = c.rng;
    std::string s = r.bytes(12);
    Guarded a(1), b(4), e(12); a.p[0] = s[0]; memcpy(b.p, s.data(), 4); memcpy(e.p, s.data(), 12);
    spdy::parser::get_spdy_frame_type(a.p); spdy::parser::is_spdy_control_frame(b.p); spdy::parser::get_control_frame_stream_id(e.p);
    c.count("classified"); c.count("padding_bytes_guarded", padding()); c.distinct(s);
}

int main(int argc, char **argv) { return vh::run(argc, argv, 60, 120); }
