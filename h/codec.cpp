// Monitors for the text / number codecs and the HTTP text builders.
#include "vh.hpp"
#include <pion/algorithm.hpp>
#include <pion/http/types.hpp>
#include <pion/http/parser.hpp>
#include <math.h>
#include <float.h>
using namespace vh;
using pion::algorithm;

// ---------------------------------------------------------------- reference codecs
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_b64(const std::string& in) {
    std::string o; uint32_t acc = 0; int bits = 0;
    for (unsigned char ch : in) { acc = (acc << 8) | ch; bits += 8; while (bits >= 6) { bits -= 6; o += B64[(acc >> bits) & 63]; } }
    if (bits) o += B64[(acc << (6 - bits)) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
static int b64val(unsigned char c) { const char *p = c ? strchr(B64, c) : 0; return p ? (int)(p - B64) : -1; }
static int hexval(unsigned char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
// '+' -> space; %HH -> byte, except that %00 and non-hex escapes stay as they are
static std::string ref_urldec(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '+') o += ' ';
        else if (s[i] == '%' && i + 2 < s.size() && hexval(s[i+1]) >= 0 && hexval(s[i+2]) >= 0
                 && hexval(s[i+1]) * 16 + hexval(s[i+2]) != 0) { o += (char)(hexval(s[i+1]) * 16 + hexval(s[i+2])); i += 2; }
        else o += s[i];
    }
    return o;
}

static std::string gen_bytes(Rng& r) {
    switch (r.below(8)) {
        case 0: return r.bytes(r.below(4));
        case 1: return r.bytes(r.below(64));
        case 2: return r.from(std::string("\0\x7f\x80\xff\xfe\x01 aZ", 9), r.below(40));
        case 3: return r.bytes(r.below(4000));
        case 4: return std::string(r.below(300), (char)r.next());
        case 5: return r.from("%+ &=,/;:?@#\"<>{}|\\^~[]`$'()*!-_.", r.below(60));
        default: return r.from("abcXYZ019 -_~.%/", r.below(50));
    }
}

// ---------------------------------------------------------------- P09 base64 / URL
SCENARIO("P09", "b64_roundtrip", 60000, 800000) {
    std::string in;
    if (c.index < 65536 + 257) { // all strings of length 0..2 first (quick covers a large part, thorough all)
        uint64_t k = c.index; if (k == 0) in = ""; else if (k < 257) in = std::string(1, (char)(k - 1)); else { k -= 257; in = std::string(1, (char)(k >> 8)) + (char)k; }
    }
    if (c.index % 3 == 1) in = gen_bytes(c.rng);
    std::string enc = "junk", dec = "junk", want = ref_b64(in);
    bool e = algorithm::base64_encode(in, enc);
    CHECK(c, e && enc == want, "b64-encode-wrong", "in=" + hex(in) + " got=" + show(enc) + " want=" + show(want));
    bool d = algorithm::base64_decode(enc, dec);
    CHECK(c, d && dec == in, "b64-roundtrip", "in=" + hex(in) + " enc=" + show(enc) + " dec=" + hex(dec));
    // unpadded canonical text decodes to the same bytes
    std::string np = want; while (!np.empty() && np[np.size()-1] == '=') np.resize(np.size()-1);
    d = algorithm::base64_decode(np, dec);
    CHECK(c, d && dec == in, "b64-unpadded", "enc=" + show(np) + " dec=" + hex(dec));
    c.count("base64_roundtrips"); c.distinct(hash_str(in)); 
    if (in.size() > 5 && in.size() < 30) c.sample("base64 " + hex(in) + " -> " + enc);
}
SCENARIO("P09", "b64_hostile", 60000, 800000) {
    std::string in;
    Rng& r = c.rng;
    switch (r.below(4)) {
        case 0: in = r.bytes(r.below(12)); break;
        case 1: { in = ref_b64(gen_bytes(r)); if (!in.empty()) in[r.below(in.size())] = (char)r.next(); break; }
        case 2: in = r.from(std::string("AZaz09+/=") + "\x80\xff-_ \n", r.below(24)); break;
        default: { in = ref_b64(r.bytes(r.below(20))); size_t p = r.below(in.size() + 1); in.insert(p, r.bytes(1 + r.below(2))); }
    }
    std::string out = "junk";
    bool ok = algorithm::base64_decode(in, out);
    // first symbol that is not of the alphabet, before any padding: must be refused
    size_t bad = std::string::npos, pad = std::string::npos;
    for (size_t i = 0; i < in.size(); ++i) {
        if (in[i] == '=') { pad = i; break; }
        if (b64val(in[i]) < 0) { bad = i; break; }
    }
    if (bad != std::string::npos) { CHECK(c, !ok, "b64-accepts-invalid", "in=" + hex(in) + " out=" + hex(out)); c.count("base64_rejected"); }
    if (ok) {
        // what was accepted is the plain base64 reading of the symbols before the padding
        std::string body = in.substr(0, pad == std::string::npos ? in.size() : pad), want;
        uint32_t acc = 0; int bits = 0;
        for (unsigned char ch : body) { acc = (acc << 6) | (uint32_t)b64val(ch); bits += 6; if (bits >= 8) { bits -= 8; want += (char)(acc >> bits); } }
        CHECK(c, out == want, "b64-decode-wrong", "in=" + hex(in) + " out=" + hex(out) + " want=" + hex(want));
        c.count("base64_accepted");
    }
    c.distinct(hash_str(in, 7));
}
SCENARIO("P09", "data_uri", 20000, 200000) {
    Rng& r = c.rng;
    std::string in = gen_bytes(r), type = r.from("abc/;-+", 1 + r.below(20)), uri;
    // exact-size heap copy: over-reads are visible to ASan
    std::vector<char> buf(in.begin(), in.end());
    bool ok = pion::http::parser::binary_2base64(uri, buf.empty() ? (const char*)"" : &buf[0], buf.size(), type);
    CHECK(c, ok, "datauri-encode-refused", "in=" + hex(in));
    std::string want = "data:" + type + "; base64, " + ref_b64(in);
    CHECK(c, uri == want, "datauri-encode-wrong", "in=" + hex(in) + " got=" + show(uri) + " want=" + show(want));
    // a buffer that is too small is refused and the required size (text and final NUL) reported;
    // a heap buffer of exactly that size is enough
    std::size_t n = 777, n2 = 888; std::string t;
    if (in.size() > 1) {
        std::vector<char> small(1 + r.below(in.size()), 'x');
        ok = pion::http::parser::base64_2binary(&small[0], small.size(), n, t, uri);
        CHECK(c, !ok && n == in.size() + 1, "datauri-required-size", "in=" + hex(in) + " ok=" + std::to_string(ok) + " n=" + std::to_string(n));
    }
    std::vector<char> out(in.size() + 1, 'x');
    ok = pion::http::parser::base64_2binary(&out[0], out.size(), n2, t, uri);
    CHECK(c, ok && n2 == in.size() + 1 && std::string(&out[0], in.size()) == in && t == type, "datauri-roundtrip", "in=" + hex(in) + " type=" + type + " n=" + std::to_string(n2));
    c.count("data_uri_roundtrips"); c.distinct(hash_str(in, 9));
}
SCENARIO("P09", "data_uri_hostile", 20000, 200000) {
    Rng& r = c.rng;
    std::string uri = r.chance(90) ? "data:" : r.from("dat:", r.below(6));
    uri += r.from("text/plain;=", r.below(12)); if (r.chance(90)) uri += "; base64, ";
    uri += r.chance(50) ? r.from(std::string(B64) + "=", r.below(20)) : r.chance(50) ? r.from(B64, r.below(20)) : r.bytes(r.below(12));
    std::size_t n = 0; std::string t;
    try {
        if (pion::http::parser::base64_2binary(NULL, 0, n, t, uri)) return;
        if (!n || n > 1000) return;
        std::vector<char> out(n, 'x'); // exactly the size it asked for
        std::size_t n2 = 0;
        bool ok = pion::http::parser::base64_2binary(&out[0], out.size(), n2, t, uri);
        if (ok) { CHECK(c, n2 <= out.size(), "datauri-size-grew", show(uri)); c.count("data_uri_hostile_accepted"); }
    } catch (std::exception&) { c.count("data_uri_hostile_refused"); }
    c.distinct(hash_str(uri, 10));
}
SCENARIO("P09", "url_roundtrip", 60000, 800000) {
    std::string in = gen_bytes(c.rng);
    if (c.index < 256) in = std::string(1, (char)c.index);
    std::string enc = algorithm::url_encode(in);
    for (unsigned char ch : enc) CHECK(c, ch > 32 && ch < 127, "url-encode-unsafe-byte", "in=" + hex(in) + " enc=" + show(enc));
    CHECK(c, enc.find_first_of(" $&+,/:;=?@\"<>#{}|\\^~[]`") == std::string::npos, "url-encode-reserved", "in=" + hex(in) + " enc=" + show(enc));
    for (size_t i = 0; i < enc.size(); ++i) if (enc[i] == '%')
        CHECK(c, i + 2 < enc.size() && hexval(enc[i+1]) >= 0 && hexval(enc[i+2]) >= 0, "url-encode-bad-escape", "in=" + hex(in) + " enc=" + show(enc));
    // a NUL byte is the one value whose escape is deliberately not decoded
    if (in.find('\0') == std::string::npos && enc.size() >= 0) {
        std::string dec = algorithm::url_decode(enc);
        CHECK(c, dec == in, "url-roundtrip", "in=" + hex(in) + " enc=" + show(enc) + " dec=" + hex(dec));
        c.count("url_roundtrips");
    }
    c.distinct(hash_str(in, 11));
}
SCENARIO("P09", "url_decode_any", 140000, 1200000) {
    std::string in; Rng& r = c.rng;
    if (c.index < 65536) { in = "%"; in += (char)(c.index >> 8); in += (char)c.index; in += r.chance(50) ? "z" : ""; } // every escape
    else if (r.chance(50)) in = r.from("%%%%+0123456789abcdefABCDEFgGxX- \t", r.below(24));
    else in = gen_bytes(r);
    std::string got = algorithm::url_decode(in), want = ref_urldec(in);
    CHECK(c, got == want, "url-decode-wrong", "in=" + hex(in) + " (" + show(in) + ") got=" + hex(got) + " want=" + hex(want));
    c.count("url_decodes"); c.distinct(hash_str(in, 12));
}

// ---------------------------------------------------------------- P10 XML escaping
static int utf8_at(const std::string& s, size_t i, uint32_t& cp) { // length of the well-formed sequence at i, 0 if none
    unsigned char b = s[i]; 
    auto cont = [&](size_t k) { return i + k < s.size() && ((unsigned char)s[i+k] & 0xC0) == 0x80; };
    if (b < 0x80) { cp = b; return 1; }
    if (b >= 0xC2 && b <= 0xDF && cont(1)) { cp = ((b & 31) << 6) | (s[i+1] & 63); return 2; }
    if (b >= 0xE0 && b <= 0xEF && cont(1) && cont(2)) {
        cp = ((b & 15) << 12) | ((s[i+1] & 63) << 6) | (s[i+2] & 63);
        if (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF)) return 0;
        return 3;
    }
    if (b >= 0xF0 && b <= 0xF4 && cont(1) && cont(2) && cont(3)) {
        cp = ((b & 7) << 18) | ((s[i+1] & 63) << 12) | ((s[i+2] & 63) << 6) | (s[i+3] & 63);
        if (cp < 0x10000 || cp > 0x10FFFF) return 0;
        return 4;
    }
    return 0;
}
static bool xmlchar(uint32_t cp) {
    return cp == 9 || cp == 10 || cp == 13 || (cp >= 0x20 && cp <= 0xD7FF) || (cp >= 0xE000 && cp <= 0xFFFD) || (cp >= 0x10000 && cp <= 0x10FFFF);
}
static std::string enc_utf8(uint32_t cp) {
    std::string s;
    if (cp < 0x80) s += (char)cp;
    else if (cp < 0x800) { s += (char)(0xC0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { s += (char)(0xE0 | cp >> 12); s += (char)(0x80 | ((cp >> 6) & 63)); s += (char)(0x80 | (cp & 63)); }
    else { s += (char)(0xF0 | cp >> 18); s += (char)(0x80 | ((cp >> 12) & 63)); s += (char)(0x80 | ((cp >> 6) & 63)); s += (char)(0x80 | (cp & 63)); }
    return s;
}
static void xml_oracle(Ctx& c, const std::string& in, bool wellformed_in) {
    std::string out = algorithm::xml_encode(in);
    // 1. the output is well-formed character data / attribute data
    std::string plain; size_t repl = 0;
    for (size_t i = 0; i < out.size();) {
        uint32_t cp = 0; int n = utf8_at(out, i, cp);
        CHECK(c, n > 0, "xml-output-bad-utf8", "in=" + hex(in) + " out=" + hex(out));
        CHECK(c, xmlchar(cp), "xml-output-bad-char", "in=" + hex(in) + " out=" + hex(out));
        CHECK(c, cp != '<' && cp != '>' && cp != '"' && cp != '\'', "xml-output-unescaped", "in=" + show(in) + " out=" + show(out));
        if (cp == '&') {
            static const char *ents[][2] = { {"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"} };
            bool hit = false;
            for (auto& e : ents) if (out.compare(i, strlen(e[0]), e[0]) == 0) { plain += e[1]; i += strlen(e[0]); hit = true; break; }
            CHECK(c, hit, "xml-output-bare-amp", "in=" + show(in) + " out=" + show(out));
            continue;
        }
        if (cp == 0xFFFD) ++repl;
        plain.append(out, i, n); i += n;
    }
    // 2. un-escaping gives the input back, with only invalid material replaced
    if (wellformed_in) CHECK(c, plain == in, "xml-lossy", "in=" + hex(in) + " back=" + hex(plain));
    else {
        // every maximal run of valid characters of the input survives in order; at least one replacement per gap
        size_t p = 0; 
        for (size_t i = 0; i < in.size();) {
            uint32_t cp = 0; int n = utf8_at(in, i, cp);
            if (n && xmlchar(cp)) {
                std::string ch = in.substr(i, n);
                CHECK(c, plain.compare(p, n, ch) == 0, "xml-valid-char-lost", "in=" + hex(in) + " back=" + hex(plain) + " at=" + std::to_string(i));
                p += n; i += n;
            } else {
                // an invalid stretch: 1 or more replacement characters, no more than one per byte
                size_t bytes = 0, reps = 0, j = i;
                while (j < in.size()) { uint32_t q = 0; int m = utf8_at(in, j, q); if (m && xmlchar(q)) break; size_t adv = m ? m : 1; bytes += adv; j += adv; }
                while (reps < bytes && plain.compare(p, 3, "\xEF\xBF\xBD") == 0) { p += 3; ++reps; }
                CHECK(c, reps >= 1, "xml-invalid-not-replaced", "in=" + hex(in) + " back=" + hex(plain) + " at=" + std::to_string(i));
                i = j;
                c.count("xml_invalid_runs_replaced");
            }
        }
        // a genuine U+FFFD after an invalid run may have been eaten by the count above
        while (p + 3 <= plain.size() && plain.compare(p, 3, "\xEF\xBF\xBD") == 0) p += 3;
        CHECK(c, p == plain.size(), "xml-extra-output", "in=" + hex(in) + " back=" + hex(plain));
    }
    c.count("xml_encodes"); c.count("xml_output_bytes_checked", out.size());
}
SCENARIO("P10", "xml_valid", 60000, 1114112) {
    Rng& r = c.rng; std::string in;
    // sweep of code points plus random text
    uint32_t cp = (uint32_t)(G().tier == "thorough" ? c.index : (c.index * 18 + r.below(18))) % 0x110000;
    if (xmlchar(cp)) in += enc_utf8(cp);
    size_t n = r.below(12);
    for (size_t i = 0; i < n; ++i) {
        uint32_t q;
        static const uint32_t edge[] = { 9, 10, 13, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0xfffff, 0x100000, 0x10ffff, '&', '<', '>', '"', '\'', ';' };
        do { q = r.chance(60) ? edge[r.below(sizeof edge / sizeof *edge)] : (uint32_t)r.below(0x110000); } while (!xmlchar(q));
        in += enc_utf8(q);
    }
    xml_oracle(c, in, true);
    c.distinct(hash_str(in, 20));
    if (in.size() > 4) c.sample("xml " + hex(in) + " -> " + show(algorithm::xml_encode(in)));
}
SCENARIO("P10", "xml_hostile", 120000, 2000000) {
    Rng& r = c.rng; std::string in;
    size_t n = 1 + r.below(10);
    for (size_t i = 0; i < n; ++i) {
        switch (r.below(6)) {
            case 0: in += r.bytes(1 + r.below(4)); break;
            case 1: { static const unsigned char lead[] = { 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF };
                      in += (char)lead[r.below(sizeof lead)]; 
                      static const unsigned char cont[] = { 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0x7F, '<', '&', 0 };
                      for (size_t k = r.below(4); k; --k) in += (char)cont[r.below(sizeof cont)];
                      break; }
            case 2: in += r.from("<>&\"'", 1); break;
            case 3: in += enc_utf8((uint32_t)r.below(0x110000)); break; // may be a surrogate or non-character
            case 4: in += (char)r.below(32); break;
            default: in += "x";
        }
    }
    if (r.chance(30) && !in.empty()) in.resize(in.size() - 1); // truncated tail
    xml_oracle(c, in, false);
    c.distinct(hash_str(in, 21));
}

// ---------------------------------------------------------------- P11 numbers
template <class B> static void ints_with(Ctx& c, uint64_t v) {
    B *buf = new B[8]; // exact-size heap block so that stray writes are seen
    struct Del { B *p; ~Del() { delete[] p; } } del = { buf };
    auto rd = [&](int n) { uint64_t x = 0; for (int i = 0; i < n; ++i) x = x << 8 | (unsigned char)buf[i]; return x; };
#define INT_CASE(W, U, S, MASK) do { \
        memset(buf, 0x5a, 8); \
        algorithm::from_uint##W(buf, (U)(v & MASK)); \
        for (int q = W / 8; q < 8; ++q) CHECK(c, (unsigned char)buf[q] == 0x5a, "int-writes-past-" #W, "v=" + std::to_string(v)); \
        CHECK(c, rd(W / 8) == (v & MASK), "uint" #W "-bytes", "v=" + std::to_string(v)); \
        CHECK(c, (uint64_t)algorithm::to_uint##W(buf) == (v & MASK), "uint" #W "-roundtrip", "v=" + std::to_string(v)); \
        memset(buf, 0xa5, 8); \
        algorithm::from_int##W(buf, (S)(v & MASK)); \
        for (int q = W / 8; q < 8; ++q) CHECK(c, (unsigned char)buf[q] == 0xa5, "int-writes-past-" #W, "v=" + std::to_string(v)); \
        CHECK(c, rd(W / 8) == (v & MASK), "int" #W "-bytes", "v=" + std::to_string(v)); \
        CHECK(c, ((uint64_t)algorithm::to_int##W(buf) & MASK) == (v & MASK), "int" #W "-roundtrip", "v=" + std::to_string(v)); \
        c.count("int_roundtrips", 2); } while (0)
    INT_CASE(8, uint8_t, int8_t, 0xFFULL);
    INT_CASE(16, uint16_t, int16_t, 0xFFFFULL);
    INT_CASE(24, uint32_t, int32_t, 0xFFFFFFULL);
    INT_CASE(32, uint32_t, int32_t, 0xFFFFFFFFULL);
    INT_CASE(64, uint64_t, int64_t, 0xFFFFFFFFFFFFFFFFULL);
    // sign of the full-width signed forms
    algorithm::from_int8(buf, (int8_t)v);   CHECK(c, algorithm::to_int8(buf) == (int8_t)v, "int8-sign", std::to_string(v));
    algorithm::from_int16(buf, (int16_t)v); CHECK(c, algorithm::to_int16(buf) == (int16_t)v, "int16-sign", std::to_string(v));
    algorithm::from_int32(buf, (int32_t)v); CHECK(c, algorithm::to_int32(buf) == (int32_t)v, "int32-sign", std::to_string(v));
    algorithm::from_int64(buf, (int64_t)v); CHECK(c, algorithm::to_int64(buf) == (int64_t)v, "int64-sign", std::to_string(v));
    // byte-argument forms agree with the pointer forms
    B b[8]; for (int i = 0; i < 8; ++i) b[i] = (B)(v >> (56 - 8 * i));
    CHECK(c, algorithm::to_uint16(b[0], b[1]) == algorithm::to_uint16(b) && algorithm::to_uint16(b) == (uint16_t)(v >> 48), "uint16-args", std::to_string(v));
    CHECK(c, algorithm::to_int16(b[0], b[1]) == (int16_t)(v >> 48), "int16-args", std::to_string(v));
    CHECK(c, algorithm::to_uint24(b[0], b[1], b[2]) == (uint32_t)(v >> 40), "uint24-args", std::to_string(v));
    CHECK(c, ((uint32_t)algorithm::to_int24(b[0], b[1], b[2]) & 0xFFFFFF) == (uint32_t)(v >> 40), "int24-args", std::to_string(v));
    CHECK(c, algorithm::to_uint32(b[0], b[1], b[2], b[3]) == (uint32_t)(v >> 32), "uint32-args", std::to_string(v));
    CHECK(c, algorithm::to_int32(b[0], b[1], b[2], b[3]) == (int32_t)(v >> 32), "int32-args", std::to_string(v));
    CHECK(c, algorithm::to_uint64(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]) == v, "uint64-args", std::to_string(v));
    CHECK(c, algorithm::to_int64(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]) == (int64_t)v, "int64-args", std::to_string(v));
}
SCENARIO("P11", "ints", 70000, 1000000) {
    Rng& r = c.rng; uint64_t v;
    if (c.index < 65536) v = c.index | (uint64_t)c.index << 16 | (uint64_t)c.index << 32 | (uint64_t)c.index << 48;
    else switch (r.below(4)) {
        case 0: v = r.next(); break;
        case 1: v = 1ULL << r.below(64); if (r.chance(50)) v -= 1; break;
        case 2: { v = 0; for (int i = 0; i < 8; ++i) { static const unsigned char e[] = { 0, 1, 0x7f, 0x80, 0x81, 0xff }; v = v << 8 | e[r.below(6)]; } break; }
        default: v = ~(uint64_t)r.below(1000);
    }
    ints_with<unsigned char>(c, v);
    if (!c.failed) ints_with<char>(c, v);
    c.distinct(v);
}
template <class B> static void float_case(Ctx& c, uint32_t bits) {
    float f; memcpy(&f, &bits, 4);
    B *buf = new B[4]; struct Del { B *p; ~Del() { delete[] p; } } del = { buf };
    memset(buf, 0x5a, 4);
    algorithm::from_float(buf, f);
    uint32_t got = 0; for (int i = 0; i < 4; ++i) got = got << 8 | (unsigned char)buf[i];
    bool nan = f != f;
    char d[200]; snprintf(d, sizeof d, "bits=%08x value=%.9g encoded=%08x", bits, f, got);
    const char *cls = nan ? "nan" : isinf(f) ? "inf" : f == 0 ? "zero" : fabsf(f) < FLT_MIN ? "subnormal" : "normal";
    if (!nan) CHECK(c, got == bits, std::string("float-bytes-") + cls, d);
    else CHECK(c, (got & 0x7f800000) == 0x7f800000 && (got & 0x7fffff), "float-bytes-nan", d);
    for (int i = 0; i < 4; ++i) buf[i] = (B)(bits >> (24 - 8 * i));
    float g = algorithm::to_float(buf); uint32_t gb; memcpy(&gb, &g, 4);
    if (nan) CHECK(c, g != g, "float-value-nan", d); else CHECK(c, gb == bits, std::string("float-value-") + cls, d);
    c.count(std::string("float_") + cls);
}
template <class B> static void double_case(Ctx& c, uint64_t bits) {
    double f; memcpy(&f, &bits, 8);
    B *buf = new B[8]; struct Del { B *p; ~Del() { delete[] p; } } del = { buf };
    memset(buf, 0x5a, 8);
    algorithm::from_double(buf, f);
    uint64_t got = 0; for (int i = 0; i < 8; ++i) got = got << 8 | (unsigned char)buf[i];
    bool nan = f != f;
    char d[200]; snprintf(d, sizeof d, "bits=%016llx value=%.17g encoded=%016llx", (unsigned long long)bits, f, (unsigned long long)got);
    const char *cls = nan ? "nan" : isinf(f) ? "inf" : f == 0 ? "zero" : fabs(f) < DBL_MIN ? "subnormal" : "normal";
    if (!nan) CHECK(c, got == bits, std::string("double-bytes-") + cls, d);
    else CHECK(c, (got & 0x7ff0000000000000ULL) == 0x7ff0000000000000ULL && (got & 0xfffffffffffffULL), "double-bytes-nan", d);
    for (int i = 0; i < 8; ++i) buf[i] = (B)(bits >> (56 - 8 * i));
    double g = algorithm::to_double(buf); uint64_t gb; memcpy(&gb, &g, 8);
    if (nan) CHECK(c, g != g, "double-value-nan", d); else CHECK(c, gb == bits, std::string("double-value-") + cls, d);
    c.count(std::string("double_") + cls);
}
static uint64_t special_bits(Rng& r, int eb, int fb) {
    uint64_t e, f, s = r.below(2), emax = (1ULL << eb) - 1, fmask = (fb == 64 ? ~0ULL : (1ULL << fb) - 1);
    switch (r.below(6)) { case 0: e = 0; break; case 1: e = emax; break; case 2: e = 1; break; case 3: e = emax - 1; break; case 4: e = (emax >> 1) + r.range(-70, 70); break; default: e = r.below(emax + 1); }
    switch (r.below(5)) { case 0: f = 0; break; case 1: f = 1; break; case 2: f = fmask; break; case 3: f = 1ULL << r.below(fb); break; default: f = r.next() & fmask; }
    return s << (eb + fb) | (e & emax) << fb | f;
}
SCENARIO("P11", "floats", 60000, 1500000) {
    uint32_t b = c.index % 2 ? (uint32_t)special_bits(c.rng, 8, 23) : (uint32_t)c.rng.next();
    float_case<unsigned char>(c, b); if (!c.failed) float_case<char>(c, b);
    c.distinct(hash_bytes(&b, 4, 31));
}
SCENARIO("P11", "doubles", 60000, 1500000) {
    uint64_t b = c.index % 2 ? special_bits(c.rng, 11, 52) : c.rng.next();
    double_case<unsigned char>(c, b); if (!c.failed) double_case<char>(c, b);
    c.distinct(hash_bytes(&b, 8, 32));
    if (c.index % 2) { double v; memcpy(&v, &b, 8); char s[80]; snprintf(s, sizeof s, "double %.17g (%016llx)", v, (unsigned long long)b); c.sample(s); }
}
SCENARIO("P11", "long_doubles", 20000, 300000) {
    Rng& r = c.rng;
    // finite values of the x87 format whose binary128 form is exact; exponent range of the format
    uint64_t m = r.next() | 1ULL << 63; if (r.chance(30)) m = 1ULL << 63; if (r.chance(20)) m &= ~0ULL << r.below(63);
    int e = r.chance(40) ? (int)r.range(-1000, 1000) : (int)r.range(-16300, 16300);
    long double v = ldexpl((long double)m, e - 63); if (r.chance(50)) v = -v;
    if (r.chance(3)) v = 0;
    unsigned char *buf = new unsigned char[16]; struct Del { unsigned char *p; ~Del() { delete[] p; } } del = { buf };
    algorithm::from_long_double(buf, v);
    // reference binary128 bytes
    unsigned char w[16]; memset(w, 0, 16);
    if (v != 0) {
        int ex; long double fr = frexpl(fabsl(v), &ex); uint64_t mant = (uint64_t)ldexpl(fr, 64); // top bit set
        unsigned be = (unsigned)(ex - 1 + 16383); 
        w[0] = (signbit(v) ? 0x80 : 0) | (be >> 8); w[1] = be & 255;
        uint64_t frac = mant << 1; for (int i = 0; i < 8; ++i) w[2 + i] = (unsigned char)(frac >> (56 - 8 * i));
    }
    char d[100]; snprintf(d, sizeof d, "value=%.21Lg got=%s want=%s", v, hex(std::string((char*)buf, 16)).c_str(), hex(std::string((char*)w, 16)).c_str());
    if (v != 0) CHECK(c, memcmp(buf, w, 16) == 0, "quad-bytes", d);
    long double g = algorithm::to_long_double(buf);
    CHECK(c, g == v, "quad-roundtrip", d);
    c.count("quad_roundtrips"); c.distinct(hash_bytes(buf, 16, 33));
}

// ---------------------------------------------------------------- P13 dates, query strings, cookies
static int dow(long long days) { long long d = (days + 4) % 7; return (int)(d < 0 ? d + 7 : d); }
static std::string ref_date(long long t) {
    long long days = t / 86400, rem = t % 86400; if (rem < 0) { rem += 86400; --days; }
    long long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long long y = yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    if (m <= 2) ++y;
    static const char *W[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
    static const char *M[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
    char b[80]; snprintf(b, sizeof b, "%s, %02u %s %lld %02lld:%02lld:%02lld GMT", W[dow(days)], d, M[m-1], y, rem / 3600, rem / 60 % 60, rem % 60);
    return b;
}
SCENARIO("P13", "http_date", 40000, 400000) {
    Rng& r = c.rng; long long t;
    switch (r.below(4)) { case 0: t = (long long)r.below(4102444800ULL); break; case 1: t = (long long)r.below(253402300800ULL); break;
        case 2: t = 86400LL * r.below(60000) + r.range(-2, 2); if (t < 0) t = 0; break; default: t = 951782400LL + r.range(-200000, 200000); }
    // years 1000..9999 have four digits in the format
    std::string got = pion::http::types::get_date_string((time_t)t), want = ref_date(t);
    CHECK(c, got == want, "http-date", "t=" + std::to_string(t) + " got=" + got + " want=" + want);
    c.count("dates_checked"); c.distinct((uint64_t)t); c.sample("date " + std::to_string(t) + " -> " + got);
}
SCENARIO("P13", "query_string", 30000, 300000) {
    Rng& r = c.rng; pion::ihash_multimap m; std::multimap<std::string, std::string> want;
    size_t n = r.below(8);
    for (size_t i = 0; i < n; ++i) {
        std::string k = gen_bytes(r), v = gen_bytes(r);
        auto clean = [&](std::string& s) { if (s.size() > 300) s.resize(300); std::string o; for (char ch : s) if (ch) o += ch; s = o; };
        clean(k); clean(v); if (k.empty()) k = "k";
        if (i && r.chance(30)) k = want.begin()->first;
        m.insert(std::make_pair(k, v)); want.insert(std::make_pair(k, v));
    }
    std::string q = pion::http::types::make_query_string(m);
    // independent split
    std::multimap<std::string, std::string> got;
    if (!q.empty()) for (size_t p = 0; p <= q.size();) { size_t e = q.find('&', p); if (e == std::string::npos) e = q.size(); std::string it = q.substr(p, e - p); size_t eq = it.find('=');
        CHECK(c, eq != std::string::npos, "query-missing-eq", show(q));
        got.insert(std::make_pair(ref_urldec(it.substr(0, eq)), ref_urldec(it.substr(eq + 1)))); p = e + 1; }
    std::vector<std::pair<std::string, std::string> > a(got.begin(), got.end()), b(want.begin(), want.end());
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    CHECK(c, a == b, "query-string-split", "q=" + show(q) + " n=" + std::to_string(n));
    // and pion's own parser reads it back
    pion::ihash_multimap back;
    if (!q.empty()) {
        bool ok = pion::http::parser::parse_url_encoded(back, q);
        std::vector<std::pair<std::string, std::string> > d; for (auto& kv : back) d.push_back(std::make_pair(kv.first, kv.second)); std::sort(d.begin(), d.end());
        CHECK(c, ok && d == b, "query-string-parse-back", "q=" + show(q) + " ok=" + std::to_string(ok));
    }
    c.count("query_strings"); c.count("query_pairs", n); c.distinct(hash_str(q, 41));
    if (n > 1) c.sample("query " + show(q, 120));
}
SCENARIO("P13", "set_cookie", 30000, 300000) {
    Rng& r = c.rng; const std::string tok = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#%&*+^~";
    std::string name = r.from(tok, 1 + r.below(20)), value = r.from(tok + " =,;/:@()<>?[]{}", r.below(40)), path = r.chance(30) ? "" : "/" + r.from(tok + "/", r.below(20));
    bool has = r.chance(50); unsigned long age = r.chance(30) ? 0 : (unsigned long)(r.next() >> r.below(60));
    std::string h = pion::http::types::make_set_cookie_header(name, value, path, has, age);
    std::string want = name + "=\"" + value + "\"; Version=1" + (path.empty() ? "" : "; Path=" + path) + (has ? "; Max-Age=" + std::to_string(age) : "");
    CHECK(c, h == want, "set-cookie-text", "got=" + h + " want=" + want);
    pion::ihash_multimap back;
    bool ok = pion::http::parser::parse_cookie_header(back, h, true);
    CHECK(c, ok && back.size() == 1 && back.begin()->first == name && back.begin()->second == value, "set-cookie-parse-back",
          "h=" + h + " ok=" + std::to_string(ok) + " n=" + std::to_string(back.size()) + (back.empty() ? "" : " first=" + back.begin()->first + "=" + back.begin()->second));
    c.count("set_cookies"); c.distinct(hash_str(h, 42)); c.sample(h);
}

int main(int argc, char **argv) { return vh::run(argc, argv, 20, 120); }
