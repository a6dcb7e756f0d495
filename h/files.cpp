// P28 containment, P29 content served, P30 uploads and deletions of the file service.
#include "httpenv.hpp"
#include <pion/http/plugin_server.hpp>
#include <boost/filesystem/fstream.hpp>
#include "FileService.hpp"
#include <sys/stat.h>
#include <sys/resource.h>
#include <utime.h>
#include <dirent.h>
#include <grp.h>
#include <sys/prctl.h>
#include <signal.h>
#include <time.h>

typedef EnvT<pion::http::plugin_server> FEnv;
static const std::string& scratch_dir() { static std::string s = getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : "/nonexistent"; return s; }
static uint64_t hs(const std::string& s) { return hash_str(s); }
// ---------------------------------------------------------------- the scratch tree
static std::string slurp(const std::string& p) { std::string o; FILE *f = fopen(p.c_str(), "rb"); if (!f) return "(unreadable)"; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
static void spit(const std::string& p, const std::string& d) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) { printf("HARNESS-ERROR cannot write %s: %s\n", p.c_str(), strerror(errno)); fflush(stdout); _exit(4); } fclose(f); }
static void set_time(const std::string& p, time_t t) { struct utimbuf u; u.actime = u.modtime = t; utime(p.c_str(), &u); }
static time_t get_time(const std::string& p) { struct stat s; return stat(p.c_str(), &s) ? -1 : s.st_mtime; }
typedef std::map<std::string, std::string> Tree;      // path below the root ("d/" directory) -> content
static void walk(const std::string& root, const std::string& rel, Tree& t) {
    DIR *d = opendir((root + "/" + rel).c_str()); if (!d) { t[rel + "(unreadable)"] = ""; return; }
    while (struct dirent *e = readdir(d)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string r = rel + n, p = root + "/" + r; struct stat s;
        if (lstat(p.c_str(), &s)) continue;
        if (S_ISDIR(s.st_mode)) { t[r + "/"] = ""; walk(root, r + "/", t); } else t[r] = slurp(p);
    }
    closedir(d);
}
static Tree tree(const std::string& root) { Tree t; walk(root, "", t); return t; }
static void wipe(const std::string& root, int depth = 0) {     // only below the scratch directory
    if (root.compare(0, scratch_dir().size(), scratch_dir()) || root.size() <= scratch_dir().size() + 3) return;
    chmod(root.c_str(), 0755); DIR *d = opendir(root.c_str()); if (!d) return;
    while (struct dirent *e = readdir(d)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string p = root + "/" + n; struct stat s; if (lstat(p.c_str(), &s)) continue;
        if (S_ISDIR(s.st_mode) && depth < 20) wipe(p, depth + 1); else unlink(p.c_str());
    }
    closedir(d); rmdir(root.c_str());
}
static void trace(const std::string& s) { static bool on = getenv("VH_TRACE") != 0; if (on) printf("  %s\n", s.c_str()); }
struct Scratch {
    std::string root;
    Scratch(const Ctx& c) { root = scratch_dir() + "/f" + std::to_string((long)getpid()) + "-" + std::to_string(c.index); if (mkdir(root.c_str(), 0755)) { printf("HARNESS-ERROR mkdir %s: %s\n", root.c_str(), strerror(errno)); fflush(stdout); _exit(4); } }
    ~Scratch() { if (chdir("/")) {} wipe(root); }
    void dir(const std::string& p) { mkdir((root + "/" + p).c_str(), 0755); }
};
static std::string diff(const Tree& a, const Tree& b, const std::string& except = "\n") {
    for (Tree::const_iterator i = a.begin(); i != a.end(); ++i) if (i->first != except) { Tree::const_iterator j = b.find(i->first); if (j == b.end()) return i->first + " is gone"; if (j->second != i->second) return i->first + " changed to " + show(j->second.substr(0, 60)); }
    for (Tree::const_iterator i = b.begin(); i != b.end(); ++i) if (i->first != except && !a.count(i->first)) return i->first + " appeared";
    return "";
}
// ---------------------------------------------------------------- reference reading of a request path
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string ref_decode(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '+') o += ' ';
        else if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0 && hexv(s[i + 1]) * 16 + hexv(s[i + 2])) { o += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; }
        else o += s[i];
    }
    return o;
}
static std::vector<std::string> parts(const std::string& p) { std::vector<std::string> v; size_t a = 0; while (a <= p.size()) { size_t b = p.find('/', a); if (b == std::string::npos) b = p.size(); std::string s = p.substr(a, b - a); if (!s.empty() && s != ".") v.push_back(s); a = b + 1; } return v; }
// the path below the directory that the request names, "" for anything not inside it
static std::string ref_inside(const std::string& dir_abs, const std::string& rel) {
    std::vector<std::string> d = parts(dir_abs), v = d, r = parts(rel);
    for (size_t i = 0; i < r.size(); ++i) { if (r[i] == "..") { if (!v.empty()) v.pop_back(); } else v.push_back(r[i]); }
    if (v.size() <= d.size() || !std::equal(d.begin(), d.end(), v.begin())) return "";
    std::string o; for (size_t i = d.size(); i < v.size(); ++i) o += (i > d.size() ? "/" : "") + v[i];
    return o;
}
static std::string enc_path(Rng& r, const std::string& s, int pct) {
    static const char up[] = "0123456789ABCDEF", lo[] = "0123456789abcdef"; std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i]; bool must = c <= 32 || c >= 127 || c == '%' || c == '+' || c == '?' || c == '#';
        if (must || (c != '/' && r.chance(pct)) || (c == '/' && r.chance(pct / 4))) { const char *d = r.chance(50) ? up : lo; o += '%'; o += d[c >> 4]; o += d[c & 15]; } else o += (char)c;
    }
    return o;
}
static std::string ask(net::Client& k, FEnv& e, const std::string& text, net::Response& p, bool head) {
    for (int i = 0; ; ++i) {
        bool fresh = k.fd < 0 || k.eof;
        if (fresh) { k.close(); k.eof = k.err = false; k.buf.clear(); if (!k.connect(e.port, e.tls)) return "connection refused"; }
        if (!k.send(text)) { if (!fresh && i == 0) { k.eof = true; continue; } }
        std::string x = net::read_response(k, p, head, 25);
        if (p.status && (net::lower(p.header("connection")) == "close" || p.version == "1.0")) k.eof = true;
        if (x == "eof" && !fresh && i == 0) continue;     // closed before it saw this request
        return x;
    }
}
#define ASK(c, k, e, text, p, head) do { std::string x_ = ask(k, e, text, p, head); \
    if (x_ == "timeout") { (c).hang("no-answer", show(std::string(text).substr(0, 200))); bail(); } \
    CHECK(c, x_.empty(), "no-answer", show(std::string(text).substr(0, 200)) + ": " + x_); } while (0)
static std::string req(const std::string& method, const std::string& path, const std::string& extra, const std::string& body = "", bool has_body = false) {
    return method + " " + path + " HTTP/1.1\r\nHost: a\r\n" + extra + (has_body ? "Content-Length: " + std::to_string(body.size()) + "\r\n" : std::string()) + "\r\n" + body;
}

// ---------------------------------------------------------------- P28
SCENARIO("P28", "hostile_paths", 220, 3000) {
    Rng& r = c.rng; Scratch s(c);
    std::map<std::string, std::string> token;     // path below the root -> the text only it contains
    static const char *files[] = { "pub/a.txt", "pub/b.html", "pub/sub/c.js", "pub/sub/deep/d.bin", "pub/pub/e.txt", "pub2/secret.txt", "pub/..x", "pub/...", "pub/sub/..y/z", "pubx", "pub.txt", "secret.txt", "up/only.txt", "pu/p.txt", "a.txt", "sub/c.js", "conf/one.txt", "pub /s.txt" };
    s.dir("pub"); s.dir("pub/sub"); s.dir("pub/sub/deep"); s.dir("pub/pub"); s.dir("pub2"); s.dir("pub/sub/..y"); s.dir("up"); s.dir("pu"); s.dir("sub"); s.dir("conf"); s.dir("pub "); s.dir("pub/empty");
    for (size_t i = 0; i < sizeof files / sizeof *files; ++i) { std::string t = "T" + std::to_string(i) + "-" + std::to_string(r.below(1000000000)) + "-K"; token[files[i]] = t; spit(s.root + "/" + files[i], "content " + t + "\n"); }
    if (chdir(s.root.c_str())) { printf("HARNESS-ERROR chdir\n"); _exit(4); }
    FEnv e(r, 6, 2);
    std::string res = r.chance(60) ? "/files" : r.chance(50) ? "" : "/x/y";
    std::string dname = r.chance(75) ? "pub" : r.chance(50) ? "pub/sub" : ".";
    // the configured directory, in one of many spellings
    std::string spell;
    switch (r.below(8)) {
    case 0: spell = s.root + "/" + dname + "/"; break;
    case 1: spell = dname; break;
    case 2: spell = "./" + dname; break;
    case 3: spell = s.root + "/up/../" + dname; break;
    case 4: spell = dname + "/"; break;
    case 5: spell = s.root + "//" + dname; break;
    case 6: spell = "up/../" + dname; break;
    default: spell = s.root + "/" + dname;
    }
    std::string dir_abs = s.root + "/" + dname, file; bool has_dir = r.chance(92);
    bool writable = r.chance(60);
    pion::plugins::FileService *fs = new pion::plugins::FileService;
    e.srv->add_service(res, fs);
    if (has_dir) e.srv->set_service_option(res, "directory", spell);
    if (r.chance(50) || !has_dir) { file = r.chance(50) ? "conf/one.txt" : "pub/a.txt"; e.srv->set_service_option(res, "file", r.chance(50) ? file : s.root + "/" + file); }
    e.srv->set_service_option(res, "cache", std::string(1, (char)('0' + r.below(3))));
    e.srv->set_service_option(res, "scan", std::string(1, (char)('0' + r.below(4))));
    e.srv->set_service_option(res, "writable", writable ? "true" : "false");
    e.start();
    Tree before = tree(s.root), start = before; net::Client k; uint64_t h = 0;
    static const char *seg[] = { "..", "..", "..", ".", "", "sub", "deep", "pub", "pub2", "secret.txt", "a.txt", "b.html", "c.js", "d.bin", "pubx", "up", "...", "..x", "%2e%2e", "..%2f", "nosuch", "..\\", "pu", "p.txt", "pub.txt", "empty", "..y", "only.txt", "pub ", "s.txt", "one.txt", "conf" };
    int ops = (int)r.range(15, 45);
    for (int i = 0; i < ops; ++i) {
        std::string rel; bool raw = false;
        switch (r.below(8)) {
        case 0: rel = std::string(r.chance(50) ? "/" : "") + s.root + "/" + files[r.below(18)]; break;                   // an absolute path
        case 1: { std::string back; size_t up = parts(dir_abs).size(); for (size_t j = 0; j < up + r.below(3); ++j) back += "../"; rel = back + (r.chance(50) ? (s.root + "/" + files[r.below(18)]).substr(1) : "etc/passwd"); break; }
        case 2: { std::string in = "sub/"; size_t n = r.range(0, 4); for (size_t j = 0; j < n; ++j) in += "../"; rel = in + files[r.below(18)]; break; }
        case 3: rel = std::string("../") + files[r.below(18)]; break;
        case 4: rel = std::string(files[r.below(18)]); if (rel.compare(0, 4, "pub/") == 0 && r.chance(70)) rel = rel.substr(4); if (r.chance(30)) rel += r.chance(50) ? "/." : "/.."; break;
        case 5: { rel = r.chance(50) ? "../pub2/new" : "../pub2/secret.txt"; if (r.chance(30)) rel += std::string(1, '\0'); if (r.chance(20)) rel += std::string(300, 'x'); break; }
        default: { size_t n = r.range(1, 7); for (size_t j = 0; j < n; ++j) rel += (j ? "/" : "") + std::string(seg[r.below(32)]); if (r.chance(20)) rel += "/"; }
        }
        if (r.chance(5)) { size_t p = r.below(rel.size() + 1); rel.insert(p, 1, (char)r.below(256)); }
        std::string wire = res + "/" + (raw ? rel : enc_path(r, rel, r.chance(50) ? 0 : (int)r.range(1, 100)));
        if (r.chance(8)) wire = res.empty() ? "/" : res;
        static const char *methods[] = { "GET", "GET", "GET", "HEAD", "PUT", "POST", "DELETE", "DELETE", "OPTIONS", "get", "TRACE" };
        std::string m = methods[r.below(11)], body = "U" + std::to_string(i) + "-uploaded-" + std::to_string(r.below(1000000));
        bool up = m == "PUT" || m == "POST";
        net::Response p; ASK(c, k, e, req(m, wire, "", up ? body : "", up), p, m == "HEAD");
        // what the request names
        std::string rd = wire.size() > res.size() + 1 ? ref_decode(wire.substr(res.size() + 1)) : "", target;
        if (rd.empty()) target = file;
        else if (has_dir) { std::string in = ref_inside(dir_abs, rd); if (!in.empty()) target = dname == "." ? in : dname + "/" + in; }
        Tree after = tree(s.root);
        std::string d = m + " " + show(wire) + (target.empty() ? " (outside)" : " (" + show(target) + ")") + (has_dir ? " directory " + spell : " no directory") + " gave " + std::to_string(p.status);
        std::string ch = diff(before, after, writable ? target : "\n");
        CHECK(c, ch.empty(), "changed-outside", d + ": " + ch);
        if (target.empty()) { CHECK(c, p.status >= 400, "outside-not-refused", d + " " + show(p.body.substr(0, 100))); c.count("refused_outside"); }
        for (std::map<std::string, std::string>::iterator t = token.begin(); t != token.end(); ++t)
            if (t->first != target) CHECK(c, p.body.find(t->second) == std::string::npos, "read-outside", d + ": content of " + t->first);
        CHECK(c, p.body.find("root:x:0") == std::string::npos, "read-outside", d + ": content of a system file");
        if (!target.empty()) { c.count("inside"); if (m == "GET" && p.status == 200) c.count("files_read"); if (before != after) c.count("files_changed"); }
        if (m != "GET" && m != "HEAD" && !(writable && (up || m == "DELETE"))) CHECK(c, before == after && p.status >= 400, "changed-unwritable", d);
        before = after; h = mix64(h ^ hs(m + wire));
    }
    c.distinct(h); if (e.tls) c.count("tls_rounds");
    k.close(); e.end(c);
}

// ---------------------------------------------------------------- a model of the service for P29, P30
static std::string http_date(time_t t) { char b[64]; struct tm x; gmtime_r(&t, &x);
    static const char *wd[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }, *mo[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
    snprintf(b, sizeof b, "%s, %02d %s %d %02d:%02d:%02d GMT", wd[x.tm_wday], x.tm_mday, mo[x.tm_mon], x.tm_year + 1900, x.tm_hour, x.tm_min, x.tm_sec); return b; }
static std::string mime_of(const std::string& n) {
    static const char *t[][2] = { { "js", "text/javascript" }, { "txt", "text/plain" }, { "xml", "text/xml" }, { "css", "text/css" }, { "htm", "text/html" }, { "html", "text/html" }, { "xhtml", "text/html" }, { "gif", "image/gif" }, { "png", "image/png" }, { "jpg", "image/jpeg" }, { "jpeg", "image/jpeg" }, { "svg", "image/svg+xml" }, { "ttf", "application/x-font-ttf" }, { "otf", "application/x-font-opentype" }, { "woff", "application/font-woff" } };
    size_t i = n.rfind('.'); std::string e = i == std::string::npos ? "" : net::lower(n.substr(i + 1));
    for (size_t j = 0; j < sizeof t / sizeof *t; ++j) if (e == t[j][0]) return t[j][1];
    return "application/octet-stream";
}
static std::string gen_content(Rng& r, unsigned long chunk) {
    size_t n;
    switch (r.below(8)) {
    case 0: n = 0; break;
    case 1: n = 1 + r.below(4); break;
    case 2: n = chunk ? chunk * r.range(1, 4) : r.below(300); break;
    case 3: n = chunk ? chunk * r.range(1, 4) + (r.chance(50) ? 1 : -1) : r.below(300); break;
    case 4: n = r.below(20000); break;
    case 5: n = r.chance(20) ? 65536 + r.below(200000) : r.below(5000); break;
    default: n = r.below(600);
    }
    if (chunk && n / chunk > 400) n = chunk * 400 + r.below(chunk);
    std::string s = r.bytes(n); if (n > 20) { char b[21]; snprintf(b, sizeof b, "%020llu", (unsigned long long)r.below(1000000000)); s.replace(0, 20, b); }
    return s;
}
struct Snap { std::string data; time_t mtime; };
struct Svc {
    Scratch s; FEnv e; Rng& r; Ctx& c; net::Client k;
    int cache, scan; unsigned long chunk; bool writable, has_file; std::string res, file; size_t limit;
    std::vector<std::string> names;               // below the directory
    std::map<std::string, Snap> cached;           // used only with cache 2
    std::set<std::string> known;                  // with scan 1 and 3: the files there at the start
    std::map<std::string, std::set<std::string> > locked; // unreadable / read-only
    int tick; uint64_t h;
    static std::string root_of(const Scratch& s) { return s.root + "/d"; }
    std::string dir() const { return s.root + "/d"; }
    std::string abs(const std::string& n) const { return n.empty() ? s.root + "/" + file : dir() + "/" + n; }
    std::string canon(const std::string& n) const { return n.empty() && file.compare(0, 2, "d/") == 0 ? file.substr(2) : n; }
    std::string path(const std::string& n) { return n.empty() ? (res.empty() ? "/" : res + (r.chance(20) ? "/" : "")) : res + "/" + enc_path(r, n, r.chance(70) ? 0 : 40); }
    bool exists(const std::string& n) { struct stat x; return stat(abs(n).c_str(), &x) == 0; }
    // never the same twice; sometimes older than all before
    time_t stamp() { ++tick; return 1000000000 + 61 * (r.chance(25) ? -tick : tick); }
    void put(const std::string& n, const std::string& data) { trace("put " + n + " " + std::to_string(data.size())); spit(abs(n), data); set_time(abs(n), stamp()); }
    Svc(Ctx& cc, bool wr) : s(cc), e(cc.rng, 6, 3), r(cc.rng), c(cc), tick(0), h(0) {
        cache = (int)r.below(3); scan = r.chance(50) ? 0 : (int)r.below(4); if (scan > 1 && cache == 0 && r.chance(50)) cache = 1;
        static const unsigned long cs[] = { 0, 0, 1, 7, 100, 4096, 65536 }; chunk = cs[r.below(7)];
        writable = wr && r.chance(90); has_file = r.chance(50); limit = 0;
        res = r.chance(60) ? "/f" : r.chance(50) ? "" : "/deep/er";
        s.dir("d"); s.dir("d/sub"); s.dir("d/sub/two");
        static const char *nm[] = { "a.txt", "b.HTML", "sub/c.js", "sub/two/d", "e.tar.gz", "sp ace.css", "sub/h.jpeg", "pct%41.png", "plus+.xml", "\xc3\xa4.svg", "noext", ".hidden", "sub/i.woff" };
        for (int i = 0; i < 13; ++i) if (r.chance(60)) names.push_back(nm[i]);
        if (names.empty()) names.push_back("a.txt");
        for (size_t i = 0; i < names.size(); ++i) if (r.chance(75)) put(names[i], gen_content(r, chunk));
        file = r.chance(50) ? "d/sub/dflt.html" : "other.xml"; spit(s.root + "/" + file, "default " + gen_content(r, chunk)); set_time(s.root + "/" + file, 999999999);
        pion::plugins::FileService *fs = new pion::plugins::FileService; e.srv->add_service(res, fs);
        e.srv->set_service_option(res, "directory", dir() + (r.chance(30) ? "/" : ""));
        if (has_file) e.srv->set_service_option(res, "file", s.root + "/" + file);
        if (cache != 1 || r.chance(50)) e.srv->set_service_option(res, "cache", std::to_string(cache));
        if (scan || r.chance(50)) e.srv->set_service_option(res, "scan", std::to_string(scan));
        if (chunk || r.chance(50)) e.srv->set_service_option(res, "max_chunk_size", std::to_string(chunk));
        if (writable || r.chance(50)) e.srv->set_service_option(res, "writable", writable ? "true" : "false");
        if (wr && r.chance(30)) { limit = 500 + r.below(3000); e.srv->set_max_content_length(limit); }
        if (has_file && r.chance(30)) names.push_back("");
        if (has_file) names.push_back("");
        e.start();
        if (scan > 1 && cache == 0) cache = 1;    // scanning into the cache means caching
        for (size_t i = 0; i < names.size(); ++i) if (exists(names[i])) { known.insert(names[i]); if (scan > 1 && cache == 2) remember(names[i]); }
    }
    void remember(const std::string& n) { Snap x; x.data = slurp(abs(n)); x.mtime = get_time(abs(n)); cached[n] = x; }
    std::string conf() { return "(cache " + std::to_string(cache) + " scan " + std::to_string(scan) + " chunk " + std::to_string(chunk) + ")"; }
    // one GET or HEAD against what the file is (or what the cache may hold)
    bool get(const std::string& n, bool ok_unreadable = false) {
        bool fixed = (scan == 1 || scan == 3), from_cache = cache == 2 && cached.count(n);
        bool head = r.chance(25) && (cache != 2 || from_cache), old = r.chance(15);
        bool here = exists(n), unreadable = here && access(abs(n).c_str(), R_OK) != 0;
        Snap x; if (from_cache) x = cached[n]; else if (here) { x.mtime = get_time(abs(n)); if (unreadable) chmod(abs(n).c_str(), 0644); x.data = slurp(abs(n)); if (unreadable) chmod(abs(n).c_str(), 0); }
        bool found = fixed && !known.count(n) ? false : from_cache || here;
        std::string cond; int ck = (int)r.below(6);
        if (found && ck == 0) cond = http_date(x.mtime); else if (found && ck == 1) cond = http_date(x.mtime + (r.chance(50) ? -61 : -1)); else if (ck == 2) cond = r.chance(50) ? "" : "Thu, 01 Jan 1970 00:00:00 GMT";
        std::string t = std::string(head ? "HEAD " : "GET ") + path(n) + (old ? " HTTP/1.0\r\n" : " HTTP/1.1\r\nHost: a\r\n") + (ck <= 2 && !cond.empty() ? "If-Modified-Since: " + cond + "\r\n" : std::string()) + (r.chance(10) ? "Connection: close\r\n" : "") + "\r\n";
        net::Response p; std::string why = ask(k, e, t, p, head), d = show(t.substr(0, t.find("\r\n"))) + " " + conf() + (cond.empty() ? "" : " since " + cond) + " gave " + std::to_string(p.status);
        if (why == "timeout") { c.hang("no-answer", d); bail(); }
        if (!why.empty()) { c.fail("no-answer", d + ": " + why); return false; }
        trace(d + " file dated " + std::to_string((long)x.mtime));
        h = mix64(h ^ hs(t) ^ hs(x.data));
        if (!found) { if (p.status != 404) { c.fail("missing-file-answer", d + " instead of 404"); return false; } c.count("not_found"); return true; }
        if (unreadable && !from_cache) {
            if (head) return true;          // the headers do not need the content
            if (cond == http_date(x.mtime) && p.status == 304) return true;
            // only the cache can still have it, or there is nothing to read
            if (p.status < 400 && !(p.status == 200 && p.body == x.data && (cache || x.data.empty()))) { c.fail("unreadable-file-served", d + " with " + show(p.body.substr(0, 60))); return false; } c.count("unreadable"); return true;
        }
        if (p.header("content-type") != mime_of(n.empty() ? file : n)) { c.fail("wrong-type", d + ": " + p.header("content-type")); return false; }
        if (p.header("last-modified") != http_date(x.mtime)) { c.fail("wrong-date", d + ": " + p.header("last-modified") + " instead of " + http_date(x.mtime)); return false; }
        bool same = !cond.empty() && cond == http_date(x.mtime);
        if (same) { if (p.status != 304) { c.fail("condition-ignored", d); return false; } if (cache == 2 && scan == 1) cached[n] = x; c.count("not_modified"); return true; }
        if (p.status != 200) { c.fail("file-not-served", d); return false; }
        if (head) { if (p.h.count("content-length") && p.header("content-length") != std::to_string(x.data.size())) { c.fail("head-length", d + ": length " + p.header("content-length") + " instead of " + std::to_string(x.data.size())); return false; } c.count("heads"); }
        else {
            if (p.body != x.data) { size_t i = 0; while (i < p.body.size() && i < x.data.size() && p.body[i] == x.data[i]) ++i; c.fail("wrong-content", d + ": " + std::to_string(p.body.size()) + " bytes instead of " + std::to_string(x.data.size()) + ", different from byte " + std::to_string(i) + ", served " + show(p.body.substr(0, 40)) + " file " + show(x.data.substr(0, 40))); return false; }
            if (cache == 2 && !from_cache) cached[n] = x; if (from_cache) c.count("served_from_cache");
            c.count("gets"); if (p.chunked) c.count("chunked_gets"); if (x.data.empty()) c.count("empty_files");
        }
        return true;
    }
    void external() {
        std::string n = names[r.below(names.size())]; bool here = exists(n), fixed = scan == 1 || scan == 3; std::string a = abs(n);
        static const char *ds[] = { "/d", "/d/sub", "/d/sub/two" }; for (int i = 0; i < 3; ++i) chmod((s.root + ds[i]).c_str(), 0755);
        if (here && access(a.c_str(), W_OK)) chmod(a.c_str(), 0644);
        switch (r.below(6)) {
        case 0: case 1: case 2: if (here) { put(n, r.chance(30) ? std::string(slurp(a).size(), (char)r.below(256)) : gen_content(r, chunk)); c.count("changes"); } else if (!fixed || !known.count(n)) { put(n, gen_content(r, chunk)); c.count("creations"); } break;
        case 3: if (here) { trace("removed " + n); unlink(a.c_str()); c.count("removals"); } break;
        case 4: if (here) { trace("touched " + n); set_time(a, stamp()); c.count("touches"); } break;
        default: if (here) { trace("replaced " + n); std::string t = s.root + "/tmp"; spit(t, gen_content(r, chunk)); set_time(t, stamp()); rename(t.c_str(), a.c_str()); c.count("replacements"); }
        }
    }
};
SCENARIO("P29", "contents", 300, 4000) {
    Svc v(c, false); Rng& r = c.rng; int ops = (int)r.range(20, 70);
    for (int i = 0; i < ops; ++i) {
        int o = (int)r.below(10);
        if (o < 3) v.external();
        else if (o == 3 && r.chance(40)) {          // a file that cannot be read for a while, changed meanwhile
            std::string n = v.names[r.below(v.names.size())]; if (!v.exists(n)) continue;
            if (r.chance(70)) v.put(n, gen_content(r, v.chunk)); chmod(v.abs(n).c_str(), 0);
            int q = (int)r.range(1, 4); for (int j = 0; j < q; ++j) if (!v.get(n)) return;
            chmod(v.abs(n).c_str(), 0644); if (!v.get(n)) return;
        } else if (!v.get(v.names[r.below(v.names.size())])) return;
    }
    c.count(("cache_" + std::to_string(v.cache)).c_str()); c.count(("scan_" + std::to_string(v.scan)).c_str());
    c.distinct(v.h); if (v.e.tls) c.count("tls_rounds");
    v.k.close(); v.e.end(c);
}
// several clients read at once, from a cold or warm cache
SCENARIO("P29", "crowd", 40, 400) {
    Svc v(c, false); Rng& r = c.rng; int n = (int)r.range(2, 6); std::atomic<int> left(n); std::vector<boost::thread*> th; std::mutex mu; std::string err;
    std::map<std::string, std::string> want; std::vector<std::string> ok; std::map<std::string, std::string> url;
    for (size_t i = 0; i < v.names.size(); ++i) if (v.exists(v.names[i])) { ok.push_back(v.names[i]); want[v.names[i]] = slurp(v.abs(v.names[i])); url[v.names[i]] = v.path(v.names[i]); }
    if (ok.empty()) { v.e.end(c); return; }
    inj::lock_delay_pct = r.chance(50) ? (int)r.range(1, 100) : 0;
    for (int i = 0; i < n; ++i) { uint64_t sd = r(); th.push_back(new boost::thread([&, sd] {
        Rng q(sd); net::Client k; std::string x;
        for (int j = 0; j < 30 && x.empty(); ++j) {
            std::string f = ok[q.below(ok.size())]; net::Response p;
            if (q.chance(5)) { net::Client z; if (z.connect(v.e.port, v.e.tls)) { z.send(req("GET", url[f], "")); z.close(q.chance(50)); } continue; }
            x = ask(k, v.e, req("GET", url[f], ""), p, false); if (!x.empty()) break;
            if (p.status != 200 || p.body != want[f]) x = "GET " + f + " " + v.conf() + " gave " + std::to_string(p.status) + " with " + std::to_string(p.body.size()) + " bytes instead of " + std::to_string(want[f].size());
            c.count("concurrent_gets");
        }
        if (!x.empty()) { std::lock_guard<std::mutex> l(mu); err = x; }
        --left; })); }
    if (!wait_until([&] { return left == 0; }, 90)) { c.hang("clients-stuck", "reading files"); bail(); }
    for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; }
    inj::off();
    if (err == "timeout") { c.hang("no-answer", "concurrent GETs"); bail(); }
    CHECK(c, err.empty(), "wrong-content", err);
    c.distinct(mix64(r()));
    v.e.end(c);
}

// ---------------------------------------------------------------- P30
SCENARIO("P30", "operations", 300, 4000) {
    Svc v(c, true); Rng& r = c.rng; int ops = (int)r.range(20, 60);
    bool small_disk = r.chance(15); const size_t room = 3000;
    std::set<std::string> half;                     // files a failed write may have left in any state
    Tree want = tree(v.s.root);
    for (int i = 0; i < ops; ++i) {
        int o = (int)r.below(12);
        if (o < 4) { if (!v.get(v.names[r.below(v.names.size())])) return; continue; }
        if (o == 4) { v.external(); want = tree(v.s.root); continue; }
        if (o == 5 && r.chance(50)) {               // permissions
            std::string n = v.names[r.below(v.names.size())];
            if (v.exists(n)) chmod(v.abs(n).c_str(), r.chance(50) ? 0444 : 0644);
            if (r.chance(30)) { std::string d = v.s.root + (r.chance(50) ? "/d/sub" : "/d"); chmod(d.c_str(), r.chance(50) ? 0555 : 0755); }
            continue;
        }
        std::string n = v.names[r.below(v.names.size())]; bool isdir = false, plain = true;
        int w = (int)r.below(20);
        if (w == 0) { n = "nodir/x.txt"; plain = false; } else if (w == 1) { n = r.chance(50) ? "sub" : "sub/two"; isdir = true; }
        bool here = v.exists(n); std::string a = v.abs(n), parent = a.substr(0, a.rfind('/')), key = a.substr(v.s.root.size() + 1);
        struct stat ps; bool parent_ok = stat(parent.c_str(), &ps) == 0;
        bool can_write = here ? access(a.c_str(), W_OK) == 0 : parent_ok && access(parent.c_str(), W_OK) == 0, can_delete = parent_ok && access(parent.c_str(), W_OK) == 0;
        std::string m = o < 8 ? "PUT" : o < 10 ? "POST" : "DELETE", body = gen_content(r, 0), t;
        if (r.chance(20)) { body = slurp(a); if (body.size() > 5) body[r.below(body.size())] ^= 1; }      // same length, same second
        if (v.limit && r.chance(30)) body.resize(v.limit + (size_t)r.range(-1, 3), 'z');
        std::string type = r.chance(70) ? "" : r.chance(50) ? "Content-Type: application/x-www-form-urlencoded\r\n" : "Content-Type: text/plain\r\n";
        if (m == "DELETE") t = req(m, v.path(n), "");
        else if (r.chance(30)) {
            t = m + " " + v.path(n) + " HTTP/1.1\r\nHost: a\r\n" + type + "Transfer-Encoding: chunked\r\n\r\n";
            for (size_t q = 0; q < body.size();) { size_t z = (size_t)r.range(1, body.size() < 2000 ? 300 : 70000); if (z > body.size() - q) z = body.size() - q; char b[20]; snprintf(b, sizeof b, "%zx\r\n", z); t += b + body.substr(q, z) + "\r\n"; q += z; }
            t += "0\r\n\r\n"; c.count("chunked_uploads");
        } else t = req(m, v.path(n), type, body, true);
        if (small_disk && m != "DELETE") { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = room; setrlimit(RLIMIT_FSIZE, &l); }
        net::Response p; std::string why = ask(v.k, v.e, t, p, false);
        if (small_disk) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = l.rlim_max; setrlimit(RLIMIT_FSIZE, &l); }
        std::string d = m + " " + show(n) + " of " + std::to_string(body.size()) + " bytes " + v.conf() + (v.writable ? "" : " read-only service") + (v.limit ? " limit " + std::to_string(v.limit) : "") + " gave " + std::to_string(p.status);
        if (why == "timeout") { c.hang("no-answer", d); bail(); }
        CHECK(c, why.empty(), "no-answer", d + ": " + why);
        trace(d); bool over = v.limit && body.size() > v.limit && m != "DELETE"; std::string data = m == "PUT" ? body : (want.count(key) ? want[key] : std::string()) + body;
        bool full = small_disk && m != "DELETE" && !body.empty() && (m == "PUT" ? body.size() : data.size()) > room;
        bool ok = v.writable && !isdir && (m == "DELETE" ? here && can_delete : parent_ok && can_write && !over && !full);
        Tree now_ = tree(v.s.root);
        if (ok) {
            CHECK(c, p.status == (m != "DELETE" && !here ? 201 : 204), "success-not-reported", d);
            if (m == "DELETE") want.erase(key); else want[key] = data;
            std::string x = diff(want, now_); CHECK(c, x.empty(), "reported-but-different", d + ": " + x);
            c.count(m == "DELETE" ? "deletions" : m == "PUT" ? "puts" : "posts"); if (!here) c.count("created"); if (m != "DELETE") c.count("verified_files");
        } else {
            CHECK(c, p.status >= 400, "failure-not-reported", d + (here ? "" : " (no such file)"));
            if (v.writable && m == "DELETE" && !here && !isdir) CHECK(c, p.status == 404, "missing-file-answer", d);
            if (!v.writable && !isdir) CHECK(c, p.status == 405, "read-only-answer", d);
            std::string x = diff(want, now_, full ? key : std::string("\n")); CHECK(c, x.empty(), "refused-but-changed", d + ": " + x);
            if (full) { want = now_; c.count("disk_full"); }
            if (over) c.count("too_large"); if (!can_write || !can_delete) c.count("not_permitted"); if (!v.writable) c.count("read_only_refused"); c.count("refused");
        }
        (void)plain; v.h = mix64(v.h ^ hs(t));
    }
    c.distinct(v.h); if (v.e.tls) c.count("tls_rounds");
    v.k.close(); v.e.end(c);
}
// whatever the service does, it does as nobody; the saved id is only used to write the results
static void as_root() { if (setresuid(0, 0, 0)) {} prctl(PR_SET_DUMPABLE, 1); }
static void as_nobody() {
    if (geteuid() != 0) return;
    // the key file may lie where nobody cannot read it
    std::string k = slurp(net::pem()), d = scratch_dir() + "/key" + std::to_string((long)getpid());
    if (mkdir(d.c_str(), 0755)) { printf("HARNESS-ERROR cannot create %s\n", d.c_str()); fflush(stdout); _exit(4); }
    spit(d + "/server.pem", k); setenv("VH_DATA", d.c_str(), 1);
    G().before_write = as_root;
    if (setgroups(0, 0) || setresgid(65534, 65534, 0) || setresuid(65534, 65534, 0)) { printf("HARNESS-ERROR cannot drop privileges\n"); fflush(stdout); _exit(4); }
}
int main(int argc, char **argv) {
    G().bail_on_fail = true; G().ready = as_nobody;
    signal(SIGXFSZ, SIG_IGN); umask(022);
    return run(argc, argv, 120, 170);
}
