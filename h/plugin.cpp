// Monitors for plug-in libraries and the plug-in manager.
#include "vh.hpp"
#include "plug.hpp"
#include <boost/exception/diagnostic_information.hpp>
#include <pion/plugin.hpp>
#include <pion/plugin_manager.hpp>
#include <memory>
#include <thread>
#include <sched.h>
using namespace vh;
typedef pion::plugin_ptr<Iface> Ptr;

// ---------------------------------------------------------------- events reported by the libraries
struct LibState { int loaded, loads, unloads, creates, destroys; LibState() : loaded(0), loads(0), unloads(0), creates(0), destroys(0) {} };
struct Events {
    std::mutex m; std::map<std::string, LibState> libs; std::map<void*, std::string> live; std::vector<std::string> bad;
};
static Events& E() { static Events *e = new Events; return *e; }
extern "C" void vh_plugin_event(const char *lib, int kind, void *obj) {
    Events& e = E(); std::lock_guard<std::mutex> g(e.m); LibState& s = e.libs[lib];
    switch (kind) {
        case 0: ++s.loads; if (++s.loaded != 1) e.bad.push_back(std::string("loaded twice: ") + lib); break;
        case 1: ++s.unloads; if (--s.loaded != 0) e.bad.push_back(std::string("unloaded twice: ") + lib); break;
        case 2: ++s.creates; e.live[obj] = lib; break;
        case 3: { ++s.destroys; std::map<void*, std::string>::iterator i = e.live.find(obj);
            if (i == e.live.end()) e.bad.push_back(std::string("destroyed something not alive: ") + lib);
            else { if (i->second != lib) e.bad.push_back("destroyed by another library: " + i->second + " by " + lib); e.live.erase(i); } }
    }
}
static std::string bad_events() { std::lock_guard<std::mutex> g(E().m); return E().bad.empty() ? "" : E().bad[0]; }
static bool loaded(const std::string& l) { std::lock_guard<std::mutex> g(E().m); return E().libs[l].loaded > 0; }
static int loads(const std::string& l) { std::lock_guard<std::mutex> g(E().m); return E().libs[l].loads; }
static size_t live_objects() { std::lock_guard<std::mutex> g(E().m); return E().live.size(); }
static uint64_t creates() { std::lock_guard<std::mutex> g(E().m); uint64_t n = 0; for (auto& k : E().libs) n += k.second.creates; return n; }

// a statically linked plug-in
struct StaticImpl : Iface { int call(int x) { return 1000 + x + (int)sizeof("StaticPlug"); } const char *lib() const { return "StaticPlug"; } };
extern "C" Iface *vh_static_create() { Iface *p = new StaticImpl; vh_plugin_event("StaticPlug", 2, p); return p; }
extern "C" void vh_static_destroy(Iface *p) { vh_plugin_event("StaticPlug", 3, p); delete p; }

static const char *const GOOD[] = { "plugA", "plugB", "plugC", "StaticPlug" };
static std::string so_dir() { const char *d = getenv("VH_SO_DIR"); return d ? d : "."; }
static void setup() {
    static bool done = false; if (done) return; done = true;
    pion::plugin::add_static_entry_point("StaticPlug", (void*)vh_static_create, (void*)vh_static_destroy);
    pion::plugin::reset_plugin_directories();
    pion::plugin::add_plugin_directory(so_dir());
    FILE *f = fopen("notalib.so", "w"); if (f) { fputs("this is not a shared library\n", f); fclose(f); }
    if (mkdir("dirplug.so", 0777)) {}
}
static std::string spelled(Rng& r, const std::string& name) { // any accepted spelling
    if (name == "StaticPlug") return name;
    switch (r.below(4)) { case 0: return name; case 1: return name + ".so"; case 2: return so_dir() + "/" + name; default: return so_dir() + "/" + name + ".so"; }
}
static const char *const MISSING[] = { "nosuch", "", "/nonexistent/dir/x.so", "plug", "dirplug", "plugA.so.so" };
static const char *const UNFIT[] = { "plugNoCreate", "plugNoDestroy", "notalib" };

struct Slot { std::unique_ptr<Ptr> p; std::string lib; };
struct Obj { Iface *o; std::string lib; };

struct World {
    Ctx& c; Rng& r; std::vector<Slot> s; std::vector<Obj> o; std::map<std::string, int> expect_loads;
    World(Ctx& c_) : c(c_), r(c_.rng) { for (int i = 0; i < 4; ++i) expect_loads[GOOD[i]] = loads(GOOD[i]); }
    int refs(const std::string& l) { int n = 0; for (auto& x : s) if (x.lib == l) ++n; return n; }
    Ptr *any(const std::string& l) { std::vector<Ptr*> v; for (auto& x : s) if (x.lib == l) v.push_back(x.p.get()); return v.empty() ? 0 : v[r.below(v.size())]; }
    void drop_objects(const std::string& l) { for (size_t i = 0; i < o.size();) if (o[i].lib == l) { any(l)->destroy(o[i].o); o.erase(o.begin() + i); } else ++i; }
    // a slot is about to stop referring to its library
    void leaving(Slot& x, const std::string& to) { if (!x.lib.empty() && x.lib != to && refs(x.lib) == 1) drop_objects(x.lib); }
    void now_refers(Slot& x, const std::string& l) { if (l != "StaticPlug" && !l.empty() && refs(l) == 0) ++expect_loads[l]; x.lib = l; }
    bool verify(const std::string& op) {
        std::string b = bad_events(); if (!b.empty()) { c.fail("library-event", op + ": " + b); return false; }
        for (int i = 0; i < 3; ++i) {
            bool want = refs(GOOD[i]) > 0;
            if (loaded(GOOD[i]) != want) { c.fail(want ? "library-gone-while-used" : "library-not-released", op + ": " + GOOD[i] + " refs=" + std::to_string(refs(GOOD[i]))); return false; }
            if (loads(GOOD[i]) != expect_loads[GOOD[i]]) { c.fail("library-loaded-again", op + ": " + GOOD[i] + " loads=" + std::to_string(loads(GOOD[i])) + " want " + std::to_string(expect_loads[GOOD[i]])); return false; }
        }
        for (auto& u : { "plugNoCreate", "plugNoDestroy" }) if (loaded(u)) { c.fail("unfit-library-kept", op + ": " + u); return false; }
        for (auto& x : s) {
            if (x.p->is_open() != !x.lib.empty() || x.p->get_plugin_name() != x.lib) { c.fail("plugin-state-wrong", op + ": name=" + x.p->get_plugin_name() + " want=" + x.lib); return false; }
        }
        for (auto& x : o) if (x.lib != x.o->lib() || x.o->call(3) != 1000 + 3 + (int)x.lib.size() + 1) { c.fail("object-broken", op + ": " + x.lib); return false; }
        return true;
    }
};

static void history(Ctx& c, int steps) {
    setup(); Rng& r = c.rng; World w(c); uint64_t h = 1; size_t live0 = live_objects();
    for (int k = 0; k < steps; ++k) {
        int op = (int)r.below(13); std::string what = std::to_string(op); h = mix64(h ^ op ^ w.s.size() << 8 ^ w.o.size() << 16);
        if (w.s.empty() || (op == 0 && w.s.size() < 7)) { Slot x; x.p.reset(new Ptr); w.s.push_back(std::move(x)); what = "new"; }
        else {
            size_t i = r.below(w.s.size()); Slot& x = w.s[i];
            switch (op) {
            case 1: if (w.s.size() < 7) { Slot y; y.p.reset(new Ptr(*x.p)); y.lib = x.lib; w.s.push_back(std::move(y)); c.count("copies"); } break;
            case 2: { Slot& y = w.s[r.below(w.s.size())]; std::string l = y.lib; w.leaving(x, l); if (&x == &y) c.count("self_assignments"); *x.p = *y.p; x.lib = l; c.count("assignments"); } break;
            case 3: case 4: case 5: { std::string l = GOOD[r.below(4)], sp = spelled(r, l); w.leaving(x, l); what = "open " + sp + " on " + x.lib;
                bool same = x.lib == l; bool file = sp[0] == '/' && sp.substr(sp.size() - 3) == ".so" && r.chance(50);
                try { if (file) x.p->open_file(sp); else x.p->open(sp); } catch (std::exception& e) { c.fail("valid-open-refused", what + " " + boost::diagnostic_information(e)); return; }
                if (!same) w.now_refers(x, l);
                c.count("opens"); if (w.refs(l) > 1) c.count("opens_of_loaded_library"); } break;
            case 6: { what = "open missing"; bool threw = false; std::string old = x.lib;
                try { x.p->open(MISSING[r.below(6)]); } catch (pion::error::plugin_not_found&) { threw = true; } catch (std::exception&) { threw = true; }
                if (!threw) { c.fail("missing-plugin-opened", ""); return; }
                if (!x.p->is_open() && !old.empty()) { c.fail("missing-open-closed-the-plugin", ""); return; }
                c.count("failed_opens"); } break;
            case 7: { std::string u = UNFIT[r.below(3)]; what = "open unfit " + u; bool threw = false;
                try { if (u == "notalib") x.p->open_file("notalib.so"); else x.p->open(u); } catch (std::exception&) { threw = true; }
                if (!threw) { c.fail("unfit-library-opened", u); return; }
                c.count("failed_opens"); } break;
            case 8: w.leaving(x, ""); what = "close"; x.p->close(); x.lib = ""; c.count("closes"); break;
            case 9: w.leaving(x, ""); what = "delete"; w.s.erase(w.s.begin() + i); c.count("closes"); break;
            case 10: case 11: { what = "create"; if (x.lib.empty()) { bool threw = false; try { x.p->create(); } catch (pion::error::plugin_undefined&) { threw = true; } if (!threw) { c.fail("created-from-nothing", ""); return; } }
                else if (w.o.size() < 12) { Obj b; b.o = x.p->create(); b.lib = x.lib; w.o.push_back(b); c.count("objects_created"); } } break;
            default: if (!w.o.empty()) { what = "destroy"; size_t j = r.below(w.o.size()); Ptr *p = w.any(w.o[j].lib); p->destroy(w.o[j].o); w.o.erase(w.o.begin() + j); c.count("objects_destroyed"); }
            }
        }
        if (c.failed || !w.verify("step " + std::to_string(k) + " " + what)) return;
        c.count("steps");
    }
    for (int i = 0; i < 4; ++i) if (w.refs(GOOD[i])) w.drop_objects(GOOD[i]);
    w.s.clear();
    if (!w.verify("end")) return;
    CHECK(c, live_objects() == live0, "objects-leaked", std::to_string(live_objects()));
    c.count("histories"); c.distinct(h); c.sample("history of " + std::to_string(steps) + " steps");
}
SCENARIO("P31", "history", 1500, 20000) { history(c, (int)c.rng.range(5, 60)); }

SCENARIO("P31", "instances", 800, 8000) {
    setup(); Rng& r = c.rng; size_t live0 = live_objects();
    {
        pion::plugin_instance_ptr<Iface> p; std::string cur; uint64_t h = 1;
        for (int k = 0, n = (int)r.range(1, 15); k < n; ++k) {
            switch (r.below(4)) {
                case 0: p.reset(); cur = ""; c.count("instance_resets"); break;
                case 1: { bool threw = false; try { p.create(r.chance(50) ? MISSING[r.below(6)] : UNFIT[r.below(2)]); } catch (std::exception&) { threw = true; } CHECK(c, threw, "bad-instance-created", ""); cur = ""; c.count("instance_failures"); break; }
                default: { std::string l = GOOD[r.below(4)]; p.create(spelled(r, l)); cur = l; c.count("instances"); }
            }
            h = mix64(h ^ hash_str(cur));
            CHECK(c, bad_events().empty(), "library-event", bad_events());
            CHECK(c, p.empty() == cur.empty(), "instance-emptiness-wrong", cur);
            CHECK(c, live_objects() == live0 + (cur.empty() ? 0 : 1), "instance-not-destroyed", std::to_string(live_objects()));
            if (!cur.empty()) CHECK(c, cur == p->lib() && (*p).call(1) == 1001 + (int)cur.size() + 1 && p.get() != NULL, "instance-wrong", cur);
        }
        c.distinct(h);
    }
    CHECK(c, live_objects() == live0, "instance-not-destroyed", "at end");
    for (int i = 0; i < 3; ++i) CHECK(c, !loaded(GOOD[i]), "library-not-released", GOOD[i]);
}
// several threads use the same libraries
SCENARIO("P31", "threads", 300, 4000) {
    setup(); Rng& r = c.rng; int nt = (int)r.range(2, 5); uint64_t sd = r.next(); std::mutex m; std::string err; std::atomic<int> opens(0), objs(0); uint64_t c0 = creates();
    std::unique_ptr<Ptr> shared; if (r.chance(50)) { shared.reset(new Ptr); shared->open("plugA"); }
    std::atomic<uint64_t> ord(1); std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.push_back(std::thread([&, t]() {
        Rng q(sd + t);
        try {
            for (int k = 0; k < 25; ++k) {
                Ptr p; std::string l = GOOD[q.below(4)]; bool cp = shared && q.chance(40);
                if (cp) { Ptr b(*shared); p = b; l = "plugA"; } else p.open(l);
                ++opens; ord = mix64(ord ^ t);
                Iface *o = p.create(); ++objs; Ptr p2; p2 = p; p.close();
                if (q.chance(30)) sched_yield();
                if (l != o->lib() || o->call(2) != 1002 + (int)l.size() + 1) { std::lock_guard<std::mutex> g(m); err = "wrong object for " + l; }
                if (q.chance(30)) p2.open(l); // again, while in use
                if (q.chance(20)) { Ptr bad; try { bad.open(q.chance(50) ? "nosuch" : "plugNoCreate"); std::lock_guard<std::mutex> g(m); err = "bad open succeeded"; } catch (std::exception&) {} }
                p2.destroy(o);
            }
        } catch (std::exception& e) { std::lock_guard<std::mutex> g(m); err = boost::diagnostic_information(e); }
    }));
    for (auto& t : ts) t.join();
    CHECK(c, err.empty(), "thread-saw-failure", err);
    CHECK(c, bad_events().empty(), "library-event", bad_events());
    if (shared) { CHECK(c, loaded("plugA") && shared->get_plugin_name() == "plugA", "library-gone-while-used", "shared"); shared.reset(); }
    for (int i = 0; i < 3; ++i) CHECK(c, !loaded(GOOD[i]), "library-not-released", GOOD[i]);
    CHECK(c, live_objects() == 0, "objects-leaked", std::to_string(live_objects()));
    CHECK(c, creates() - c0 == (uint64_t)objs, "creations-lost", "");
    c.count("threaded_opens", opens); c.count("threaded_rounds"); c.distinct(ord.load());
}
// where libraries are looked for
SCENARIO("P31", "search", 400, 4000) {
    setup(); Rng& r = c.rng;
    char tmpl[] = "srchXXXXXX"; std::string base = mkdtemp(tmpl); char cwd[2000]; if (!getcwd(cwd, sizeof cwd)) return; std::string root = std::string(cwd) + "/" + base;
    std::vector<std::string> dirs; std::map<std::string, std::vector<std::string> > files; // dir -> names present
    pion::plugin::reset_plugin_directories();
    int nd = (int)r.range(0, 3); static const std::vector<std::string> names = { "one", "two", "three.so", "four.conf", "five" };
    std::multiset<std::string> all;
    for (int d = 0; d < nd; ++d) {
        std::string dir = root + "/d" + std::to_string(d); mkdir(dir.c_str(), 0777); dirs.push_back(dir);
        for (auto& n : names) for (const char *ext : { "", ".so", ".conf" }) if (r.chance(25)) {
            std::string f = n + ext; if (std::find(files[dir].begin(), files[dir].end(), f) != files[dir].end()) continue;
            FILE *fp = fopen((dir + "/" + f).c_str(), "w"); if (fp) fclose(fp); files[dir].push_back(f);
            if (f.size() > 3 && f.substr(f.size() - 3) == ".so") all.insert(f.substr(0, f.size() - 3));
        }
        pion::plugin::add_plugin_directory(dir);
    }
    for (auto& n : names) for (int conf = 0; conf < 2; ++conf) {
        std::string want, got = "unset", ext = conf ? ".conf" : ".so";
        for (auto& d : dirs) { auto& v = files[d]; if (std::find(v.begin(), v.end(), n) != v.end()) { want = d + "/" + n; break; } if (std::find(v.begin(), v.end(), n + ext) != v.end()) { want = d + "/" + n + ext; break; } }
        bool g = conf ? pion::plugin::find_config_file(got, n) : pion::plugin::find_plugin_file(got, n);
        CHECK(c, g == !want.empty() && (!g || got == want), "file-search-wrong", n + " got " + got + " want " + want);
        if (g) c.count("files_found"); else c.count("files_missing");
    }
    std::vector<std::string> gotn; pion::plugin::get_all_plugin_names(gotn);
    all.insert("StaticPlug");
    CHECK(c, std::multiset<std::string>(gotn.begin(), gotn.end()) == all, "plugin-names-wrong", std::to_string(gotn.size()) + " vs " + std::to_string(all.size()));
    bool threw = false; try { pion::plugin::add_plugin_directory(root + "/nosuchdir"); } catch (pion::error::directory_not_found&) { threw = true; }
    CHECK(c, threw, "missing-directory-accepted", "");
    pion::plugin::reset_plugin_directories(); pion::plugin::add_plugin_directory(so_dir());
    for (auto& d : dirs) { for (auto& f : files[d]) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); } rmdir(base.c_str());
    c.count("search_layouts"); c.distinct(c.rng.next());
}

// ---------------------------------------------------------------- P32
struct Own : Iface { int id; Own(int i) : id(i) { vh_plugin_event("own", 2, this); } ~Own() { vh_plugin_event("own", 3, this); } int call(int x) { return id + x; } const char *lib() const { return "own"; } };
struct Entry { Iface *p; std::string lib; };
static std::string gen_id(Rng& r) {
    static const std::vector<std::string> parts = { "a", "b", "ab", "a-b", "a.b", "a0", "A", "aa" };
    if (r.chance(5)) return "";
    std::string s; int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) s += "/" + r.pick(parts);
    if (r.chance(5)) s += "/"; if (r.chance(5)) s = s.substr(1);
    return s;
}
static Iface *want_find(const std::map<std::string, Entry>& m, const std::string& res) {
    const Entry *b = 0; size_t bl = 0;
    for (auto& k : m) { const std::string& i = k.first; if (res.compare(0, i.size(), i) == 0 && i.size() <= res.size() && (res.size() == i.size() || res[i.size()] == '/') && (!b || i.size() > bl)) { b = &k.second; bl = i.size(); } }
    return b ? b->p : 0;
}
SCENARIO("P32", "history", 3000, 50000) {
    setup(); Rng& r = c.rng; size_t live0 = live_objects(); uint64_t h = 1; int libn = (int)r.below(3); // own-only, or with libraries
    std::map<std::string, Entry> m;
    {
        pion::plugin_manager<Iface> pm;
        int steps = (int)r.range(5, 60);
        for (int k = 0; k < steps; ++k) {
            int op = (int)r.below(14); std::string id = gen_id(r); h = mix64(h ^ op) ^ hash_str(id);
            bool has = m.count(id) > 0; if (!has && r.chance(50) && !m.empty() && (op == 3 || op == 4 || op == 5 || op == 9 || op == 10)) { auto it = m.begin(); std::advance(it, r.below(m.size())); id = it->first; has = true; }
            std::string what = "op " + std::to_string(op) + " id '" + id + "'";
            try {
                switch (op) {
                case 0: case 1: { Own *o = new Own(k); bool dup = false; try { pm.add(id, o); } catch (pion::error::duplicate_plugin&) { dup = true; delete o; } CHECK(c, dup == has, "duplicate-add", what); if (!dup) { Entry e = { o, "" }; m[id] = e; } else c.count("duplicates_refused"); c.count("adds"); break; }
                case 2: if (libn) { std::string l = GOOD[r.below(4)]; bool dup = false; Iface *o = 0; try { o = pm.load(id, l); } catch (pion::error::duplicate_plugin&) { dup = true; } CHECK(c, dup == has, "duplicate-load", what); if (!dup) { CHECK(c, o && l == o->lib(), "loaded-wrong", what); Entry e = { o, l }; m[id] = e; } else c.count("duplicates_refused"); c.count("loads");
                        if (r.chance(10)) { bool t = false; try { pm.load(id + "x", "nosuch"); } catch (pion::error::plugin_not_found&) { t = true; } catch (pion::error::duplicate_plugin&) { t = m.count(id + "x") > 0; } CHECK(c, t, "missing-plugin-loaded", what); } } break;
                case 3: { bool nf = false; size_t n0 = live_objects(); try { pm.remove(id); } catch (pion::error::plugin_not_found&) { nf = true; } CHECK(c, nf == !has, "remove-wrong", what); if (has) { m.erase(id); CHECK(c, live_objects() == n0 - 1, "removed-not-destroyed", what); } c.count("removes"); break; }
                case 4: { if (has) { Entry& e = m[id]; Iface *n = 0; if (e.lib.empty()) n = new Own(k); else n = pm.clone(id); size_t n0 = live_objects(); pm.replace(id, n); e.p = n; CHECK(c, live_objects() == n0 - 1, "replaced-not-destroyed", what); c.count("replaces"); }
                          else { bool nf = false; Own *o = new Own(k); try { pm.replace(id, o); } catch (pion::error::plugin_not_found&) { nf = true; } CHECK(c, nf, "replace-unknown", what); delete o; } break; }
                case 5: { bool nf = false, und = false; Iface *n = 0; try { n = pm.clone(id); } catch (pion::error::plugin_not_found&) { nf = true; } catch (pion::error::plugin_undefined&) { und = true; }
                          CHECK(c, nf == !has && und == (has && m[id].lib.empty()), "clone-wrong", what); if (n) { CHECK(c, m[id].lib == n->lib() && n != m[id].p, "clone-wrong", what); Ptr lp = pm.get_lib_ptr(id); lp.destroy(n); c.count("clones"); } break; }
                case 6: if (r.chance(15)) { pm.clear(); m.clear(); c.count("clears"); CHECK(c, live_objects() == live0, "clear-did-not-destroy", what); } break;
                case 7: { std::vector<Iface*> seen; pm.run([&](Iface *p) { seen.push_back(p); }); std::vector<Iface*> want; for (auto& e : m) want.push_back(e.second.p); std::sort(seen.begin(), seen.end()); std::sort(want.begin(), want.end()); CHECK(c, seen == want, "run-visited-wrong", what + " " + std::to_string(seen.size()) + " of " + std::to_string(want.size())); c.count("runs_over_all"); break; }
                case 8: { uint64_t want = 0; for (auto& e : m) want += (uint64_t)(uintptr_t)e.second.p & 0xffff; uint64_t got = pm.get_statistic([](const Iface *p) { return (uint64_t)(uintptr_t)p & 0xffff; }); CHECK(c, got == want, "statistic-wrong", what); break; }
                case 9: { Iface *seen = 0; bool nf = false; int calls = 0; try { pm.run(id, [&](Iface *p) { seen = p; ++calls; }); } catch (pion::error::plugin_not_found&) { nf = true; } CHECK(c, nf == !has && (!has || (seen == m[id].p && calls == 1)), "run-one-wrong", what); break; }
                case 10: { bool nf = false; uint64_t v = 0; try { v = pm.get_statistic(id, [](const Iface *p) { return (uint64_t)(uintptr_t)p; }); } catch (pion::error::plugin_not_found&) { nf = true; } CHECK(c, nf == !has && (!has || v == (uint64_t)(uintptr_t)m[id].p), "statistic-one-wrong", what); break; }
                default: { // lookups
                    const pion::plugin_manager<Iface>& cpm = pm; Iface *want = has ? m[id].p : 0;
                    CHECK(c, pm.get(id) == want && cpm.get(id) == want, "get-wrong", what);
                    CHECK(c, pm.get_lib_ptr(id).get_plugin_name() == (has ? m[id].lib : std::string()), "lib-ptr-wrong", what);
                    std::string res = gen_id(r); if (r.chance(40)) res = id + (r.chance(50) ? "/" : "") + r.from("ab/-.0", r.below(6));
                    Iface *w = want_find(m, res), *g = pm.find(res);
                    if (g != w) { std::string ids; for (auto& e : m) ids += "'" + e.first + "' "; c.fail("find-wrong", "resource '" + res + "' among " + ids + (w ? (g ? "other match" : "no match") : "unexpected match")); return; }
                    c.count(w ? "finds_matched" : "finds_unmatched"); }
                }
            } catch (std::exception& e) { c.fail("unexpected-exception", what + " " + boost::diagnostic_information(e)); return; }
            if (c.failed) return;
            CHECK(c, pm.empty() == m.empty(), "empty-wrong", what);
            CHECK(c, live_objects() == live0 + m.size(), "live-objects-wrong", what + " live=" + std::to_string(live_objects() - live0) + " managed=" + std::to_string(m.size()));
            CHECK(c, bad_events().empty(), "library-event", bad_events());
            c.count("operations");
        }
    }
    CHECK(c, live_objects() == live0, "not-destroyed-with-manager", std::to_string(live_objects() - live0));
    CHECK(c, bad_events().empty(), "library-event", bad_events());
    c.count("histories"); c.distinct(h); c.sample("ids " + std::to_string(m.size()));
}
SCENARIO("P32", "threads", 200, 3000) {
    setup(); Rng& r = c.rng; size_t live0 = live_objects(); int nt = (int)r.range(2, 5); uint64_t sd = r.next(); std::string err; std::mutex em;
    {
        pion::plugin_manager<Iface> pm; std::vector<std::thread> ts; std::atomic<int> won[6]; for (auto& x : won) x = 0; std::atomic<int> tries(0);
        for (int t = 0; t < nt; ++t) ts.push_back(std::thread([&, t]() { Rng q(sd + t);
            for (int k = 0; k < 6; ++k) { // everyone wants the same identifiers
                std::string id = "/shared" + std::to_string(k); ++tries;
                try { if (q.chance(50)) { pm.load(id, "plugA"); ++won[k]; } else { Own *o = new Own(k); try { pm.add(id, o); ++won[k]; } catch (...) { delete o; throw; } } } catch (pion::error::duplicate_plugin&) {} catch (std::exception& e) { std::lock_guard<std::mutex> g(em); err = boost::diagnostic_information(e); }
                std::string mine = "/mine" + std::to_string(t); pm.add(mine, new Own(t)); if (!pm.find(mine + "/x")) { std::lock_guard<std::mutex> g(em); err = "own plug-in not found"; }
                int n = 0; pm.run([&](Iface *p) { n += p->call(1) > -100; }); if (n < 1) { std::lock_guard<std::mutex> g(em); err = "run saw nothing"; }
                pm.get(id); pm.empty(); pm.remove(mine);
            } }));
        for (auto& t : ts) t.join();
        CHECK(c, err.empty(), "thread-saw-failure", err);
        for (auto& x : won) CHECK(c, x == 1, "identifier-won-by-many", std::to_string(x.load()));
        CHECK(c, live_objects() == live0 + 6, "live-objects-wrong", std::to_string(live_objects() - live0));
        c.count("contended_identifiers", 6); c.count("contending_calls", tries);
    }
    CHECK(c, live_objects() == live0, "not-destroyed-with-manager", ""); CHECK(c, bad_events().empty(), "library-event", bad_events());
    c.distinct(sd);
}
int main(int argc, char **argv) { return vh::run(argc, argv, 0, 90); }
