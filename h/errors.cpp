// P42: errors that the library raises: their type, what they name, and how they can be caught, kept and shown.
#include "httpenv.hpp"
#include "plug.hpp"
#include <boost/filesystem/fstream.hpp>
#include "FileService.hpp"
#include <pion/http/plugin_server.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/plugin_manager.hpp>
#include <pion/user.hpp>
#include <boost/exception_ptr.hpp>
#include <typeinfo>
namespace er = pion::error;
extern "C" __attribute__((visibility("default"))) void vh_plugin_event(const char *, int, void *) { }
static std::string so_dir() { const char *d = getenv("VH_SO_DIR"); return d ? d : "."; }
static std::string scratch() { return getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : "/nonexistent"; }
static void spit(const std::string& p, const std::string& d) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) { printf("HARNESS-ERROR cannot write %s\n", p.c_str()); _exit(4); } fclose(f); }
static std::string name(Rng& r) {
    static const char *odd[] = { "%s%n", "a b", "x:y", "[z:1]", "caf\xc3\xa9", "\xff\xfe", "tab\there", "\"quoted\"", "<b>", "\x01", "#", "line\nbreak", "(null)", "pion" };
    std::string o; size_t n = r.range(1, 4); for (size_t i = 0; i < n; ++i) o += r.chance(40) ? std::string(odd[r.below(14)]) : r.from("abcXYZ019_-.", (size_t)r.range(1, 12)); if (r.chance(5)) o += std::string((size_t)r.range(100, 3000), 'n'); return o;
}
// an error of that type, saying that
template <class T> static bool looks(Ctx& c, T& e, const std::string& want, const std::string& at, bool thrown_here) {
    std::exception *se = dynamic_cast<std::exception*>(&e); boost::exception *be = dynamic_cast<boost::exception*>(&e); pion::exception *pe = dynamic_cast<pion::exception*>(&e);
    if (!se || !be || !pe) { c.fail("error-bases", at); return false; }
    std::string info = pion::diagnostic_information(e); T copy(e);          // asked for in any order
    if (want != e.what() || want != se->what() || want != pe->what() || want != copy.what()) { c.fail("error-text", at + ": " + show(e.what()) + " instead of " + show(want)); return false; }
    const char *const *f = boost::get_error_info<boost::throw_file>(*be); const int *l = boost::get_error_info<boost::throw_line>(*be); std::string where;
    if (thrown_here) { if (!f || !l) { c.fail("error-place", at); return false; } where = std::string(" [") + *f + ":" + std::to_string(*l) + "]"; }
    if (info != want + where || pion::diagnostic_information(*se) != want + where || pion::diagnostic_information(*be) != want + where || pion::diagnostic_information(*pe) != want + where) { c.fail("error-shown", at + ": " + show(info) + " instead of " + show(want + where)); return false; }
    c.count("errors_examined"); return true;
}
template <class T> static bool raises(Ctx& c, const std::function<void()>& f, const std::string& phrase, const std::string& arg, const std::string& at) {
    boost::exception_ptr kept; const std::string want = arg.empty() ? phrase : phrase + ": " + arg;
    try { f(); c.fail("no-error", at); return false; }
    catch (T& e) { kept = boost::current_exception(); if (!looks(c, e, want, at, true)) return false; }
    catch (std::exception& e) { c.fail("error-type", at + " raised " + typeid(e).name() + " " + show(e.what())); return false; }
    catch (...) { c.fail("error-type", at + " raised something else"); return false; }
    // kept for later and raised again, elsewhere; what was raised first is gone by now
    bool ok = false; std::string got = "nothing";
    auto again = [&] { try { boost::rethrow_exception(kept); } catch (T& e) { got = e.what(); ok = got == want; } catch (std::exception& e) { got = std::string(typeid(e).name()) + " " + e.what(); } };
    again(); if (ok) again();
    if (!ok) { c.fail("error-kept", at + ": " + show(got)); return false; }
    c.count("errors_kept"); return true;
}
struct Dummy : Iface { int call(int x) { return x; } const char *lib() const { return ""; } };
static Dummy g_dummy;
struct Mine : pion::exception { };
struct Told : pion::exception { Told(const std::string& s) : pion::exception(s) {} };
struct Other { virtual ~Other() {} };
struct Plain : pion::http::plugin_service { void operator()(const pion::http::request_ptr&, const pion::tcp::connection_ptr&) {} };

SCENARIO("P42", "raised", 4000, 40000) {
    Rng& r = c.rng; std::string n = name(r), at; uint64_t k = r.below(26); std::string dir = scratch() + "/e"; mkdir(dir.c_str(), 0755);
    std::string file = n; for (size_t i = 0; i < file.size(); ++i) if (file[i] == '/') file[i] = '_'; if (file.size() > 120) file.resize(120); bool ok = true;
    pion::plugins::FileService fs; pion::user_manager_ptr um(new pion::user_manager); pion::http::plugin_server srv; pion::plugin_manager<Iface> pm;
    pion::plugin::reset_plugin_directories();
    switch (k) {
    case 0: ok = raises<er::directory_not_found>(c, [&] { pion::plugin::add_plugin_directory(dir + "/none/" + file); }, "directory not found", dir + "/none/" + file, at = "a plug-in directory that does not exist"); break;
    case 1: ok = raises<er::plugin_not_found>(c, [&] { pion::plugin_ptr<Iface> p; p.open("no" + n); }, "plugin not found", "no" + n, at = "opening a plug-in that does not exist"); break;
    case 2: { static const char *stems[] = { "Broken", "broken_2", "B" }; std::string s = stems[r.below(3)]; spit(dir + "/" + s + ".so", r.chance(50) ? "not a library" : ""); ok = raises<er::open_plugin>(c, [&] { pion::plugin_ptr<Iface> p; p.open_file(dir + "/" + s + ".so"); }, "unable to open plugin", s, at = "a plug-in file that is no library"); break; }
    case 3: ok = raises<er::plugin_missing_symbol>(c, [&] { pion::plugin_ptr<Iface> p; p.open_file(so_dir() + "/plugNoCreate.so"); }, "missing plugin symbol", "pion_create_plugNoCreate", at = "a library without the function that creates"); break;
    case 4: ok = raises<er::plugin_missing_symbol>(c, [&] { pion::plugin_ptr<Iface> p; p.open_file(so_dir() + "/plugNoDestroy.so"); }, "missing plugin symbol", "pion_destroy_plugNoDestroy", at = "a library without the function that destroys"); break;
    case 5: ok = raises<er::plugin_undefined>(c, [&] { pion::plugin_ptr<Iface> p; if (r.chance(50)) p.create(); else p.destroy(0); }, "plugin has undefined state", "", at = "a plug-in pointer that points to none"); break;
    case 6: ok = raises<er::plugin_not_found>(c, [&] { switch (r.below(4)) { case 0: pm.remove(n); break; case 1: pm.replace(n, &g_dummy); break; case 2: pm.clone(n); break; default: pm.run(n, [](Iface*) {}); } }, "plugin not found", n, at = "an identifier that the plug-in manager does not know"); break;
    case 7: { pion::plugin::add_plugin_directory(so_dir()); pm.load(n, "plugA"); ok = raises<er::duplicate_plugin>(c, [&] { if (r.chance(50)) pm.load(n, r.chance(50) ? "plugA" : "plugB"); else pm.add(n, &g_dummy); }, "duplicate plugin", n, at = "an identifier that is in use"); pm.remove(n); break; }
    case 8: ok = raises<er::plugin_not_found>(c, [&] { pm.load("id", "no" + n); }, "plugin not found", "no" + n, at = "loading a plug-in type that does not exist"); break;
    case 9: ok = raises<er::plugin_not_found>(c, [&] { srv.load_service("/res", "no" + n); }, "plugin not found", "no" + n, at = "a service whose plug-in does not exist"); break;
    case 10: ok = raises<er::plugin_not_found>(c, [&] { srv.set_service_option("/" + n + (r.chance(50) ? "/" : ""), "a", "b"); }, "plugin not found", "/" + n, at = "an option for a resource without a service"); break;
    case 11: { srv.add_service("/" + n, new Plain); pion::http::plugin_service *s = new Plain; ok = raises<er::duplicate_plugin>(c, [&] { srv.add_service("/" + n + (r.chance(50) ? "/" : ""), s); }, "duplicate plugin", "/" + n, at = "a second service at a resource"); delete s; break; }
    case 12: { srv.add_service("/s", new Plain); ok = raises<er::bad_arg>(c, [&] { srv.set_service_option("/s", n, "v"); }, "bad argument", n, at = "an option that a service does not know"); break; }
    case 13: ok = raises<er::bad_arg>(c, [&] { pion::http::basic_auth a(um); a.set_option("no" + n, "v"); }, "bad argument", "no" + n, at = "an option that basic authentication does not know"); break;
    case 14: ok = raises<er::bad_arg>(c, [&] { pion::http::cookie_auth a(um); a.set_option("no" + n, "v"); }, "bad argument", "no" + n, at = "an option that cookie authentication does not know"); break;
    case 15: ok = raises<er::directory_not_found>(c, [&] { fs.set_option("directory", dir + "/none-" + file); }, "directory not found", dir + "/none-" + file, at = "a directory to serve that does not exist"); break;
    case 16: { spit(dir + "/plain", "x"); ok = raises<er::directory_not_found>(c, [&] { fs.set_option("directory", dir + "/plain"); }, "directory not found", dir + "/plain", at = "a file as the directory to serve"); break; }
    case 17: ok = raises<er::file_not_found>(c, [&] { fs.set_option("file", dir + "/none-" + file); }, "file not found", dir + "/none-" + file, at = "a file to serve that does not exist"); break;
    case 18: ok = raises<er::file_not_found>(c, [&] { fs.set_option("file", dir); }, "file not found", dir, at = "a directory as the file to serve"); break;
    case 19: { static const char *o[] = { "cache", "scan", "writable" }; std::string x = o[r.below(3)]; static const char *bad[] = { "", "4", "00", "TRUE", "true ", "-1", "yes" }; std::string v = bad[r.below(7)]; ok = raises<er::bad_arg>(c, [&] { fs.set_option(x, v); }, "bad argument", x, at = "a value that the file service does not accept"); break; }
    case 20: ok = raises<er::bad_arg>(c, [&] { fs.set_option("no" + n, "v"); }, "bad argument", "no" + n, at = "an option that the file service does not know"); break;
    case 21: ok = raises<er::file_not_found>(c, [&] { srv.load_service_config(dir + "/none-" + file); }, "file not found", dir + "/none-" + file, at = "a configuration file that does not exist"); break;
    case 22: { static const char *bad[] = { "nonsense line\n", "service /x\n", "option /x a\n", "auth digest\n", "user joe pw\n", "path\n", "restrict /x\n" }; std::string cf = dir + "/bad-" + std::to_string(r.below(50)) + ".conf"; spit(cf, (r.chance(50) ? "# a comment\n\n" : "") + std::string(bad[r.below(7)])); ok = raises<er::bad_config>(c, [&] { srv.load_service_config(cf); }, "config parser error", cf, at = "a configuration file with an error"); break; }
    case 23: { std::string cf = dir + "/lib.conf"; spit(cf, "service /x no-such-library\n"); ok = raises<er::plugin_not_found>(c, [&] { srv.load_service_config(cf); }, "plugin not found", "no-such-library", at = "a configuration file that names an unknown service"); break; }
    case 24: { um->add_user("joe", "pw"); std::string bad = r.chance(50) ? std::string((size_t)r.below(39), 'a') : std::string(40, 'g'); ok = raises<er::bad_password_hash>(c, [&] { if (r.chance(50)) um->add_user_hash("x" + n, bad); else um->update_user_hash("joe", bad); }, "bad password hash", "", at = "a password hash that is none"); break; }
    default: { um->add_user("joe", "pw"); pion::http::basic_auth a(um); ok = raises<er::bad_arg>(c, [&] { pion::http::auth *x = &a; x->set_option("Realm", n); }, "bad argument", "Realm", at = "an option name in the wrong case"); break; }
    }
    if (!ok) return;
    c.count("errors_raised"); c.count("site_" + std::to_string(k)); c.distinct(mix64(k) ^ hash_str(n)); if (c.want_sample()) c.sample(at + ": " + show(n));
}
SCENARIO("P42", "own", 2000, 20000) {
    // errors of an application's own, and of other kinds
    Rng& r = c.rng; std::string n = name(r); int k = (int)r.below(5);
    if (k == 0) { try { BOOST_THROW_EXCEPTION(Mine()); } catch (Mine& e) { std::string w = e.what(), i = pion::diagnostic_information(e); CHECK(c, w.find("Mine") != std::string::npos && i.compare(0, w.size(), w) == 0 && i.find("errors.cpp:") != std::string::npos, "own-error", show(w) + " " + show(i)); } }
    else if (k == 1) { try { throw Told(n); } catch (pion::exception& e) { CHECK(c, e.what() == n && pion::diagnostic_information(e) == n, "own-error", show(e.what())); } Told t(n); if (!looks(c, t, n, "an error made by the application", false)) return; pion::exception x(n.c_str()), y; y = x; CHECK(c, y.what() == n, "own-error", show(y.what())); }
    else if (k == 2) { std::runtime_error e(n); CHECK(c, pion::diagnostic_information(e) == n, "standard-error", show(pion::diagnostic_information(e))); try { BOOST_THROW_EXCEPTION(std::runtime_error(n)); } catch (std::exception& e) { std::string i = pion::diagnostic_information(e); CHECK(c, i.compare(0, n.size() + 2, n + " [") == 0 && i[i.size() - 1] == ']', "standard-error", show(i)); } }
    else if (k == 3) { Other o; std::string i = pion::diagnostic_information(o); CHECK(c, i.find("Other") != std::string::npos, "other-error", show(i)); }
    else {     // what an error names is given by whoever raises it, also in several steps
        er::open_file a; a << er::errinfo_file_name(n); er::read_file b; b << er::errinfo_file_name(n); er::file_not_found d; d << er::errinfo_file_name(n); er::bad_arg e; e << er::errinfo_arg_name(n); er::bad_config g;
        CHECK(c, a.what() == "unable to open file: " + n && b.what() == "unable to read file: " + n && d.what() == "file not found: " + n && e.what() == "bad argument: " + n && std::string(g.what()) == "config parser error", "error-text", show(a.what()) + " " + show(b.what()) + " " + show(g.what()));
        try { try { BOOST_THROW_EXCEPTION(er::open_file()); } catch (er::open_file& x) { x << er::errinfo_file_name(n); throw; } } catch (er::open_file& x) { if (!looks(c, x, "unable to open file: " + n, "a name added on the way", true)) return; }
    }
    c.count("own_errors"); c.distinct(mix64((uint64_t)k * 77) ^ hash_str(n));
}
int main(int argc, char **argv) { return vh::run(argc, argv, 60, 60); }
