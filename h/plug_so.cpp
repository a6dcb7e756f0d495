// One plug-in library; NAME, WITH_CREATE and WITH_DESTROY come from the command line.
#include "plug.hpp"
#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace {
struct Impl : Iface {
    int base;
    Impl() : base(1000) {}
    int call(int x) { return base + x + (int)sizeof(STR(NAME)); }
    const char *lib() const { return STR(NAME); }
};
__attribute__((constructor)) void on_load() { vh_plugin_event(STR(NAME), 0, 0); }
__attribute__((destructor)) void on_unload() { vh_plugin_event(STR(NAME), 1, 0); }
}
#ifdef WITH_CREATE
extern "C" Iface *CAT(pion_create_, NAME)(void) { Iface *p = new Impl; vh_plugin_event(STR(NAME), 2, p); return p; }
#endif
#ifdef WITH_DESTROY
extern "C" void CAT(pion_destroy_, NAME)(Iface *p) { vh_plugin_event(STR(NAME), 3, p); delete p; }
#endif
