// interface of the plug-ins used by the plug-in monitors; events go to the host executable
#pragma once
struct Iface { virtual ~Iface() {} virtual int call(int x) = 0; virtual const char *lib() const = 0; };
extern "C" void vh_plugin_event(const char *lib, int kind, void *obj); // 0 load, 1 unload, 2 create, 3 destroy
