// A web service plug-in that reports what is done to it to the host executable.
#include <pion/http/plugin_service.hpp>
#include <pion/http/response_writer.hpp>
#include <boost/bind.hpp>
#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" void vh_service_event(const char *lib, const char *what, const void *obj, const char *resource, const char *name, const char *value);
namespace {
struct Svc : pion::http::plugin_service {
    void set_option(const std::string& n, const std::string& v) {
        vh_service_event(STR(NAME), "option", this, get_resource().c_str(), n.c_str(), v.c_str());
        if (n == "refuse") BOOST_THROW_EXCEPTION(pion::error::bad_arg() << pion::error::errinfo_arg_name(n));
    }
    void start() { vh_service_event(STR(NAME), "start", this, get_resource().c_str(), "", ""); }
    void stop() { vh_service_event(STR(NAME), "stop", this, get_resource().c_str(), "", ""); }
    void operator()(const pion::http::request_ptr& q, const pion::tcp::connection_ptr& k) {
        pion::http::response_writer_ptr w(pion::http::response_writer::create(k, *q, boost::bind(&pion::tcp::connection::finish, k)));
        w->write(std::string("served by " STR(NAME) " at ") + get_resource() + " for " + get_relative_resource(q->get_resource())); w->send();
    }
};
}
extern "C" pion::http::plugin_service *CAT(pion_create_, NAME)(void) { Svc *s = new Svc; vh_service_event(STR(NAME), "create", s, "", "", ""); return s; }
extern "C" void CAT(pion_destroy_, NAME)(pion::http::plugin_service *p) { vh_service_event(STR(NAME), "destroy", p, "", "", ""); delete static_cast<Svc*>(p); }
