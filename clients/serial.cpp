// Client of the serialization templates. Compiled to IR only, never run: the archives forward every value to
// functions without a definition, whose effect the analysis supplies.
#include <cstdint>
#include <memory>
#include <string>
#include <e-antic/cereal.hpp>

namespace client {
using eantic::renf_class;
using eantic::renf_elem_class;
using field = boost::intrusive_ptr<const renf_class>;

// ---- what the analysis models
void out_string(const char *, const std::string &);
void out_u32(const char *, uint32_t);
void out_long(const char *, long);
void out_field(const char *, const field &);
uint32_t out_register(const void *);
void in_string(const char *, std::string &);
void in_u32(const char *, uint32_t &);
void in_long(const char *, long &);
void in_field(const char *, field &);
void in_register(uint32_t, const field *);
const field * in_lookup(uint32_t);
void keep(const void *, const void *);

struct out {
    template <class T> uint32_t registerSharedPointer(const std::shared_ptr<T> & p) { keep(&p, p.get()); return out_register(p.get()); }
    uint32_t registerSharedPointer(const void * p) { return out_register(p); }

    void put(const char * n, const std::string & s) { out_string(n, s); }
    void put(const char * n, const uint32_t & v) { out_u32(n, v); }
    void put(const char * n, const long & v) { out_long(n, v); }
    void put(const char * n, const field & f) { out_field(n, f); }
    template <class T> void put(const char *, const cereal::NameValuePair<T> & v) { put(v.name, v.value); }

    template <class... A> out & operator()(A &&... a) { (put("", a), ...); return *this; }
};

struct in {
    void registerSharedPointer(uint32_t id, const std::shared_ptr<void> & p) { keep(&p, p.get()); in_register(id, static_cast<const field *>(p.get())); }
    std::shared_ptr<void> getSharedPointer(uint32_t id) { return std::shared_ptr<void>(std::shared_ptr<void>(), const_cast<field *>(in_lookup(id))); }

    void get(const char * n, std::string & s) { in_string(n, s); }
    void get(const char * n, uint32_t & v) { in_u32(n, v); }
    void get(const char * n, long & v) { in_long(n, v); }
    void get(const char * n, field & f) { in_field(n, f); }
    template <class T> void get(const char *, cereal::NameValuePair<T> & v) { get(v.name, v.value); }

    template <class... A> in & operator()(A &&... a) { (get("", a), ...); return *this; }
};

// as before, and it knows the name of the next entry
struct named : in {
    const char * getNodeName() const;
    void finishNode();
    template <class... A> named & operator()(A &&... a) { (get("", a), ...); return *this; }
};

void save_field(out & a, const field & f) { eantic::save(a, f); }
void save_elem(out & a, const renf_elem_class & x) { eantic::save(a, x); }
void load_field(in & a, field & f) { eantic::load(a, f); }
void load_elem(in & a, renf_elem_class & x) { eantic::load(a, x); }
void load_field_named(named & a, field & f) { eantic::load(a, f); }
}
