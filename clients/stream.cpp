// Reading elements from streams as user code writes it. Compiled to IR only, never run.
#include <e-antic/e-antic.hpp>
#include <istream>

extern "C" {
void sa_read_one(const eantic::renf_class & K, std::istream & is, eantic::renf_elem_class & a)
{
    K.set_pword(is);
    is >> a;
}

void sa_read_two(const eantic::renf_class & K, std::istream & is, eantic::renf_elem_class & a, eantic::renf_elem_class & b)
{
    K.set_pword(is);
    is >> a >> b;
}

const eantic::renf_class * sa_attached(const eantic::renf_class & K, std::istream & is)
{
    K.set_pword(is);
    return eantic::renf_class::get_pword(is).get();
}

const eantic::renf_class * sa_reattached(const eantic::renf_class & K, const eantic::renf_class & L, std::istream & is)
{
    L.set_pword(is);
    K.set_pword(is);
    return eantic::renf_class::get_pword(is).get();
}
}
