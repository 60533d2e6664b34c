#pragma once
#include "host.hpp"
#include <dynamix/mutate.hpp>
namespace host {
template <typename M> mod_mixin describe(const char* name) {
    mod_mixin r;
    r.name = name;
    r.info = &dynamix::g::get_mixin_info<M>();
    r.add = [](dynamix::object& o) { dynamix::mutate(o, dynamix::add<M>()); };
    r.remove = [](dynamix::object& o) { dynamix::mutate(o, dynamix::remove<M>()); };
    r.get = [](const dynamix::object& o) -> const void* { return o.get<M>(); };
    return r;
}
}
