// helpers of the demonstrations
#pragma once
#include <dynamix/domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/compat/pmr/memory_resource.hpp>
#include <dnmx/object.h>
#include <dnmx/type.h>
#include <dnmx/domain.h>
#include <dnmx/mutate.h>
#include <dnmx/type_mutation.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <sstream>
#include <new>
namespace dx = dynamix;
using dx::util::builder_perks;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("FAILED line %d: %s\n", __LINE__, #__VA_ARGS__); std::fflush(stdout); std::_Exit(1); } } while (0)
#define THROWS(ex, ...) do { bool caught_ = false; try { __VA_ARGS__; } catch (const ex&) { caught_ = true; } \
    if (!caught_) { std::printf("FAILED line %d: no " #ex " from %s\n", __LINE__, #__VA_ARGS__); std::fflush(stdout); std::_Exit(1); } } while (0)

// an info for a class, registered when a domain is given
template <typename T = int>
struct mixin : dx::util::mixin_info_data {
    dx::util::mixin_info_data_builder<T> b;
    explicit mixin(std::string_view name, dx::domain* d = nullptr) : b(*this, name) { if (d) register_in(*d); }
    operator const dx::mixin_info&() const { return info; }
    const dx::mixin_info* operator&() const { return &info; }
};

using memory_resource = std::remove_pointer_t<decltype(std::declval<dx::allocator>().resource())>;
// counts what it gives out
struct counting : memory_resource {
    long blocks = 0, bytes = 0, total = 0, fail_at = -1;
    void* do_allocate(std::size_t n, std::size_t a) override {
        if (fail_at >= 0 && total == fail_at) { ++total; throw std::bad_alloc(); }
        ++total; ++blocks; bytes += long(n);
        return ::operator new(n, std::align_val_t(a < 16 ? 16 : a));
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override {
        --blocks; bytes -= long(n);
        ::operator delete(p, std::align_val_t(a < 16 ? 16 : a));
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
inline std::vector<const dx::mixin_info*> list(std::initializer_list<const dx::mixin_info*> l) { return l; }
inline const dx::type& get(dx::domain& d, std::initializer_list<const dx::mixin_info*> l) { std::vector<const dx::mixin_info*> v(l); return d.get_type(v); }
inline bool is(const dx::type& t, std::initializer_list<const dx::mixin_info*> l) { return std::vector<const dx::mixin_info*>(t.mixins.begin(), t.mixins.end()) == std::vector<const dx::mixin_info*>(l); }
