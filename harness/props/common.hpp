// what the dedicated parts share
#pragma once
#include "../engine.hpp"
#include <dynamix/domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <memory>
#include <new>
#include <string>
#include <string_view>
#include <vector>

namespace pt {
using namespace dynamix;
using memres = std::remove_pointer_t<decltype(std::declval<allocator>().resource())>;

// gives out blocks, knows what is out, may fail
struct recres : memres {
    struct blk { size_t size, align; };
    std::map<void*, blk> out;
    long count = 0, fail_at = -1;
    std::string err; // what was wrong
    void* do_allocate(size_t n, size_t a) override {
        if (count++ == fail_at) throw std::bad_alloc();
        size_t al = a < 16 ? 16 : a;
        void* p = ::operator new(n ? n : 1, std::align_val_t(al));
        memset(p, 0xcd, n);
        out[p] = {n, a};
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t a) override {
        auto i = out.find(p);
        if (i == out.end()) { err = "a block which is not out is given back"; return; }
        if (i->second.size != n || i->second.align != a) err = "a block is given back with another size or alignment";
        out.erase(i);
        ::operator delete(p, std::align_val_t(a < 16 ? 16 : a));
    }
    bool do_is_equal(const memres& o) const noexcept override { return this == &o; }
    ~recres() { for (auto& b : out) ::operator delete(b.first, std::align_val_t(b.second.align < 16 ? 16 : b.second.align)); }
};
inline allocator alc(memres& r) { return allocator(&r); }
inline allocator alc(memres* r) { return allocator(r); }

// how a call ended
enum Oc { oc_ok = 1, oc_domain = 2, oc_type = 4, oc_object = 8, oc_mut_user = 16, oc_feature = 32, oc_alloc = 64, oc_other = 128 };
inline const char* oc_name(int o) {
    switch (o) { case oc_ok: return "success"; case oc_domain: return "domain_error"; case oc_type: return "type_error"; case oc_object: return "object_error";
        case oc_feature: return "feature_error"; case oc_alloc: return "bad_alloc"; default: return "another exception"; }
}
template <typename F> int outcome(F&& f, std::string* what = nullptr) {
    auto w = [&](const std::exception& e) { if (what) *what = e.what(); };
    try { f(); return oc_ok; }
    catch (vp::Failure&) { throw; }
    catch (const feature_error& e) { w(e); return oc_feature; }
    catch (const domain_error& e) { w(e); return oc_domain; }
    catch (const type_error& e) { w(e); return oc_type; }
    catch (const object_error& e) { w(e); return oc_object; }
    catch (const std::bad_alloc& e) { w(e); return oc_alloc; }
    catch (const std::exception& e) { w(e); return oc_other; }
    catch (...) { return oc_other; }
}
#define VOC(call_outcome, want, expr) do { int vp_oc_ = (call_outcome); if (vp_oc_ != int(want)) VFAIL(expr << ": " << pt::oc_name(vp_oc_) << ", expected " << pt::oc_name(want)); } while (false)

// a name of arbitrary bytes in a buffer of exactly its size
struct bytes {
    std::unique_ptr<char[]> p; size_t n = 0;
    void set(const std::string& s) { n = s.size(); p.reset(new char[n ? n : 1]); memcpy(p.get(), s.data(), n); }
    std::string_view view() const { return {p.get(), n}; }
    dnmx_sv sv() const { return dnmx_make_sv_len(p.get(), n); }
};
inline std::string show(std::string_view v) {
    std::string o = "'";
    for (unsigned char c : v) { if (c < 32 || c > 126 || c == '\'') { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += char(c); }
    return o + "'";
}
// names that like to share prefixes
inline std::string gen_name(vp::Src& s) {
    std::string r;
    size_t n = s.weighted({2, 6, 6, 4, 2, 1});
    static const char odd[] = {'a', 'b', 'A', 'z', '\0', '\x7f', '\x80', '\xff', ' ', '.'};
    for (size_t i = 0; i < n; ++i) r += s.chance(1, 4) ? odd[s.index(sizeof odd)] : "ab"[s.index(2)];
    return r;
}
}
