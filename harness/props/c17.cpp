// C17: infos built for C++ classes, builder calls, registration through the data.
#include "common.hpp"
#include <dynamix/mixin_info_util.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/any.hpp>
#include <array>
#include <utility>

namespace c17 {
using namespace pt;

// ---------------------------------------------------------------- classes
// special members by policy: 0 trivial, 1 user-provided (throws on demand), 2 deleted, 3 user-provided and noexcept
struct Ev { char what; const void* self; const void* src; bool operator==(const Ev& o) const { return what == o.what && self == o.self && src == o.src; } };
thread_local std::vector<Ev> evs;
thread_local bool throw_now = false;
struct Boom { int x; };
inline void ev(char w, const void* a, const void* b, bool may_throw) { if (may_throw && throw_now) throw Boom{w}; evs.push_back({w, a, b}); }

#define REST_BUT_D(N) N(const N&) = default; N(N&&) = default; N& operator=(const N&) = default; N& operator=(N&&) = default;
template <int K> struct D { };
template <> struct D<1> { D() { ev('d', this, nullptr, true); } REST_BUT_D(D) };
template <> struct D<2> { D() = delete; explicit D(int) {} REST_BUT_D(D) };
template <> struct D<3> { D() noexcept { ev('d', this, nullptr, false); } REST_BUT_D(D) };
#define OTHERS_CC(N) N() = default; N(N&&) = default; N& operator=(const N&) = default; N& operator=(N&&) = default;
template <int K> struct CC { };
template <> struct CC<1> { CC(const CC& o) { ev('c', this, &o, true); } OTHERS_CC(CC) };
template <> struct CC<2> { CC(const CC&) = delete; OTHERS_CC(CC) };
template <> struct CC<3> { CC(const CC& o) noexcept { ev('c', this, &o, false); } OTHERS_CC(CC) };
#define OTHERS_MC(N) N() = default; N(const N&) = default; N& operator=(const N&) = default; N& operator=(N&&) = default;
template <int K> struct MC { };
template <> struct MC<1> { MC(MC&& o) { ev('m', this, &o, true); } OTHERS_MC(MC) };
template <> struct MC<2> { MC(MC&&) = delete; OTHERS_MC(MC) };
template <> struct MC<3> { MC(MC&& o) noexcept { ev('m', this, &o, false); } OTHERS_MC(MC) };
#define OTHERS_CA(N) N() = default; N(const N&) = default; N(N&&) = default; N& operator=(N&&) = default;
template <int K> struct CA { };
template <> struct CA<1> { CA& operator=(const CA& o) { ev('C', this, &o, true); return *this; } OTHERS_CA(CA) };
template <> struct CA<2> { CA& operator=(const CA&) = delete; OTHERS_CA(CA) };
template <> struct CA<3> { CA& operator=(const CA& o) noexcept { ev('C', this, &o, false); return *this; } OTHERS_CA(CA) };
#define OTHERS_MA(N) N() = default; N(const N&) = default; N(N&&) = default; N& operator=(const N&) = default;
template <int K> struct MA { };
template <> struct MA<1> { MA& operator=(MA&& o) { ev('M', this, &o, true); return *this; } OTHERS_MA(MA) };
template <> struct MA<2> { MA& operator=(MA&&) = delete; OTHERS_MA(MA) };
template <> struct MA<3> { MA& operator=(MA&& o) noexcept { ev('M', this, &o, false); return *this; } OTHERS_MA(MA) };
template <int K> struct DT { };
template <> struct DT<1> { DT() = default; DT(const DT&) = default; DT(DT&&) = default; DT& operator=(const DT&) = default; DT& operator=(DT&&) = default; ~DT() { ev('x', this, nullptr, false); } };

constexpr unsigned digit(unsigned i, unsigned k) { unsigned h = i * 2654435761u + k * 40503u + 12345u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16; return h; }
constexpr int pol(unsigned i, unsigned k) { // mostly trivial for some
    if (i < 4 * 5) return k == i / 4 ? int(i % 4) : 0; // one policy away from trivial
    unsigned h = digit(i, k);
    return (h >> 8) % 3 == 0 ? 0 : int(h % 4);
}
template <unsigned I> struct alignas(1u << (digit(I, 10) % 8)) X
    : D<pol(I, 0)>, CC<pol(I, 1)>, MC<pol(I, 2)>, CA<pol(I, 3)>, MA<pol(I, 4)>, DT<(I < 20 ? 0 : int(digit(I, 5) & 1))> {
    unsigned char v[1 + digit(I, 11) % 70];
    X() = default; X(const X&) = default; X(X&&) = default; X& operator=(const X&) = default; X& operator=(X&&) = default;
};
struct Empty {};
struct alignas(64) EmptyAligned {};
// a class whose move is a copy, by a user-provided copy constructor only
struct CopyOnly { unsigned char v[3]; CopyOnly() = default; CopyOnly(const CopyOnly& o) noexcept { memcpy(v, o.v, 3); ev('c', this, &o, false); } CopyOnly& operator=(const CopyOnly& o) noexcept { memcpy(v, o.v, 3); ev('C', this, &o, false); return *this; } };
// a class which is constructed from nothing by default arguments
struct DefArg { unsigned char v[5]; explicit DefArg(int a = 7, int b = 3) { memset(v, a * 16 + b, 5); ev('d', this, nullptr, true); } };
// const and reference members: no assignment
struct Consty { const int c = 5; unsigned char v[4]; };
struct Stringy { std::string s = "default"; };
struct VirtualDtor { unsigned char v[9]; virtual ~VirtualDtor() { ev('x', this, nullptr, false); } };

template <typename T> constexpr bool has_v = false;
template <unsigned I> constexpr bool has_v<X<I>> = true;
template <> constexpr bool has_v<CopyOnly> = true;
template <> constexpr bool has_v<DefArg> = true;

struct Fns {
    std::string name;
    std::function<void(vp::Src&)> run;
};

// an aligned place, with guards
template <typename T> struct Place {
    static constexpr size_t G = sizeof(T) < alignof(T) ? alignof(T) : ((sizeof(T) + alignof(T) - 1) / alignof(T)) * alignof(T);
    alignas(T) unsigned char b[G * 3];
    unsigned char g;
    explicit Place(unsigned char g) : g(g) { memset(b, g, sizeof b); }
    T* p() { return reinterpret_cast<T*>(b + G); }
    void fill(unsigned char c) { memset(b + G, c, sizeof(T)); }
    void guards(const char* what) {
        for (size_t i = 0; i < sizeof b; ++i) if (i < G || i >= G + sizeof(T)) VCHECK(b[i] == g, what << " touches byte " << long(i) - long(G) << " of a class of " << sizeof(T));
    }
};
// the events of f, positions relative to the places a and b
template <typename F> std::pair<std::vector<std::string>, bool> events(const void* a, const void* b, bool thr, F&& f) {
    evs.clear(); throw_now = thr;
    bool threw = false;
    try { f(); } catch (Boom&) { threw = true; }
    throw_now = false;
    std::vector<std::string> r;
    auto rel = [&](const void* p) -> std::string {
        if (!p) return "-";
        auto in = [&](const void* q) { auto d = (const char*)p - (const char*)q; return q && d >= 0 && d < 256 ? long(d) : -1; };
        if (in(a) >= 0) return "a" + std::to_string(in(a));
        if (in(b) >= 0) return "b" + std::to_string(in(b));
        return "?";
    };
    for (auto& e : evs) r.push_back(std::string(1, e.what) + rel(e.self) + rel(e.src));
    evs.clear();
    return {r, threw};
}
std::string str(const std::pair<std::vector<std::string>, bool>& e) { std::string r = "["; for (auto& x : e.first) r += " " + x; return r + (e.second ? " thrown ]" : " ]"); }

template <typename T> void check_info(const mixin_info& i) {
    VEQ(i.size, sizeof(T), "size"); VEQ(i.alignment, alignof(T), "alignment");
    // the buffer of an external mixin: pointer to the object and then the mixin, one alignment in
    size_t off = alignof(T) < sizeof(void*) ? sizeof(void*) : alignof(T);
    VEQ(i.obj_buf_alignment_and_mixin_offset, off, "alignment of the buffer"); VEQ(i.obj_buf_size, off + sizeof(T), "size of the buffer");
    VEQ(i.init != nullptr, std::is_default_constructible_v<T>, "offers default construction");
    VEQ(i.copy_init != nullptr, std::is_copy_constructible_v<T>, "offers copy construction");
    VEQ(i.copy_asgn != nullptr, std::is_copy_assignable_v<T>, "offers copy assignment");
    VEQ(i.move_init != nullptr, std::is_nothrow_move_constructible_v<T> || std::is_trivially_move_constructible_v<T>, "offers move construction");
    VEQ(i.move_asgn != nullptr, std::is_nothrow_move_assignable_v<T> || std::is_trivially_move_assignable_v<T>, "offers move assignment");
    if (!std::is_trivially_destructible_v<T>) VCHECK(i.destroy, "the destructor is not offered");
    VEQ(i.external(), !i.move_init, "external");
    VCHECK(!i.equals && !i.compare && !i.allocator && !i.dependency && !i.force_external && !i.features && !i.num_features && i.order_priority == 0 && i.user_data == 0, "something is set which is not a matter of the class");
    VCHECK(i.id == invalid_mixin_id && !i.dom, "an info is built registered");
}

template <typename T> void run_class(vp::Src& s, const mixin_info& i) {
    check_info<T>(i);
    unsigned char va = (unsigned char)s.range(1, 200), vb = (unsigned char)s.range(1, 200), g = (unsigned char)s.range(201, 250);
    bool thr = s.chance(1, 3);
    // places for the function of the info and for the C++ operation
    Place<T> fa(g), fb(g), ca(g), cb(g);
    auto same = [&](const char* what, bool values) {
        fa.guards(what); fb.guards(what);
        if constexpr (has_v<T>) if (values) VCHECK(memcmp(fa.p()->v, ca.p()->v, sizeof(T::v)) == 0, what << " gives the target another value than the C++ operation");
    };
    auto cmp = [&](const char* what, const std::pair<std::vector<std::string>, bool>& f, const std::pair<std::vector<std::string>, bool>& c) {
        VCHECK(f == c, what << " does " << str(f) << ", the C++ operation " << str(c));
        if (!c.first.empty()) s.interesting();
    };
    auto mk = [&](Place<T>& p, unsigned char c) { // live, with value c
        if constexpr (std::is_default_constructible_v<T>) new (p.p()) T;
        else p.fill(0);
        if constexpr (has_v<T>) memset(p.p()->v, c, sizeof(T::v)); else (void)c;
        if constexpr (std::is_same_v<T, Stringy>) p.p()->s = std::string(c % 40, 'q');
    };
    auto kill = [&](Place<T>& p) { p.p()->~T(); };
    auto val_eq = [&](const char* what) { if constexpr (std::is_same_v<T, Stringy>) VCHECK(fa.p()->s == ca.p()->s, what << " gives another string"); };
    if constexpr (std::is_default_constructible_v<T>) {
        fa.fill(va); ca.fill(va);
        auto f = events(fa.p(), nullptr, thr, [&] { VCHECK(!i.init(&i, fa.p()), "an error of init"); });
        auto c = events(ca.p(), nullptr, thr, [&] { new (ca.p()) T; });
        cmp("default construction", f, c);
        same("default construction", std::is_same_v<T, DefArg> && !c.second);
        if (!c.second) { val_eq("default construction"); kill(fa); kill(ca); }
    }
    bool have = std::is_default_constructible_v<T> || std::is_trivially_destructible_v<T> || !std::is_default_constructible_v<T>;
    (void)have;
    if constexpr (std::is_copy_constructible_v<T>) {
        mk(fb, vb); mk(cb, vb); fa.fill(va); ca.fill(va);
        auto f = events(fa.p(), fb.p(), thr, [&] { VCHECK(!i.copy_init(&i, fa.p(), fb.p()), "an error of copy_init"); });
        auto c = events(ca.p(), cb.p(), thr, [&] { new (ca.p()) T(std::as_const(*cb.p())); });
        cmp("copy construction", f, c);
        same("copy construction", !c.second);
        if constexpr (has_v<T>) VCHECK(memcmp(fb.p()->v, cb.p()->v, sizeof(T::v)) == 0, "copy construction changes the source");
        if (!c.second) { val_eq("copy construction"); kill(fa); kill(ca); }
        kill(fb); kill(cb);
    }
    if constexpr (std::is_nothrow_move_constructible_v<T> || std::is_trivially_move_constructible_v<T>) {
        mk(fb, vb); mk(cb, vb); fa.fill(va); ca.fill(va);
        auto f = events(fa.p(), fb.p(), false, [&] { i.move_init(&i, fa.p(), fb.p()); });
        auto c = events(ca.p(), cb.p(), false, [&] { new (ca.p()) T(std::move(*cb.p())); });
        cmp("move construction", f, c);
        same("move construction", true); val_eq("move construction");
        kill(fa); kill(ca); kill(fb); kill(cb);
    }
    if constexpr (std::is_copy_assignable_v<T>) {
        mk(fb, vb); mk(cb, vb); mk(fa, va); mk(ca, va);
        auto f = events(fa.p(), fb.p(), thr, [&] { VCHECK(!i.copy_asgn(&i, fa.p(), fb.p()), "an error of copy_asgn"); });
        auto c = events(ca.p(), cb.p(), thr, [&] { *ca.p() = std::as_const(*cb.p()); });
        cmp("copy assignment", f, c);
        same("copy assignment", !c.second);
        if constexpr (has_v<T>) VCHECK(memcmp(fb.p()->v, cb.p()->v, sizeof(T::v)) == 0, "copy assignment changes the source");
        if (!c.second) val_eq("copy assignment");
        kill(fa); kill(ca); kill(fb); kill(cb);
    }
    if constexpr (std::is_nothrow_move_assignable_v<T> || std::is_trivially_move_assignable_v<T>) {
        mk(fb, vb); mk(cb, vb); mk(fa, va); mk(ca, va);
        auto f = events(fa.p(), fb.p(), false, [&] { i.move_asgn(&i, fa.p(), fb.p()); });
        auto c = events(ca.p(), cb.p(), false, [&] { *ca.p() = std::move(*cb.p()); });
        cmp("move assignment", f, c);
        same("move assignment", true); val_eq("move assignment");
        kill(fa); kill(ca); kill(fb); kill(cb);
    }
    {
        mk(fa, va); mk(ca, va);
        auto f = events(fa.p(), nullptr, false, [&] { if (i.destroy) i.destroy(&i, fa.p()); });
        auto c = events(ca.p(), nullptr, false, [&] { ca.p()->~T(); });
        cmp("destruction", f, c);
        fa.guards("destruction");
    }
}
template <typename T> Fns mk_class(std::string n) {
    return {n, [n](vp::Src& s) {
        util::mixin_info_data data;
        bytes nm; nm.set(gen_name(s));
        switch (s.index(4)) {
        case 0: { util::mixin_info_data_builder<T> b(data, nm.sv()); VCHECK(data.info.name.to_std() == nm.view(), "name given to the builder"); break; }
        case 1: { util::mixin_info_data_builder<T> b(data, nm.view()); VCHECK(data.info.name.to_std() == nm.view(), "name given to the builder"); break; }
        case 2: {
            common_mixin_info by_sv(nm.sv()), by_view(nm.view());
            for (auto p : {&by_sv, &by_view}) {
                VCHECK(p->name.to_std() == nm.view(), "name of an info made with a name");
                VCHECK(!p->registered() && !p->dom && !p->allocator && !p->init && !p->destroy && !p->copy_init && !p->copy_asgn && !p->move_init && !p->move_asgn && !p->compare && !p->equals && !p->num_features && !p->dependency && !p->order_priority && !p->user_data, "an info made with a name has nothing else");
            }
            util::common_init_mixin_info<T>(data.info); data.info.name = nm.sv();
            break;
        }
        default: { DYNAMIX_COMMON_INIT_MI(data.info, T); VCHECK(data.info.name.to_std() == "T", "name by the macro"); data.info.name = nm.sv(); break; }
        }
        run_class<T>(s, data.info);
        if constexpr (std::is_arithmetic_v<T>) {
            T a = T(s.draw(3)), b = T(s.draw(3));
            VEQ(util::call_mixin_equality_operator<T>(&data.info, &a, &b), a == b, "equality by the operator of the class");
        }
        // objects of the class
        if (std::is_default_constructible_v<T> && s.flip()) {
            evs.clear();
            {
                recres res;
                domain_settings set = domain_settings_builder(); set.allow_duplicate_mixin_names = true;
                domain d("dom", set);
                d.register_mixin(data.info);
                auto& t = d.get_type(std::vector<const mixin_info*>{&data.info});
                VEQ(t.default_constructible(), true, "default_constructible"); VEQ(t.copy_constructible(), std::is_copy_constructible_v<T>, "copy_constructible");
                VEQ(t.copy_assignable(), std::is_copy_assignable_v<T>, "copy_assignable");
                {
                    object o(t, alc(res));
                    VEQ(uintptr_t(o.get(data.info.id)) % alignof(T), 0u, "alignment of a mixin in an object");
                    VCHECK(std::is_copy_constructible_v<T> == (outcome([&] { auto c = o.copy(); }) == oc_ok), "copy of an object");
                    object o2(t, alc(res));
                    VCHECK((std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) || outcome([&] { o2.copy_from(o); }) != oc_other, "assignment of an object");
                    object o3 = std::move(o);
                    (void)o3;
                }
                VCHECK(res.err.empty() && res.out.empty(), "blocks of objects of a class " << res.err);
                d.unregister_mixin(data.info);
            }
            if constexpr (!std::is_trivially_destructible_v<T> && has_v<T>) {
                std::set<const void*> live;
                (void)live;
            }
            evs.clear();
        }
    }};
}
#ifndef VP_CLASSES
#define VP_CLASSES 84
#endif
template <unsigned... I> void add_x(std::vector<Fns>& v, std::integer_sequence<unsigned, I...>) {
    (v.push_back(mk_class<X<I>>("X<" + std::to_string(I) + "> with policies " + std::to_string(pol(I, 0)) + std::to_string(pol(I, 1)) + std::to_string(pol(I, 2)) + std::to_string(pol(I, 3)) + std::to_string(pol(I, 4)) + " size " + std::to_string(sizeof(X<I>)) + " alignment " + std::to_string(alignof(X<I>)))), ...);
}
const std::vector<Fns>& classes() {
    static std::vector<Fns> v = [] {
        std::vector<Fns> r;
        add_x(r, std::make_integer_sequence<unsigned, VP_CLASSES>());
        r.push_back(mk_class<Empty>("an empty class")); r.push_back(mk_class<EmptyAligned>("an aligned empty class")); r.push_back(mk_class<CopyOnly>("a class with copies only"));
        r.push_back(mk_class<DefArg>("a class with default arguments")); r.push_back(mk_class<Consty>("a class with a const member")); r.push_back(mk_class<Stringy>("a class with a string"));
        r.push_back(mk_class<VirtualDtor>("a class with a virtual destructor")); r.push_back(mk_class<int>("int")); r.push_back(mk_class<std::unique_ptr<int>>("unique_ptr"));
        r.push_back(mk_class<std::array<double, 9>>("an array")); r.push_back(mk_class<double>("double"));
        return r;
    }();
    return v;
}
void cpp_classes(vp::Src& s) {
    auto& f = s.pick(classes());
    VLOG(f.name);
    f.run(s);
}
void void_class(vp::Src& s) {
    util::mixin_info_data data;
    util::mixin_info_data_builder<> b(data, std::string_view("void"));
    auto& i = data.info;
    (void)b;
    unsigned char m[2][8]; memset(m[0], int(s.draw(256)), 8); memset(m[1], int(s.draw(256)), 8);
    unsigned char k[2][8]; memcpy(k, m, sizeof m);
    VCHECK(i.init && i.copy_init && i.copy_asgn && i.move_init && i.move_asgn && i.compare && !i.destroy, "functions of an info for no class");
    VCHECK(!i.init(&i, m[0]) && !i.copy_init(&i, m[0], m[1]) && !i.copy_asgn(&i, m[0], m[1]), "results of functions for no class");
    i.move_init(&i, m[0], m[1]); i.move_asgn(&i, m[0], m[1]);
    VEQ(i.compare(&i, m[0], m[1]), 0, "comparison for no class");
    VCHECK(memcmp(m, k, sizeof m) == 0, "a function for no class touches memory");
    VEQ(i.size, 0u, "size for no class"); VEQ(i.obj_buf_size, sizeof(void*), "buffer for no class"); VEQ(i.obj_buf_alignment_and_mixin_offset, sizeof(void*), "buffer for no class");
    VCHECK(!i.external(), "external for no class");
    // sizes and alignments by hand
    byte_size_t sz = byte_size_t(s.draw(5000)), al = byte_size_t(1) << s.draw(12);
    VLOG("size " << sz << " alignment " << al);
    i.set_size_alignment(sz, al);
    byte_size_t off = al < sizeof(void*) ? byte_size_t(sizeof(void*)) : al;
    VEQ(i.size, sz, "size"); VEQ(i.alignment, al, "alignment"); VEQ(i.obj_buf_size, sz + off, "size of the buffer"); VEQ(i.obj_buf_alignment_and_mixin_offset, off, "offset in the buffer");
    // the common functions touch exactly the bytes of the mixin
    std::vector<unsigned char> a(sz + 16, 0xa5), c(sz + 16), c0;
    for (size_t x = 0; x < c.size(); ++x) c[x] = (unsigned char)(x * 7 + 1);
    c0 = c;
    auto frame = [&](std::vector<unsigned char>& v, unsigned char first, unsigned char tail, const char* w) {
        (void)first;
        for (size_t x = sz + 8; x < v.size(); ++x) VCHECK(v[x] == (tail ? tail : c0[x]), w << " writes beyond the mixin");
    };
    dnmx_mixin_common_init_func(&i, a.data() + 8);
    for (size_t x = 0; x < 8; ++x) VCHECK(a[x] == 0xa5, "init writes before the mixin");
    for (size_t x = 0; x < sz; ++x) VCHECK(a[8 + x] == 0, "init does not clear");
    frame(a, 0xa5, 0xa5, "init");
    dnmx_mixin_common_copy_func(&i, a.data() + 8, c.data() + 8);
    VCHECK(c == c0 && memcmp(a.data() + 8, c.data() + 8, sz) == 0, "copy"); frame(a, 0xa5, 0xa5, "copy");
    VEQ(dnmx_mixin_common_cmp_func(&i, a.data() + 8, c.data() + 8), 0, "comparison of copies"); VCHECK(dnmx_mixin_common_eq_func(&i, a.data() + 8, c.data() + 8), "equality of copies");
    if (sz) {
        size_t x = s.index(sz);
        c[8 + x] = (unsigned char)(c[8 + x] + 1 + s.draw(255));
        int want = memcmp(a.data() + 8, c.data() + 8, sz), got = dnmx_mixin_common_cmp_func(&i, a.data() + 8, c.data() + 8);
        VCHECK((want < 0) == (got < 0) && got != 0, "comparison at byte " << x);
        VCHECK(!dnmx_mixin_common_eq_func(&i, a.data() + 8, c.data() + 8), "equality at byte " << x);
        c = c0; s.interesting();
    }
    c[0] ^= 1;
    VCHECK(dnmx_mixin_common_eq_func(&i, a.data() + 8, c.data() + 8), "equality looks before the mixin"); c = c0;
    c[8 + sz] ^= 1;
    VCHECK(dnmx_mixin_common_eq_func(&i, a.data() + 8, c.data() + 8), "equality looks beyond the mixin"); c = c0;
    memset(a.data(), 0xa5, a.size());
    dnmx_mixin_common_move_func_copy(&i, a.data() + 8, c.data() + 8);
    VCHECK(c == c0 && memcmp(a.data() + 8, c0.data() + 8, sz) == 0, "move by copy");
    memset(a.data(), 0xa5, a.size());
    dnmx_mixin_common_move_func(&i, a.data() + 8, c.data() + 8);
    VCHECK(memcmp(a.data() + 8, c0.data() + 8, sz) == 0, "move"); frame(a, 0xa5, 0xa5, "move"); frame(c, 0, 0, "move");
    for (size_t x = 0; x < 8; ++x) VCHECK(a[x] == 0xa5 && c[x] == c0[x], "move writes before the mixin");
    dnmx_mixin_common_destroy_func(&i, a.data() + 8); frame(a, 0xa5, 0xa5, "destroy");
    for (size_t x = 0; x < 8; ++x) VCHECK(a[x] == 0xa5, "destroy writes before the mixin");
}

// ---------------------------------------------------------------- builders
long live = 0;
struct Pl { int n; explicit Pl(int n) : n(n) { ++live; } Pl(const Pl& o) : n(o.n) { ++live; } Pl(Pl&& o) noexcept : n(o.n) { ++live; } ~Pl() { --live; n = -1; } };
struct Al : mixin_allocator {
    Al() { ++live; } ~Al() { --live; }
    byte_t* alloc_mixin_buf(const mixin_info& i) override { return (byte_t*)::operator new(i.obj_buf_size, std::align_val_t(i.obj_buf_alignment_and_mixin_offset)); }
    void dealloc_mixin_buf(byte_t* p, const mixin_info& i) noexcept override { ::operator delete(p, std::align_val_t(i.obj_buf_alignment_and_mixin_offset)); }
};
// classes of mixins with infos of the case
struct S0 {}; struct S1 {}; struct S2 {};
const mixin_info* cur[3];
inline const mixin_info& _dynamix_get_mixin_info(const S0*) { return *cur[0]; }
inline const mixin_info& _dynamix_get_mixin_info(const S1*) { return *cur[1]; }
inline const mixin_info& _dynamix_get_mixin_info(const S2*) { return *cur[2]; }
error_return_t rule_a(dnmx_type_mutation_handle, uintptr_t) { return 0; }
error_return_t rule_b(dnmx_type_mutation_handle, uintptr_t) { return 0; }
// features with traits: payloads by type
struct TraitFeature {
    struct traits {
        template <typename Mixin> static any make_payload_by(allocator a, Mixin*, Pl& p) { return make_any(a, Pl(p.n + 1000)); }
        template <typename Mixin> static any make_payload_by(allocator a, Mixin*, const Pl& p) { return make_any(a, Pl(p.n + 2000)); }
        template <typename Mixin> static any make_payload_with(allocator a, Mixin*, Pl&& p) { return make_any(a, Pl(p.n + 3000)); }
        template <typename Mixin> static any make_payload_for(allocator a, Mixin*) { return make_any(a, Pl(4000)); }
    };
    static common_feature_info own; static const feature_info& info;
    static const common_feature_info& get_info_safe() { return own; }
};
common_feature_info TraitFeature::own; const feature_info& TraitFeature::info = TraitFeature::own;

struct MFeat { const feature_info* info; int n; int32_t bid, prio; };
struct MRule { std::string name; bool own; const mutation_rule_info* info; mutation_rule_info::apply_func apply; uintptr_t ud; int32_t prio; };

void check_data(util::mixin_info_data& d, const std::string& name, uintptr_t ud, bool dep, const void* al, const std::vector<MFeat>& fs, const std::vector<MRule>& rs, const char* when) {
    VCHECK(d.info.name.to_std() == name, when << ": the name is " << show(d.info.name.to_std()) << ", expected " << show(name));
    VEQ(d.info.user_data, ud, when << ": user data"); VEQ(d.info.dependency, dep, when << ": dependency");
    if (al != (void*)1) VCHECK(d.info.allocator == al, when << ": allocator");
    VEQ(d.info.num_features, fs.size(), when << ": number of features");
    for (size_t i = 0; i < fs.size(); ++i) {
        auto& f = d.info.features[i];
        VCHECK(f.info == fs[i].info, when << ": feature " << i); VEQ(f.bid, fs[i].bid, when << ": bid of feature " << i); VEQ(f.priority, fs[i].prio, when << ": priority of feature " << i);
        VCHECK(f.payload, when << ": a null payload"); VEQ(((Pl*)f.payload)->n, fs[i].n, when << ": payload of feature " << i);
    }
    VEQ(d.mutation_rule_infos.size(), rs.size(), when << ": number of rules");
    for (size_t i = 0; i < rs.size(); ++i) {
        auto* r = d.mutation_rule_infos[i];
        if (!rs[i].own) VCHECK(r == rs[i].info, when << ": rule " << i);
        VCHECK(r->name.to_std() == rs[i].name, when << ": rule " << i << " has the name " << show(r->name.to_std()) << ", expected " << show(rs[i].name));
        if (rs[i].apply) VCHECK(r->apply == rs[i].apply, when << ": function of rule " << i);
        VCHECK(r->apply, when << ": no function of rule " << i);
        VEQ(r->user_data, rs[i].ud, when << ": user data of rule " << i); VEQ(r->order_priority, rs[i].prio, when << ": priority of rule " << i);
    }
}
util::builder_perks gen_perks(vp::Src& s) {
    using namespace util::builder_literals;
    int b = int(s.range(-3, 3)), p = int(s.range(-3, 3));
    util::builder_perks r;
    switch (s.index(7)) {
    case 0: break;
    case 1: r = feature_bid(b); break;
    case 2: r = order_priority(p); break;
    case 3: r = feature_bid_priority(b, p); break;
    case 4: r = -feature_bid_priority(b, p); break;
    case 5: r = -(s.flip() ? 3_bid : 2_prio); break;
    default: r = s.flip() ? 3_bid : 2_prio; break;
    }
    return r;
}
void builders(vp::Src& s) {
    recres res;
    live = 0;
    std::vector<bytes> names(40); size_t nn = 0; // names which stay
    std::vector<std::unique_ptr<Pl>> outside;
    mutation_rule_info ext[2] = {{dnmx_make_sv_lit("ext0"), rule_a, 5, -1}, {dnmx_make_sv_lit("ext1"), rule_b, 6, 2}};
    common_feature_info f0, f1;
    const feature_info* finfos[] = {&f0, &f1};
    Al ext_al; long base = live;
    common_mixin_info si[3]; for (int i = 0; i < 3; ++i) cur[i] = &si[i];
    {
        util::mixin_info_data d(alc(res));
        VCHECK(d.get_allocator() == alc(res), "allocator of the data");
        std::string name = gen_name(s);
        names[nn].set(name);
        using B = util::mixin_info_data_builder<S0>;
        B b = s.flip() ? B(d, names[nn].view()) : B(d, names[nn].sv());
        ++nn;
        uintptr_t ud = 0; bool dep = false; const void* al = nullptr;
        std::vector<MFeat> fs; std::vector<MRule> rs;
        check_data(d, name, ud, dep, al, fs, rs, "at first");
        bool kept_al = false;
        VCHECK(&b.get_data() == &d && b.get_allocator() == d.get_allocator(), "data of a builder");
        while (s.more(9) && nn < 38) {
            vp::Src::Op op(s);
            if (s.chance(1, 8)) { B nb(nullptr, d); VCHECK(&nb.get_data() == &d, "data of an adopting builder"); }
            B bb(nullptr, d); // adopts: nothing changes
            long fault = s.chance(1, 8) ? long(s.draw(3)) : -1;
            auto run = [&](auto&& f, auto&& apply) {
                res.count = 0; res.fail_at = fault;
                int oc = outcome([&] { auto& r = f(); VCHECK(&r == &bb, "a builder call returns the builder"); });
                res.fail_at = -1;
                if (fault >= 0 && oc == oc_alloc) { s.label("failed allocation"); return; }
                VOC(oc, oc_ok, "a builder call");
                apply();
            };
            std::string n = gen_name(s);
            if (s.chance(1, 4)) n += std::string(s.draw(60), 'L');
            auto p1 = gen_perks(s), p2 = gen_perks(s);
            auto bid = [&] { return p1.bid ? *p1.bid : p2.bid ? *p2.bid : 0; };
            auto prio = [&] { return p1.priority ? *p1.priority : p2.priority ? *p2.priority : 0; };
            auto* fi = finfos[s.index(2)];
            int v = int(s.range(1, 99));
            switch (s.index(17)) {
            case 0: VLOG("name " << show(n)); names[nn].set(n); run([&]() -> B& { return bb.name(names[nn].view()); }, [&] { name = n; }); ++nn; break;
            case 1: VLOG("store_name " << show(n)); run([&]() -> B& { std::string tmp = n; auto& r = bb.store_name(tmp); tmp.assign(tmp.size(), '!'); return r; }, [&] { name = n; });
                if (name != n) { names[nn].set(name); bb.name(names[nn].view()); ++nn; } // refused: the earlier stored name may be gone
                break;
            case 2: VLOG("user_data " << v); run([&]() -> B& { return bb.user_data(uintptr_t(v)); }, [&] { ud = uintptr_t(v); }); break;
            case 3: { bool f = s.flip(); VLOG("dependency " << f); run([&]() -> B& { return f ? bb.dependency() : bb.dependency(false); }, [&] { dep = f; }); break; }
            case 4: VLOG("uses_allocator by reference"); run([&]() -> B& { return bb.uses_allocator(ext_al); }, [&] { al = ext_al.to_c_hanlde(); kept_al = false; }); break;
            case 5: VLOG("uses_allocator by class"); run([&]() -> B& { return bb.template uses_allocator<Al>(); }, [&] { al = d.info.allocator; VCHECK(al && al != ext_al.to_c_hanlde(), "own allocator"); kept_al = true; }); break;
            case 6: case 7: { // with an own payload
                VLOG("implements with " << v);
                run([&]() -> B& { Pl p(v); return s.flip() ? bb.implements_with(*fi, Pl(v), p1, p2) : bb.implements_with(*fi, p, p1, p2); }, [&] { fs.push_back({fi, v, bid(), prio()}); });
                break;
            }
            case 8: { // by an outside payload
                VLOG("implements by " << v);
                outside.push_back(std::make_unique<Pl>(v)); ++base;
                Pl* p = outside.back().get();
                run([&]() -> B& { return bb.implements_by(*fi, *p, p1, p2); }, [&] { fs.push_back({fi, v, bid(), prio()}); VCHECK(d.info.features[fs.size() - 1].payload == p, "the payload is the one given"); });
                break;
            }
            case 9: { VLOG("implements with a shared payload " << v); auto a = std::make_shared<Pl>(v); run([&]() -> B& { return bb.implements_with_payload(*fi, a, p1, p2); }, [&] { fs.push_back({fi, v, bid(), prio()}); VCHECK(d.info.features[fs.size() - 1].payload == a.get(), "the payload is the one given"); }); break; }
            case 10: { // by traits
                int k = int(s.index(4));
                VLOG("implements by traits, way " << k);
                Pl p(v); const Pl cp(v);
                run([&]() -> B& { return k == 0 ? bb.template implements_by<TraitFeature>(p, p1, p2) : k == 1 ? bb.template implements_by<TraitFeature>(cp, p1, p2) : k == 2 ? bb.template implements_with<TraitFeature>(Pl(v), p1, p2) : bb.template implements<TraitFeature>(p1, p2); },
                    [&] { fs.push_back({&TraitFeature::info, k == 3 ? 4000 : v + 1000 * (k + 1), bid(), prio()}); });
                break;
            }
            case 11: { int k = int(s.index(2)); VLOG("adds rule ext" << k); run([&]() -> B& { return bb.adds_mutation_rule(ext[k]); }, [&] { rs.push_back({"ext" + std::to_string(k), false, &ext[k], ext[k].apply, ext[k].user_data, ext[k].order_priority}); dep = true; }); break; }
            case 12: VLOG("adds rule " << show(n)); run([&]() -> B& { return bb.adds_mutation_rule(compat::pmr::string(n.data(), n.size()), rule_a, uintptr_t(v), p1); }, [&] { rs.push_back({n, true, nullptr, rule_a, uintptr_t(v), p1.priority.value_or(0)}); dep = true; }); break;
            case 13: { VLOG("adds a rule with a generated name"); std::string gn = name + " rule " + std::to_string(rs.size()); run([&]() -> B& { return s.flip() ? bb.adds_mutation_rule(rule_b, uintptr_t(v), p1) : bb.adds_mutation_rule(rule_b, uintptr_t(v), p1); }, [&] { rs.push_back({gn, true, nullptr, rule_b, uintptr_t(v), p1.priority.value_or(0)}); dep = true; }); break; }
            case 14: { fault = -1; VLOG("on_mutation attaches_to"); std::string gn = name + " attaches_to<" + std::to_string(rs.size()) + ">"; run([&]() -> B& { return bb.on_mutation(util::builder_literals::attaches_to<S1>{}, p1, uintptr_t(v)); }, [&] { rs.push_back({gn, true, nullptr, nullptr, uintptr_t(v), p1.priority.value_or(0)}); dep = true; }); break; }
            case 15: { fault = -1; VLOG("on_mutation also_adds"); std::string gn = name + " also_adds<" + std::to_string(rs.size()) + ">"; run([&]() -> B& { return bb.on_mutation(util::builder_literals::also_adds<S2>{}, p1, uintptr_t(v)); }, [&] { rs.push_back({gn, true, nullptr, nullptr, uintptr_t(v), p1.priority.value_or(0)}); }); break; }
            default: run([&]() -> B& { return bb.noop(v); }, [] {}); break;
            }
            check_data(d, name, ud, dep, al, fs, rs, "after the call");
        }
        if (fs.size() > 1 || rs.size() > 1) s.interesting();
        if (kept_al) VCHECK(live > base, "own allocator is alive");
    }
    VEQ(live, base, "payloads and allocators alive after the data is gone");
    VCHECK(res.err.empty(), res.err);
    VEQ(res.out.size(), 0u, "blocks of the data left");
    // features
    {
        util::feature_info_data d(alc(res));
        std::string name = gen_name(s); names[38].set(name);
        util::feature_info_data_builder b = s.flip() ? util::feature_info_data_builder(d, names[38].view()) : util::feature_info_data_builder(d, names[38].sv());
        int pl = 0; const void* pp = nullptr;
        std::vector<std::unique_ptr<bytes>> keep;
        auto chk = [&] {
            VCHECK(d.info.name.to_std() == name, "name of a feature is " << show(d.info.name.to_std()) << ", expected " << show(name));
            VCHECK(d.info.id == invalid_feature_id && !d.info.allow_clashes, "a built feature");
            VEQ(d.info.default_payload != nullptr, pl != 0, "default payload");
            if (pl) VEQ(((Pl*)d.info.default_payload)->n, pl, "default payload");
            if (pp) VCHECK(d.info.default_payload == pp, "the default payload is the one given");
        };
        chk();
        VCHECK(&b.get_data() == &d, "data of a feature builder");
        while (s.more(3)) {
            util::feature_info_data_builder bb(nullptr, d);
            std::string n = gen_name(s); if (s.chance(1, 4)) n += std::string(s.draw(60), 'L');
            int v = int(s.range(1, 99));
            switch (s.index(5)) {
            case 0: keep.push_back(std::make_unique<bytes>()); keep.back()->set(n); bb.name(keep.back()->view()); name = n; break;
            case 1: { std::string t = n; bb.store_name(t); t.assign(t.size(), '!'); name = n; break; }
            case 2: bb.default_payload_with(Pl(v)); pl = v; pp = nullptr; break;
            case 3: outside.push_back(std::make_unique<Pl>(v)); ++base; bb.default_payload_by(*outside.back()); pl = v; pp = outside.back().get(); break;
            default: { auto a = std::make_shared<Pl>(v); bb.default_payload(a); pl = v; pp = a.get(); break; }
            }
            chk();
        }
    }
    VEQ(live, base, "default payloads alive after the feature data is gone");
    VEQ(res.out.size(), 0u, "blocks of the feature data left");
    // the values which own or refer
    {
        Pl p(1); ++base;
        auto a = fwd_any(p); auto a2 = fwd_any(&p);
        VCHECK(a.get() == &p && a2.get() == &p, "fwd_any refers to its argument");
        auto m = make_any<Pl>(alc(res), Pl(3)); auto m2 = make_any(alc(res), p); auto m3 = make_any<Al>(alc(res));
        VEQ(m->n, 3, "make_any"); VEQ(m2->n, 1, "make_any"); VCHECK(m2.get() != &p, "make_any copies");
        VEQ(res.out.size(), 3u, "make_any uses its allocator");
        --base;
    }
    VEQ(live, base, "values alive"); VEQ(res.out.size(), 0u, "blocks of values left");
    outside.clear();
}

// ---------------------------------------------------------------- registration
void registration(vp::Src& s) {
    live = 0;
    recres res;
    domain_settings set = domain_settings_builder();
    set.allow_duplicate_mixin_names = s.chance(1, 4);
    domain d("dom", set, 0, nullptr, alc(res)), d2("other");
    const int N = 3;
    std::unique_ptr<util::mixin_info_data> data[N];
    std::vector<MRule> dummy;
    static const char* nm[] = {"alpha", "beta", "gamma"};
    bool reg[N] = {};
    int in_other[N] = {};
    // what the mixins ask for: pairs (rule of, on)
    struct Dep { int of; bool attaches; int other; int prio; };
    std::vector<Dep> deps;
    mutation_rule_info shared = {dnmx_make_sv_lit("shared"), rule_a, 0, 0};
    int nshared[N] = {}, nown[N] = {};
    bool depflag[N] = {};
    auto build = [&](int i) {
        data[i] = std::make_unique<util::mixin_info_data>();
        cur[i] = &data[i]->info;
    };
    std::string names[N];
    for (int i = 0; i < N; ++i) build(i);
    auto each = [&](int i, auto* self) {
        using S = std::remove_pointer_t<decltype(self)>;
        names[i] = s.chance(1, 5) ? nm[s.index(3)] : nm[i];
        if (s.chance(1, 12)) names[i].clear();
        util::mixin_info_data_builder<S> b(*data[i], std::string_view(""));
        b.store_name(names[i]);
        for (int k = int(s.weighted({2, 3, 2, 1})); k--; ) {
            int o = int(s.index(N)); auto perks = util::builder_literals::order_priority(int(s.range(-2, 2)));
            switch (s.index(4)) {
            case 0: if (o != i) {
                using namespace util::builder_literals;
                if (o == 0) b.on_mutation(attaches_to<S0>{}, perks); else if (o == 1) b.on_mutation(attaches_to<S1>{}, perks); else b.on_mutation(attaches_to<S2>{}, perks);
                deps.push_back({i, true, o, *perks.priority}); ++nown[i]; depflag[i] = true;
                VLOG(nm[i] << " attaches to " << nm[o]);
            } break;
            case 1: if (o != i) {
                using namespace util::builder_literals;
                if (o == 0) b.on_mutation(also_adds<S0>{}, perks); else if (o == 1) b.on_mutation(also_adds<S1>{}, perks); else b.on_mutation(also_adds<S2>{}, perks);
                deps.push_back({i, false, o, *perks.priority}); ++nown[i];
                VLOG(nm[i] << " also adds " << nm[o]);
            } break;
            case 2: b.adds_mutation_rule(shared); ++nshared[i]; depflag[i] = true; VLOG(nm[i] << " adds the shared rule"); break;
            default: b.adds_mutation_rule(rule_a); ++nown[i]; depflag[i] = true; VLOG(nm[i] << " adds a rule"); break;
            }
        }
        if (s.chance(1, 3)) { b.dependency(false); depflag[i] = false; }
    };
    each(0, (S0*)0); each(1, (S1*)0); each(2, (S2*)0);
    auto want_rules = [&] { size_t n = 0; bool sh = false; for (int i = 0; i < N; ++i) if (reg[i]) { n += size_t(nown[i]); sh |= nshared[i] > 0; } return n + sh; };
    auto check = [&](const char* when) {
        VEQ(d.num_mutation_rules(), want_rules(), when << ": rules in the domain");
        VEQ(d2.num_mutation_rules(), 0u, when << ": rules in the other domain");
        uint32_t refs = 0, want = 0;
        domain_traverse tr(d);
        tr.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) { if (&r == &shared) refs = n; else VEQ(n, 1u, when << ": references of an own rule"); });
        for (int i = 0; i < N; ++i) if (reg[i]) want += uint32_t(nshared[i]);
        VEQ(refs, want, when << ": references of the shared rule");
        for (int i = 0; i < N; ++i) {
            VEQ(data[i]->info.id != invalid_mixin_id, reg[i] || in_other[i], when << ": " << nm[i] << " is registered");
            VCHECK(data[i]->info.dom == (reg[i] ? d.to_c_hanlde() : in_other[i] ? d2.to_c_hanlde() : nullptr), when << ": domain of " << nm[i]);
        }
    };
    while (s.more(8)) {
        vp::Src::Op op(s);
        int i = int(s.index(N));
        switch (s.weighted({5, 3, 1, 4})) {
        case 0: {
            int want = oc_ok;
            if (in_other[i] || reg[i]) want = oc_domain;
            else if (!set.allow_duplicate_mixin_names) {
                if (names[i].empty()) want = oc_domain;
                for (int k = 0; k < N; ++k) if (reg[k] && names[k] == names[i]) want = oc_domain;
            }
            bool clean = want == oc_ok || !reg[i];
            long fault = s.chance(1, 5) ? long(s.draw(8)) : -1;
            VLOG("register " << nm[i] << (want == oc_ok ? "" : ", to be refused") << " fault " << fault);
            res.count = 0; res.fail_at = fault;
            int oc = outcome([&] { data[i]->register_in(d); });
            res.fail_at = -1;
            (void)clean;
            if (fault >= 0 && oc == oc_alloc) { s.label("failed allocation"); s.interesting(); break; }
            VOC(oc, want, "register_in");
            if (want == oc_ok) reg[i] = true; else s.interesting();
            break;
        }
        case 1: if (reg[i]) { VLOG("unregister " << nm[i]); data[i]->unregister_from(d); reg[i] = false; s.interesting(); } break;
        case 2: if (!reg[i]) {
            VLOG((in_other[i] ? "unregister " : "register ") << nm[i] << " elsewhere");
            if (in_other[i]) { d2.unregister_mixin(data[i]->info); in_other[i] = 0; }
            else if (!names[i].empty()) { bool ok = true; for (int k = 0; k < N; ++k) if (in_other[k] && names[k] == names[i]) ok = false; if (ok) { d2.register_mixin(data[i]->info); in_other[i] = 1; } }
        } break;
        default: { // what the rules do
            bool ok = true; // a mixin asked for must be registered, or the type is refused
            std::vector<const mixin_info*> q; std::set<int> have;
            for (int k = 0; k < N; ++k) if (reg[k] && s.flip()) { q.push_back(&data[k]->info); if (!depflag[k]) have.insert(k); }
            // the closure: settles in at most as many rounds as there are rules
            bool more = true;
            while (more) { more = false; for (auto& e : deps) if (reg[e.of]) { int prim = e.attaches ? e.other : e.of, add = e.attaches ? e.of : e.other; if (have.count(prim) && !have.count(add)) { have.insert(add); more = true; } } }
            for (auto k : have) if (!reg[k]) ok = false;
            std::vector<std::string> got;
            int oc = outcome([&] { auto& t = d.get_type(q); for (auto m : t.mixins) got.push_back(m == &data[0]->info ? nm[0] : m == &data[1]->info ? nm[1] : nm[2]); });
            VLOG("get a type of " << q.size() << " mixins");
            if (!ok) { VCHECK(oc != oc_ok, "a type with an unregistered mixin is made"); break; }
            // with dependency chains the rules may be many enough to be taken for a cycle: not judged here (C11)
            if (oc == oc_type) { s.label("rules refused"); break; }
            VOC(oc, oc_ok, "a type");
            std::set<std::string> gs(got.begin(), got.end()), ws; for (auto k : have) ws.insert(nm[k]);
            VCHECK(gs == ws && got.size() == gs.size(), "the rules of the mixins give a type of " << got.size() << " mixins, expected " << ws.size());
            if (!deps.empty() && !q.empty()) s.interesting();
            break;
        }
        }
        check("after the operation");
    }
    for (int i = 0; i < N; ++i) { if (reg[i]) { data[i]->unregister_from(d); reg[i] = false; } if (in_other[i]) { d2.unregister_mixin(data[i]->info); in_other[i] = 0; } }
    check("at the end");
}

vp::Reg r1("C17", vp::Part{"classes", "a class out of 94 (generated combinations of trivial, throwing, non-throwing and deleted special members, sizes 1 to 70 and alignments 1 to 128, and typical ones), a way to build its info, values and whether user-provided operations throw: the functions offered are compared with the traits, and their effects (calls, values, exceptions, bytes around) with those of the C++ operations; non-trivial: a user-provided operation runs", cpp_classes, 300000, 12000000});
vp::Reg r2("C17", vp::Part{"common functions", "sizes 0 to 5000 and alignments to 4096: the layout of the buffer, and the common C functions touch exactly the bytes of the mixin; non-trivial: size above 0", void_class, 30000, 1000000});
vp::Reg r3("C17", vp::Part{"builders", "random histories of builder calls on mixin and feature data with failing allocations: after each call name, user data, dependency, allocator, features with payloads, bids and priorities, and rules are compared with a model; payloads and blocks are counted after the data is gone; non-trivial: two features or two rules", builders, 150000, 7000000});
vp::Reg r4("C17", vp::Part{"registration", "random histories of register_in and unregister_from of data with rules (attaches_to, also_adds, shared and own ones), refused or failing at an allocation: rules and references in the domain and the types requested are compared with a model; non-trivial: a registration is refused or undone, or rules act on a request", registration, 150000, 7000000});
}
