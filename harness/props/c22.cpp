// C22: the compatibility memory resources (built with DYNAMIX_FORCE_PMR_COMPAT).
#include "common.hpp"
#include <dynamix/alloc_util.hpp>
#include <dynamix/compat/pmr/memory_resource.hpp>
#include <dynamix/compat/pmr/allocator.hpp>
#include <dynamix/compat/pmr/vector.hpp>
#include <dynamix/compat/pmr/map.hpp>
#include <dynamix/compat/pmr/set.hpp>
#include <dynamix/compat/pmr/string.hpp>
#include <dynamix/compat/pmr/deque.hpp>
#include <limits>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace c22 {
using namespace pt;
namespace pmr = dynamix::compat::pmr;

// a size: small, around a power of two, around a multiple, anything
uint64_t gen_size(vp::Src& s, uint64_t max) {
    uint64_t v = 0;
    switch (s.index(4)) {
    case 0: v = s.draw(300); break;
    case 1: { int b = int(s.draw(64)); v = (uint64_t(1) << b) + s.draw(5) - 2; break; }
    case 2: v = max - s.draw(300); break;
    default: v = s.raw() >> s.draw(64); break;
    }
    return max == UINT64_MAX ? v : v % (max + 1);
}

void rounding(vp::Src& s) {
    for (int k = 0; k < 20; ++k) {
        byte_size_t n = byte_size_t(1) << s.draw(32);
        byte_size_t v = byte_size_t(gen_size(s, UINT32_MAX));
        __uint128_t want = v;
        while (want % n) want += n - want % n;
        if (want > std::numeric_limits<byte_size_t>::max()) continue;
        if (v) s.interesting();
        VLOG("next_multiple(" << v << ", " << n << ")");
        VEQ(uint64_t(util::next_multiple(v, n)), uint64_t(want), "next_multiple(" << v << ", " << n << ")");
        // other steps are not alignments, but are rounded too
        byte_size_t m = byte_size_t(s.range(1, 1000)), u = v / 2;
        VEQ(uint64_t(util::next_multiple(u, m)), (uint64_t(u) + m - 1) / m * m, "next_multiple(" << u << ", " << m << ")");
    }
}

struct Blk { unsigned char* p; size_t n, a; unsigned char fill; };
void check_blk(const Blk& b, const char* when) {
    for (size_t i = 0; i < b.n; i = i < 64 || i + 65 > b.n ? i + 1 : b.n - 64) VCHECK(b.p[i] == b.fill, "byte " << i << " of a block of " << b.n << " changed " << when);
}
void resource(vp::Src& s) {
    auto* r = pmr::get_default_resource();
    VCHECK(r && r == pmr::get_default_resource(), "the default resource is one");
    pmr::allocator<> a;
    std::vector<Blk> blks;
    struct Free { std::vector<Blk>& b; pmr::memory_resource* r; ~Free() { for (auto& x : b) r->deallocate(x.p, x.n, x.a); } } fr{blks, r};
    while (s.more(12)) {
        vp::Src::Op op(s);
        if (!blks.empty() && s.chance(1, 3)) {
            size_t i = s.index(blks.size());
            VLOG("give back a block of " << blks[i].n << " aligned to " << blks[i].a);
            check_blk(blks[i], "before it is given back");
            if (s.flip()) r->deallocate(blks[i].p, blks[i].n, blks[i].a); else a.deallocate_bytes(blks[i].p, blks[i].n, blks[i].a);
            blks.erase(blks.begin() + long(i));
            continue;
        }
        if (s.chance(1, 30)) { // what was given back can be used again
            size_t n = 256 + s.draw(20000), al = size_t(1) << s.draw(13), k = 40;
            VLOG("take a block of " << n << " aligned to " << al << " and give it back, " << k << " times");
            s.label("repeated");
            const size_t one = std::max(n, al) + 64, before = __sanitizer_get_current_allocated_bytes();
            for (size_t i = 0; i < k; ++i) { auto p = r->allocate(n, al); r->deallocate(p, n, al); }
            const size_t after = __sanitizer_get_current_allocated_bytes();
            VCHECK(after < before + one * (k / 2), "of " << k << " blocks of " << n << " which were given back " << (after - before) << " bytes stay in use");
            continue;
        }
        size_t al = size_t(1) << s.draw(13);
        size_t n = s.chance(1, 40) ? size_t(gen_size(s, UINT64_MAX)) : s.draw(s.oneof<uint64_t>({20, 200, 5000, 70000}));
        if (s.chance(1, 2000)) n = (size_t(1) << 32) + s.draw(5000); // large blocks are possible
        // not: sizes the sandbox could satisfy only by using its memory
        if (n > 100000 && n < (size_t(1) << 60) && (n >> 32) != 1) n %= 100000;
        VLOG("take a block of " << n << " aligned to " << al);
        bool huge = n >= (size_t(1) << 60);
        Blk b = {nullptr, n, al, (unsigned char)s.draw(256)};
        int oc = outcome([&] { b.p = (unsigned char*)(s.flip() ? r->allocate(n, al) : a.allocate_bytes(n, al)); });
        if (huge) { s.label("impossible size"); VOC(oc, oc_alloc, "a block of " << n); continue; }
        if (n >> 32 && oc == oc_alloc) continue;
        VOC(oc, oc_ok, "a block of " << n);
        VCHECK(b.p, "a null block");
        VEQ(uintptr_t(b.p) % al, 0u, "alignment of a block");
        if (n >> 32) { // touch the ends only
            s.label("block above 4 GiB");
            memset(b.p, b.fill, 100); memset(b.p + n - 100, b.fill, 100);
            r->deallocate(b.p, n, al);
            continue;
        }
        for (auto& o : blks) VCHECK(b.p + b.n <= o.p || o.p + o.n <= b.p, "a block of " << n << " overlaps a live one of " << o.n);
        if (n) memset(b.p, b.fill, n);
        blks.push_back(b);
        if (blks.size() > 1) s.interesting();
        for (auto& o : blks) check_blk(o, "while others were taken and given back");
    }
}

template <typename A, typename B> void eq(const A& a, const B& b, bool want) {
    VEQ(a == b, want, "equality of allocators"); VEQ(a != b, !want, "inequality of allocators");
    VEQ(b == a, want, "equality of allocators"); VEQ(b != a, !want, "inequality of allocators");
}
void allocators(vp::Src& s) {
    recres m[2];
    pmr::memory_resource* rs[] = {pmr::get_default_resource(), &m[0], &m[1]};
    int i = int(s.index(3)), j = int(s.index(3));
    VLOG("allocators of resources " << i << " and " << j);
    for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) { VEQ(rs[x]->is_equal(*rs[y]), x == y, "is_equal of resources"); }
    {
        pmr::allocator<> a(rs[i]), b(rs[j]), d;
        pmr::allocator<int> ai(a), bi(b);
        pmr::allocator<double> bd(bi);
        pmr::allocator<> back(bd), cp(a);
        VCHECK(a.resource() == rs[i] && ai.resource() == rs[i] && bd.resource() == rs[j] && back.resource() == rs[j] && cp.resource() == rs[i], "resource of an allocator");
        VCHECK(d.resource() == rs[0], "resource of a default allocator");
        eq(a, b, i == j); eq(ai, bi, i == j); eq(ai, b, i == j); eq(a, bd, i == j); eq(ai, bd, i == j); eq(a, d, i == 0); eq(a, cp, true); eq(b, back, true);
        VCHECK(std::allocator_traits<pmr::allocator<int>>::select_on_container_copy_construction(ai).resource() == rs[0], "the allocator for a copy of a container is the default one");
        // typed blocks
        size_t n = s.draw(50);
        auto* p = bd.allocate(n);
        if (j) { auto& o = m[j - 1].out; VEQ(o.size(), 1u, "blocks of the resource"); VEQ(o.begin()->second.size, n * sizeof(double), "size of a typed block"); VEQ(o.begin()->second.align, alignof(double), "alignment of a typed block"); }
        for (size_t k = 0; k < n; ++k) p[k] = double(k);
        bd.deallocate(p, n);
        size_t bn = s.draw(100), ba = size_t(1) << s.draw(7);
        void* q = a.allocate_bytes(bn, ba);
        if (i) { auto& o = m[i - 1].out; VEQ(o.size(), 1u, "blocks of the resource"); VEQ(o.begin()->second.size, bn, "size of a block"); VEQ(o.begin()->second.align, ba, "alignment of a block"); }
        a.deallocate_bytes(q, bn, ba);
        void* q2 = a.allocate_bytes(bn);
        if (i) VEQ(m[i - 1].out.begin()->second.align, alignof(std::max_align_t), "default alignment of a block");
        a.deallocate_bytes(q2, bn);
        // containers against the standard ones
        pmr::vector<int> v(ai), v2(bi); std::vector<int> mv, mv2;
        pmr::map<int, int> mp(a); std::map<int, int> mm;
        pmr::set<int> st(b); std::set<int> ms;
        pmr::deque<int> dq(ai); pmr::string str(b); std::string mstr;
        while (s.more(15)) {
            vp::Src::Op op(s);
            int x = int(s.draw(20));
            switch (s.index(8)) {
            case 0: v.push_back(x); mv.push_back(x); dq.push_back(x); break;
            case 1: mp[x] = int(mv.size()); mm[x] = int(mv.size()); break;
            case 2: st.insert(x); ms.insert(x); break;
            case 3: str += char('a' + x); mstr += char('a' + x); break;
            case 4: v2 = v; mv2 = mv; s.interesting(); break;
            case 5: v2 = std::move(v); mv2 = std::move(mv); v.clear(); mv.clear(); dq.clear(); s.interesting(); break;
            case 6: { pmr::vector<int> c(v); VCHECK(c.get_allocator().resource() == rs[0], "the copy of a container uses the default resource"); VCHECK(std::equal(c.begin(), c.end(), mv.begin(), mv.end()), "copy of a vector"); break; }
            default: mp.erase(x); mm.erase(x); st.erase(x); ms.erase(x); break;
            }
            VCHECK(v.get_allocator().resource() == rs[i] && v2.get_allocator().resource() == rs[j], "a container keeps its resource");
            VCHECK(std::equal(v.begin(), v.end(), mv.begin(), mv.end()) && std::equal(v2.begin(), v2.end(), mv2.begin(), mv2.end()), "content of vectors");
            VCHECK(std::equal(dq.begin(), dq.end(), mv.begin(), mv.end()), "content of a deque");
            VCHECK(std::equal(mp.begin(), mp.end(), mm.begin(), mm.end()), "content of a map");
            VCHECK(std::equal(st.begin(), st.end(), ms.begin(), ms.end()), "content of a set");
            VCHECK(std::string_view(str.data(), str.size()) == mstr, "content of a string");
        }
    }
    for (auto& r : m) { VCHECK(r.err.empty(), r.err); VEQ(r.out.size(), 0u, "blocks left"); }
}

vp::Reg r1("C22", vp::Part{"rounding", "sizes (small, near powers of two, near the maximum, any) are rounded to powers of two and to other steps and compared with 128-bit arithmetic; non-trivial: a size above 0 whose rounded value fits", rounding, 500000, 20000000});
vp::Reg r2("C22", vp::Part{"default resource", "random histories of taking and giving back blocks of sizes 0 to above 4 GiB, and impossible ones, aligned to 1 to 4096: blocks are aligned, disjoint, writable and keep their bytes; non-trivial: two blocks are out at once", resource, 300000, 15000000});
vp::Reg r3("C22", vp::Part{"allocators", "allocators of three resources are compared, converted and used by containers, which are compared with the standard ones; non-trivial: a container is assigned", allocators, 300000, 15000000});
}
