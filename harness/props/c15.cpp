// C15: mutations by typed operations (constructor arguments, functions, static types) against a model of the list and
// of which constructor runs for which mixin, in which order, with which arguments.
#include "common.hpp"
#include <dynamix/common_mixin_init.hpp>
#include <dynamix/mixin_info_util.hpp>
#include <dynamix/mutate_to.hpp>
#include <utility>

namespace c15 {
using namespace pt;
constexpr int NK = 6;
common_mixin_info* cur[NK];
constexpr int NODEF = 4; // this one has no default constructor

struct Boom { int x; };

// what the constructors saw
struct Live { int k; std::string how; };
std::map<const void*, Live> live;
std::vector<std::string> news; // constructions of new mixins, in order
long boom_in = -1;             // the construction which throws
std::string err;               // wrong lifetimes
int arg_copies = 0;

struct Arg {
    int v; bool moved = false;
    explicit Arg(int v) : v(v) {}
    Arg(const Arg& o) : v(o.v), moved(o.moved) { ++arg_copies; }
    Arg(Arg&& o) noexcept : v(o.v), moved(o.moved) { o.moved = true; }
    Arg& operator=(const Arg&) = delete;
};
struct FromFunc { int tag; };
inline std::string addr(const void* p) { char b[32]; snprintf(b, sizeof b, "@%p", p); return b; }

template <int I> struct KB {
    unsigned char pad[I * 20 + 1];
    struct dflt {};
    explicit KB(dflt) { born("default"); }
    explicit KB(int a) { born("int " + std::to_string(a)); }
    explicit KB(const Arg& a) { born("const Arg& " + std::to_string(a.v) + (a.moved ? " (moved)" : "") + addr(&a)); }
    explicit KB(Arg&& a) { born("Arg&& " + std::to_string(a.v) + (a.moved ? " (moved)" : "")); Arg b(std::move(a)); }
    KB(Arg& a, int b) { born("Arg&, int " + std::to_string(a.v) + addr(&a) + " " + std::to_string(b)); a.v += b; }
    KB(std::unique_ptr<int> p, std::string t) { born("unique_ptr, string " + (p ? std::to_string(*p) : std::string("null")) + " " + t); }
    explicit KB(const char* c) { born(std::string("const char* ") + c); }
    KB(Arg&& a, Arg& b, const Arg& c, int d) { born("mix " + std::to_string(a.v) + (a.moved ? " (moved)" : "") + " " + std::to_string(b.v) + addr(&b) + " " + std::to_string(c.v) + addr(&c) + " " + std::to_string(d)); Arg x(std::move(a)); b.v += 1000; }
    explicit KB(FromFunc f) { born("function " + std::to_string(f.tag)); }
    KB(KB&& o) noexcept {
        memset(pad, I, sizeof pad);
        auto f = live.find(&o);
        if (f == live.end() || f->second.k != I) { err = "something which is not alive, or is another mixin, is moved"; return; }
        if (!live.emplace(this, f->second).second) err = "a mixin is moved to where one is alive";
    }
    KB(const KB&) = delete;
    KB& operator=(const KB&) = delete;
    ~KB() {
        auto f = live.find(this);
        if (f == live.end()) { err = "something which is not alive is destroyed"; return; }
        if (f->second.k != I) err = "a mixin is destroyed as another";
        for (auto c : pad) if (c != I) err = "the bytes of a mixin changed";
        live.erase(f);
    }
    void born(const std::string& how) {
        if (boom_in >= 0 && boom_in-- == 0) throw Boom{I};
        memset(pad, I, sizeof pad);
        if (!live.emplace(this, Live{I, how}).second) err = "a mixin is constructed where one is alive";
        news.push_back("K" + std::to_string(I) + " " + how);
    }
};
template <int I, bool> struct KD : KB<I> { using KB<I>::KB; KD() : KB<I>(typename KB<I>::dflt{}) {} };
template <int I> struct KD<I, false> : KB<I> { using KB<I>::KB; };
template <int I> struct alignas(I % 3 == 2 ? 64 : 8) K : KD<I, I != NODEF> { using KD<I, I != NODEF>::KD; };
static_assert(!std::is_default_constructible_v<K<NODEF>> && std::is_default_constructible_v<K<0>> && std::is_nothrow_move_constructible_v<K<1>>);
template <int I> const mixin_info& _dynamix_get_mixin_info(const K<I>*) { return *cur[I]; }

template <typename F> decltype(auto) with_k(int i, F&& f) {
    switch (i) {
    case 0: return f(std::integral_constant<int, 0>());
    case 1: return f(std::integral_constant<int, 1>());
    case 2: return f(std::integral_constant<int, 2>());
    case 3: return f(std::integral_constant<int, 3>());
    case 4: return f(std::integral_constant<int, 4>());
    default: return f(std::integral_constant<int, 5>());
    }
}

// any operation, kept as what the library's functions return
struct AnyOp {
    virtual ~AnyOp() = default;
    virtual void apply(type_mutation&) = 0;
    virtual object_mutate_op* to(object&) = 0;
};
template <typename Op, typename = void> struct has_apply : std::false_type {};
template <typename Op> struct has_apply<Op, std::void_t<decltype(std::declval<Op&>().apply_to_type_mutation(std::declval<type_mutation&>()))>> : std::true_type {};
template <typename Op> struct Box final : AnyOp {
    Op op;
    template <typename F> explicit Box(F&& make) : op(make()) {}
    void apply(type_mutation& m) override { if constexpr (has_apply<Op>::value) op.apply_to_type_mutation(m); else abort(); }
    object_mutate_op* to(object& o) override { return op.to_obj_mutate(o); }
};
template <typename F> std::unique_ptr<AnyOp> box(F&& f) { return std::make_unique<Box<std::decay_t<decltype(f())>>>(f); }
struct OpRef {
    AnyOp* p;
    void apply_to_type_mutation(type_mutation& m) { p->apply(m); }
    object_mutate_op* to_obj_mutate(object& o) { return p->to(o); }
};

// a function for a new mixin
struct World;
struct Func {
    World* w; const int* kp; int tag; int* calls; std::string* bad;
    void operator()(init_new_args a);
};
template <int I> struct Custom : common_mixin_init<K<I>> {
    bool over; Func f;
    Custom(bool over, Func f) : over(over), f(f) {}
    bool overrides_init() const noexcept override { return over; }
    void do_init(init_new_args a) override { f(a); }
};

enum Kind { add_type, add_info, add_name, rem_type, rem_info, rem_name, back_type, back_info, back_name, add_args, add_func_info, add_func_name, custom, con_args, con_func_info, con_func_name };
const char* kind_names[] = {"add", "add (info)", "add (name)", "remove", "remove (info)", "remove (name)", "to_back", "to_back (info)", "to_back (name)", "add with args", "add with function (info)", "add with function (name)", "custom", "construct with args", "construct with function (info)", "construct with function (name)"};
enum Form { f_int, f_int_lvalue, f_cref, f_rvalue, f_ref_int, f_uptr, f_literal, f_mix, f_count, f_none = f_count };
const char* form_names[] = {"(int)", "(int lvalue)", "(const Arg&)", "(Arg&&)", "(Arg&, int)", "(unique_ptr, string)", "(\"literal\")", "(Arg&&, Arg&, const Arg&, int)", "()"};

struct OpD {
    Kind kind; int k; // -1: an unknown name
    Form form = f_none; int a = 0, b = 0; bool lvalue = false, over = true;
    int tag = 0;
    std::unique_ptr<AnyOp> op;
    std::unique_ptr<Arg> x, y; int xv = 0;
    std::unique_ptr<Func> fn;
    int calls = 0; std::string bad;
    std::string name;
    bool overrides() const { return kind == add_args || kind == add_func_info || kind == add_func_name || kind >= con_args || (kind == custom && over); }
    bool by_name() const { return kind == add_name || kind == rem_name || kind == back_name || kind == add_func_name || kind == con_func_name; }
    bool reusable() const { return kind != add_args && kind != con_args; }
    // what the constructor is to see when run now
    std::string expect() const {
        if (kind != add_args && kind != con_args) return "function " + std::to_string(tag);
        switch (form) {
        case f_int: return "int " + std::to_string(a);
        case f_int_lvalue: return "int " + std::to_string(xv);
        case f_cref: return "const Arg& " + std::to_string(x->v) + addr(x.get());
        case f_rvalue: return "Arg&& " + std::to_string(a);
        case f_ref_int: return "Arg&, int " + std::to_string(x->v) + addr(x.get()) + " " + std::to_string(b);
        case f_uptr: return "unique_ptr, string " + std::to_string(a) + " " + std::string(size_t(b), 't');
        case f_literal: return "const char* lit";
        case f_mix: return "mix " + std::to_string(a) + " " + std::to_string(x->v) + addr(x.get()) + " " + std::to_string(y->v) + addr(y.get()) + " " + std::to_string(b);
        default: return "default";
        }
    }
};

struct World {
    recres dres, ores;
    std::vector<std::unique_ptr<common_mixin_info>> infos;
    std::vector<std::string> names;
    std::unique_ptr<domain> dom;
    mutation_rule_info rule;
    int rule_kind = 0, ra = 0, rb = 0;
    bool canon = false;
    const type* target = nullptr; // the type being mutated to
    object* subject = nullptr;

    // the list after the rules
    std::vector<int> ruled(std::vector<int> l) const {
        auto has = [&](int i) { return std::find(l.begin(), l.end(), i) != l.end(); };
        if (l.empty()) return l;
        if (rule_kind == 1) {
            std::vector<int> r;
            for (size_t i = 0; i < l.size(); ++i) if (std::find(l.begin() + long(i) + 1, l.end(), l[i]) == l.end()) r.push_back(l[i]);
            l = r;
        }
        if (rule_kind == 2 && has(ra) && !has(rb)) l.push_back(rb);
        if (rule_kind == 3 && has(ra)) l.erase(std::remove(l.begin(), l.end(), rb), l.end());
        if (canon) std::stable_sort(l.begin(), l.end(), [&](int x, int y) {
            if (infos[x]->order_priority != infos[y]->order_priority) return infos[x]->order_priority < infos[y]->order_priority;
            return names[x] < names[y];
        });
        return l;
    }
    static error_return_t apply(dnmx_type_mutation_handle h, uintptr_t d) {
        auto& w = *reinterpret_cast<World*>(d);
        auto m = type_mutation::from_c_handle(h);
        auto A = w.infos[w.ra].get(), B = w.infos[w.rb].get();
        if (w.rule_kind == 1) m->dedup();
        if (w.rule_kind == 2 && m->has(*A)) m->add_if_lacking(*B);
        if (w.rule_kind == 3 && m->has(*A)) while (m->remove(*B)) {}
        return result_success;
    }
};
void Func::operator()(init_new_args a) {
    const int k = *kp;
    ++*calls;
    if (&a.info != cur[k]) *bad = "the function is called with another mixin's info";
    else if (w->target && &a.target_type != w->target) *bad = "the function is called with another target type";
    else if (a.target_index >= a.target_type.num_mixins() || a.target_type.mixins[a.target_index] != cur[k]) *bad = "the function is called with another mixin's index";
    else if (uintptr_t(a.mixin_buf) % cur[k]->alignment) *bad = "the function is called with an unaligned buffer";
    else if (w->subject && object_of(a.mixin_buf) != w->subject) *bad = "the object of the buffer is another one";
    with_k(k, [&](auto i) { new (a.mixin_buf) K<decltype(i)::value>(FromFunc{tag}); });
}

// an object and what it is to hold
struct Obj {
    std::unique_ptr<object> o;
    std::vector<int> l;
    std::map<int, std::string> how;
};

// f() makes the op, with arguments of the given form
template <int I, bool Construct> std::unique_ptr<AnyOp> with_args(OpD& d) {
    auto mk = [&](auto&&... a) {
        // the arguments die before the op is used, unless they are lvalues of the op
        return box([&] {
            if constexpr (Construct) return construct<K<I>>(std::forward<decltype(a)>(a)...);
            else return add<K<I>>(std::forward<decltype(a)>(a)...);
        });
    };
    switch (d.form) {
    case f_int: return mk(int(d.a));
    case f_int_lvalue: return mk(d.xv);
    case f_cref: return mk(std::as_const(*d.x));
    case f_rvalue: return mk(Arg(d.a));
    case f_ref_int: return mk(*d.x, int(d.b));
    case f_uptr: return mk(std::make_unique<int>(d.a), std::string(size_t(d.b), 't'));
    case f_literal: return mk("lit");
    case f_mix: return mk(Arg(d.a), *d.x, std::as_const(*d.y), int(d.b));
    default:
        if constexpr (Construct && I != NODEF) return mk();
        else abort();
    }
}

struct Case {
    vp::Src& s; World& w;
    std::vector<Obj> objs;
    std::vector<std::unique_ptr<OpD>> ops;
    int tags = 0;
    bool overrides_ran = false, several = false;

    Case(vp::Src& s, World& w) : s(s), w(w) {}
    std::string lst(const std::vector<int>& l) const { std::string r = "["; for (int i : l) r += (r.size() > 1 ? " K" : "K") + std::to_string(i); return r + "]"; }

    OpD& gen_op(bool to, std::vector<int>& model) {
        ops.push_back(std::make_unique<OpD>());
        auto& d = *ops.back();
        d.kind = to ? s.oneof({con_args, con_func_info, con_func_name, custom})
            : Kind(s.weighted({3, 1, 2, 2, 1, 1, 2, 1, 1, 6, 3, 3, 3}));
        // mostly what makes sense: additions of what is lacking, edits of what is there
        std::vector<int> has, lacks;
        for (int i = 0; i < NK; ++i) (std::find(model.begin(), model.end(), i) != model.end() ? has : lacks).push_back(i);
        bool edits = d.kind >= rem_type && d.kind <= back_name;
        auto& good = to ? has : edits ? has : lacks;
        d.k = !good.empty() && !s.chance(1, 12) ? s.pick(good) : int(s.index(NK));
        if (d.by_name() && s.chance(1, to ? 8 : 25)) d.k = -1;
        d.name = d.k >= 0 ? w.names[d.k] : s.flip() ? "no such name" : w.names[0].substr(0, w.names[0].size() - 1) + '?';
        d.a = int(s.index(50)); d.b = int(s.index(40)); d.xv = int(s.index(90));
        d.x = std::make_unique<Arg>(100 + int(s.index(50))); d.y = std::make_unique<Arg>(200 + int(s.index(50)));
        d.tag = ++tags;
        if (d.kind == add_args || d.kind == con_args) {
            d.form = Form(s.index(d.kind == con_args && d.k != NODEF ? f_count + 1 : f_count));
        }
        d.lvalue = s.flip();
        d.over = !s.chance(1, 4);
        d.fn = std::make_unique<Func>(Func{&w, &d.k, d.tag, &d.calls, &d.bad});
        const mixin_info* info = d.k >= 0 ? cur[d.k] : nullptr;
        auto name = [&] { return std::string_view(d.name); };
        switch (d.kind) {
        case add_type: d.op = with_k(d.k, [&](auto i) { return box([&] { return add<K<decltype(i)::value>>(); }); }); break;
        case add_info: d.op = box([&] { return add(*info); }); break;
        case add_name: d.op = box([&] { return add(name()); }); break;
        case rem_type: d.op = with_k(d.k, [&](auto i) { return box([&] { return remove<K<decltype(i)::value>>(); }); }); break;
        case rem_info: d.op = box([&] { return dynamix::remove(*info); }); break;
        case rem_name: d.op = box([&] { return dynamix::remove(name()); }); break;
        case back_type: d.op = with_k(d.k, [&](auto i) { return box([&] { return to_back<K<decltype(i)::value>>(); }); }); break;
        case back_info: d.op = box([&] { return to_back(*info); }); break;
        case back_name: d.op = box([&] { return to_back(name()); }); break;
        case add_args: d.op = with_k(d.k, [&](auto i) { return with_args<decltype(i)::value, false>(d); }); break;
        case con_args: d.op = with_k(d.k, [&](auto i) { return with_args<decltype(i)::value, true>(d); }); break;
        case add_func_info: d.op = d.lvalue ? box([&] { return add(*info, *d.fn); }) : box([&] { return add(*info, Func(*d.fn)); }); break;
        case add_func_name: d.op = d.lvalue ? box([&] { return add(name(), *d.fn); }) : box([&] { return add(name(), Func(*d.fn)); }); break;
        case con_func_info: d.op = d.lvalue ? box([&] { return construct(*info, *d.fn); }) : box([&] { return construct(*info, Func(*d.fn)); }); break;
        case con_func_name: d.op = d.lvalue ? box([&] { return construct(name(), *d.fn); }) : box([&] { return construct(name(), Func(*d.fn)); }); break;
        case custom: d.op = with_k(d.k, [&](auto i) { return box([&] { return Custom<decltype(i)::value>(d.over, *d.fn); }); }); break;
        }
        bool ok = true;
        edit(d, model, ok);
        return d;
    }
    std::string show(const OpD& d) const {
        return std::string(kind_names[d.kind]) + " " + (d.k >= 0 ? "K" + std::to_string(d.k) : "'" + d.name + "'") + (d.kind == add_args || d.kind == con_args ? form_names[d.form] : d.kind == custom && !d.over ? " without init" : "");
    }

    // what an op does to the list
    void edit(const OpD& d, std::vector<int>& l, bool& ok) const {
        auto f = std::find(l.begin(), l.end(), d.k);
        switch (d.kind) {
        case add_type: case add_info: case add_name: case add_args: case add_func_info: case add_func_name: case custom:
            if (d.k < 0) ok = false; else l.push_back(d.k);
            break;
        case rem_type: case rem_info: case rem_name: if (f != l.end()) l.erase(f); break;
        case back_type: case back_info: case back_name:
            if (f == l.end()) ok = false; else { l.erase(f); l.push_back(d.k); }
            break;
        default: break;
        }
    }
    static bool unique(const std::vector<int>& l) { return std::set<int>(l.begin(), l.end()).size() == l.size(); }
    static bool in(const std::vector<int>& l, int k) { return std::find(l.begin(), l.end(), k) != l.end(); }

    std::map<int, const void*> where(const Obj& ob) const {
        std::map<int, const void*> r;
        for (int k : ob.l) r[k] = ob.o->get(*cur[k]);
        return r;
    }
    void check(const char* when) {
        VCHECK(err.empty(), when << ": " << err);
        VEQ(arg_copies, 0, when << ": copies of arguments");
        VCHECK(w.ores.err.empty(), when << ": " << w.ores.err);
        VCHECK(w.dres.err.empty(), when << ": " << w.dres.err);
        size_t n = 0;
        for (auto& ob : objs) {
            VEQ(size_t(ob.o->num_mixins()), ob.l.size(), when << ": number of mixins of an object of " << lst(ob.l));
            for (size_t i = 0; i < ob.l.size(); ++i) {
                int k = ob.l[i];
                VCHECK(ob.o->get_type().mixins[i] == cur[k], when << ": mixin " << i << " of " << lst(ob.l));
                const void* p = with_k(k, [&](auto c) -> const void* { return ob.o->template get<K<decltype(c)::value>>(); });
                VCHECK(p && p == ob.o->get_at(mixin_index_t(i)), when << ": getting K" << k << " by type");
                auto f = live.find(p);
                VCHECK(f != live.end() && f->second.k == k, when << ": K" << k << " is not alive");
                VEQ(f->second.how, ob.how[k], when << ": construction of K" << k);
                VCHECK(object_of(p) == ob.o.get(), when << ": object of K" << k);
                ++n;
            }
            for (int k = 0; k < NK; ++k) if (!in(ob.l, k)) VCHECK(with_k(k, [&](auto c) { return !ob.o->template get<K<decltype(c)::value>>() && !ob.o->template has<K<decltype(c)::value>>(); }), when << ": K" << k << " in " << lst(ob.l));
        }
        VEQ(live.size(), n, when << ": living mixins");
    }

    // the outcome of mutating ob to target, where list_ok says that the list is a type's; the constructions expected, in order
    struct Exp { int oc = oc_ok; std::vector<std::string> news; std::map<int, std::string> how; std::map<OpD*, int> calls; bool boom = false; };
    Exp expect(const Obj& ob, const std::vector<int>& target, const std::vector<OpD*>& v, long boom) {
        Exp e;
        if (target == ob.l) { e.how = ob.how; return e; }
        std::map<Arg*, int> saved; // what the constructors do to their arguments
        for (auto d : v) { saved[d->x.get()] = d->x->v; }
        for (int k : target) {
            if (in(ob.l, k)) { e.how[k] = ob.how.at(k); continue; }
            OpD* o = nullptr;
            for (auto d : v) if (d->k == k && d->overrides()) { o = d; break; }
            if (!o && k == NODEF) { e.oc = oc_object; break; }
            std::string h = o ? o->expect() : "default";
            if (o && o->kind != add_args && o->kind != con_args) e.calls[o] = 1;
            if (boom-- == 0) { e.oc = oc_other; e.boom = true; break; }
            if (o && o->form == f_ref_int) o->x->v += o->b;
            if (o && o->form == f_mix) o->x->v += 1000;
            if (o) { overrides_ran = true; if (e.news.size()) several = true; }
            e.how[k] = h;
            e.news.push_back("K" + std::to_string(k) + " " + h);
        }
        for (auto& a : saved) std::swap(a.first->v, a.second); // back to what they were; `after` has what they will be
        after = saved;
        return e;
    }
    std::map<Arg*, int> after;

    template <typename F> void perform(const char* what, Obj& ob, bool ok, const std::vector<int>& target, const std::vector<OpD*>& v, F&& call) {
        long boom = s.chance(1, 8) ? long(s.index(4)) : -1;
        bool is_ok = ok && unique(target);
        after.clear();
        Exp e;
        if (!is_ok) e.oc = oc_type;
        else e = expect(ob, target, v, boom);
        auto before = where(ob);
        auto bl = live.size();
        for (auto d : v) d->calls = 0, d->bad.clear();
        news.clear(); boom_in = boom;
        w.subject = ob.o.get();
        bool threw_boom = false;
        std::string text;
        int oc = outcome([&] { try { call(); } catch (Boom&) { threw_boom = true; throw; } }, &text);
        boom_in = -1; w.subject = nullptr;
        VLOG(what << ": " << lst(ob.l) << " -> " << (is_ok ? lst(target) : "refused") << (boom >= 0 ? ", construction " + std::to_string(boom) + " throws" : "") << ": " << oc_name(oc));
        VOC(oc, e.oc, what << " of " << lst(ob.l) << " to " << lst(target) << (text.empty() ? "" : " (" + text + ")"));
        VEQ(threw_boom, e.boom, what << ": the exception of the constructor");
        VCHECK(news == e.news, what << " of " << lst(ob.l) << " to " << lst(target) << ": constructions " << join(news) << ", expected " << join(e.news));
        for (auto d : v) {
            VCHECK(d->bad.empty(), what << ": " << show(*d) << ": " << d->bad);
            VEQ(d->calls, (e.calls.count(d) ? 1 : 0), what << ": calls of the function of " << show(*d));
        }
        for (auto& a : after) VEQ(a.first->v, a.second, what << ": an argument taken by reference");
        if (e.oc == oc_ok) {
            bool same = ob.l == target;
            ob.l = target; ob.how = e.how;
            if (same) VCHECK(where(ob) == before, what << ": mixins moved by a mutation to the same type");
        }
        else {
            s.label("mutation refused or failed");
            VCHECK(where(ob) == before, what << ": mixins moved by a failed mutation");
            VEQ(live.size(), bl, what << ": living mixins after a failed mutation");
        }
        check(what);
        for (auto d : v) for (auto a : {d->x.get(), d->y.get()}) if (a) VCHECK(!a->moved, what << ": an lvalue argument is moved from");
    }
    static std::string join(const std::vector<std::string>& v) { std::string r = "{"; for (auto& x : v) r += (r.size() > 1 ? "; " : "") + x; return r + "}"; }

    template <typename F> static void spread(const std::vector<OpD*>& v, F&& f) {
        auto r = [&](size_t i) { return OpRef{v[i]->op.get()}; };
        switch (v.size()) {
        case 0: f(); break;
        case 1: f(r(0)); break;
        case 2: f(r(0), r(1)); break;
        case 3: f(r(0), r(1), r(2)); break;
        case 4: f(r(0), r(1), r(2), r(3)); break;
        case 5: f(r(0), r(1), r(2), r(3), r(4)); break;
        default: f(r(0), r(1), r(2), r(3), r(4), r(5)); break;
        }
    }
    const type* want_type(const std::vector<int>& l) { // a request which the rules change, or not
        std::vector<const mixin_info*> q;
        for (int k : l) q.push_back(cur[k]);
        return &w.dom->get_type(q);
    }

    void do_mutate(Obj& ob, std::vector<OpD*>* reuse = nullptr) {
        std::vector<OpD*> v;
        if (reuse) v = *reuse;
        else {
            auto m = ob.l;
            for (size_t n = 1 + s.weighted({3, 5, 5, 4, 2, 1}); n--;) v.push_back(&gen_op(false, m));
        }
        auto l = ob.l;
        bool ok = true;
        for (auto d : v) { if (!ok) break; edit(*d, l, ok); }
        if (ok) l = w.ruled(l);
        for (auto d : v) VLOG("    " << show(*d));
        w.target = nullptr;
        perform("mutate", ob, ok, l, v, [&] { spread(v, [&](auto... r) { if constexpr (sizeof...(r) > 0) mutate(*ob.o, r...); }); });
        if (reuse) return;
        bool all = true;
        for (auto d : v) all &= d->reusable();
        if (all && objs.size() > 1 && s.chance(1, 2)) { VLOG("the same operations again, on another object"); s.label("operations used twice"); rename(v); do_mutate(other(ob), &v); }
    }
    // names change hands between two uses of the operations
    void rename(const std::vector<OpD*>& v) {
        std::vector<int> idle;
        for (int i = 0; i < NK; ++i) { bool used = false; for (auto& ob : objs) used |= in(ob.l, i); if (!used) idle.push_back(i); }
        if (idle.size() < 2 || !s.chance(1, 3)) return;
        int a = s.pick(idle);
        idle.erase(std::find(idle.begin(), idle.end(), a));
        int b = s.pick(idle);
        VLOG("K" << a << " and K" << b << " are registered again with the name of the other");
        s.label("operations used again after names changed hands");
        w.dom->unregister_mixin(*w.infos[a]); w.dom->unregister_mixin(*w.infos[b]);
        std::swap(w.names[a], w.names[b]);
        for (int i : {a, b}) w.infos[i]->name = dnmx_sv::from_std(w.names[i]);
        if (s.flip()) std::swap(a, b);
        w.dom->register_mixin(*w.infos[a]); w.dom->register_mixin(*w.infos[b]);
        for (auto d : v) if (d->by_name() && (d->k == a || d->k == b)) d->k = a + b - d->k;
    }
    Obj& other(Obj& ob) { return objs[&ob == &objs[0] ? 1 : 0]; }

    void do_mutate_to(Obj& ob, std::vector<OpD*>* reuse = nullptr) {
        std::vector<int> l;
        for (int i = 0; i < NK; ++i) if (s.chance(in(ob.l, i) ? 2 : 1, 3)) l.insert(l.begin() + long(s.index(l.size() + 1)), i);
        auto t = want_type(l);
        l = w.ruled(l);
        std::vector<OpD*> v;
        std::vector<int> lacking;
        for (int k : l) if (!in(ob.l, k)) lacking.push_back(k);
        if (reuse) v = *reuse;
        else for (size_t n = s.weighted({1, 4, 5, 5, 4, 2, 1}); n--;) { auto m = lacking; v.push_back(&gen_op(true, m)); }
        for (auto d : v) VLOG("    " << show(*d));
        w.target = t;
        if (!reuse && v.size() > 1) for (size_t i = 1; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if (v[i]->k == v[j]->k && v[i]->k >= 0) s.label("several overrides for a mixin");
        perform("mutate_to", ob, true, l, v, [&] { spread(v, [&](auto... r) { mutate_to(*ob.o, *t, r...); }); });
        w.target = nullptr;
        if (reuse) return;
        bool all = true;
        for (auto d : v) all &= d->reusable();
        if (all && !v.empty() && objs.size() > 1 && s.chance(1, 2)) { VLOG("the same operations again, on another object"); s.label("operations used twice"); rename(v); do_mutate_to(other(ob), &v); }
    }

    void do_gradual(Obj& ob) {
        struct Ed { int what, by, k; std::string name; }; // what: 0 add, 1 add_if_lacking, 2 remove, 3 to_back
        std::vector<Ed> eds;
        for (size_t n = s.weighted({1, 3, 5, 4, 2}); n--;) {
            Ed e{int(s.index(4)), int(s.index(3)), int(s.index(NK)), {}};
            if (e.by == 2 && s.chance(1, 10)) e.k = -1;
            e.name = e.k >= 0 ? w.names[e.k] : "no such name";
            eds.push_back(e);
        }
        int end = int(s.weighted({5, 3, 2, 2})); // finish, apply, cancel, leave by an exception
        bool catching = s.flip(); // refused edits are caught at once, and the rest goes on
        auto l = ob.l;
        bool ok = true; // all edits taken
        for (auto& e : eds) {
            if (!ok && !catching) break;
            auto f = std::find(l.begin(), l.end(), e.k);
            if (e.what == 0) { if (e.k < 0) ok = false; else l.push_back(e.k); }
            if (e.what == 1) { if (e.k < 0) ok = false; else if (f == l.end()) l.push_back(e.k); }
            if (e.what == 2 && f != l.end()) l.erase(f);
            if (e.what == 3) { if (f == l.end()) ok = false; else { l.erase(f); l.push_back(e.k); } }
        }
        bool goes = (ok || catching) && end < 2;
        auto target = goes ? w.ruled(l) : ob.l;
        static const char* ends[] = {"finish", "apply", "cancel", "leave by an exception"};
        static const char* whats[] = {"add", "add_if_lacking", "remove", "to_back"};
        for (auto& e : eds) VLOG("    " << whats[e.what] << " " << (e.k >= 0 ? "K" + std::to_string(e.k) : "?") << (e.by == 0 ? " by type" : e.by == 1 ? " by info" : " by name"));
        VLOG("    " << ends[end] << (catching ? ", refused edits caught" : ""));
        struct Leave {};
        bool left = false;
        std::exception_ptr failed;
        auto edits = [&] {
            auto gm = mutate(*ob.o);
            gradual_mutation* g = &gm;
            for (auto& e : eds) {
                auto one = [&] {
                    gradual_mutation* r = nullptr;
                    if (e.by == 0) r = with_k(e.k, [&](auto c) { using T = K<decltype(c)::value>; return e.what == 0 ? &g->add<T>() : e.what == 1 ? &g->add_if_lacking<T>() : e.what == 2 ? &g->remove<T>() : &g->to_back<T>(); });
                    else if (e.by == 1) r = e.what == 0 ? &g->add(*cur[e.k]) : e.what == 1 ? &g->add_if_lacking(*cur[e.k]) : e.what == 2 ? &g->remove(*cur[e.k]) : &g->to_back(*cur[e.k]);
                    else r = e.what == 0 ? &g->add(e.name) : e.what == 1 ? &g->add_if_lacking(e.name) : e.what == 2 ? &g->remove(e.name) : &g->to_back(e.name);
                    if (r != g) err = "an edit of a gradual mutation returns another mutation";
                };
                if (catching) { try { one(); } catch (type_error&) {} } else one();
                if (ob.o->num_mixins() != ob.l.size()) err = "an edit of a gradual mutation changes the object at once";
            }
            if (end == 1) {
                // a failure is looked at before the mutation is gone
                if (catching) { try { g->apply(); } catch (...) { failed = std::current_exception(); } } else g->apply();
            }
            if (end == 2) g->cancel();
            if (end == 3) throw Leave{};
        };
        auto run = [&] { edits(); if (failed) std::rethrow_exception(failed); };
        w.target = nullptr;
        if (end == 3 && (ok || catching)) {
            perform("gradual mutation", ob, true, ob.l, {}, [&] { try { run(); } catch (Leave&) { left = true; } });
            VCHECK(left, "the exception which leaves a gradual mutation");
            return;
        }
        perform("gradual mutation", ob, ok || catching, target, {}, run);
    }
    void do_temporaries(Obj& ob) { // operations made in the call
        int a = int(s.index(50)), b = int(s.index(50));
        auto x = std::make_unique<Arg>(300 + a);
        auto y = std::make_unique<Arg>(400 + b);
        auto l = ob.l;
        bool ok = true;
        auto drop = [&](int k) { auto f = std::find(l.begin(), l.end(), k); if (f != l.end()) l.erase(f); };
        auto app = [&](int k) { l.push_back(k); };
        std::vector<std::unique_ptr<OpD>> ds;
        auto d = [&](int k, Form f, int a, int b, std::unique_ptr<Arg>* x = nullptr) { auto o = std::make_unique<OpD>(); o->kind = add_args; o->k = k; o->form = f; o->a = a; o->b = b; o->xv = a; o->x = x ? std::move(*x) : std::make_unique<Arg>(0); ds.push_back(std::move(o)); };
        int shape = int(s.index(4));
        std::function<void()> call;
        object& o = *ob.o;
        int calls = 0; std::string bad;
        const int two = 2;
        Func f{&w, &two, 777, &calls, &bad};
        Arg* xp = x.get();
        if (shape == 0) {
            drop(0); app(0); drop(1); app(1); drop(3);
            d(0, f_int, a, 0); d(1, f_ref_int, 0, b, &x);
            call = [&] { mutate(o, remove<K<0>>(), add<K<0>>(int(a)), remove<K<1>>(), add<K<1>>(*xp, int(b)), remove<K<3>>()); };
        }
        else if (shape == 1) {
            drop(5); drop(4); app(4); app(5); drop(2);
            d(5, f_rvalue, a, 0); d(4, f_uptr, b, 3);
            call = [&] { mutate(o, dynamix::remove(w.names[5]), remove<K<4>>(), add<K<4>>(std::make_unique<int>(b), std::string("ttt")), add<K<5>>(Arg(a)), dynamix::remove(*cur[2])); };
        }
        else if (shape == 2) {
            drop(3); app(3);
            d(3, f_cref, 0, 0, &x);
            call = [&] { mutate(o, remove<K<3>>(), add<K<3>>(std::as_const(*xp))); };
        }
        else {
            drop(2); app(2);
            auto o2 = std::make_unique<OpD>(); o2->kind = add_func_info; o2->k = 2; o2->tag = 777; o2->x = std::make_unique<Arg>(0); ds.push_back(std::move(o2));
            call = [&] { mutate(o, remove<K<2>>(), add(*cur[2], [&](init_new_args ar) { f(ar); })); };
        }
        l = w.ruled(l);
        std::vector<OpD*> v; for (auto& q : ds) v.push_back(q.get());
        // the calls of the lambda are counted elsewhere
        w.target = nullptr;
        VLOG("operations made in the call, shape " << shape);
        auto wrapped = [&] { call(); };
        if (shape == 3) {
            OpD* q = v[0];
            perform("mutate", ob, ok, l, v, [&] { try { wrapped(); } catch (...) { q->calls = calls; q->bad = bad; throw; } q->calls = calls; q->bad = bad; });
        }
        else perform("mutate", ob, ok, l, v, wrapped);
    }
    void do_perform(Obj& ob) { // functions for every mixin
        std::vector<int> l;
        for (int i = 0; i < NK; ++i) if (s.chance(in(ob.l, i) ? 2 : 1, 3)) l.insert(l.begin() + long(s.index(l.size() + 1)), i);
        auto t = want_type(l);
        l = w.ruled(l);
        if (l.empty()) return;
        bool common = s.flip();
        std::vector<std::string> got, want;
        auto old = ob.l;
        auto old_t = &ob.o->get_type();
        std::string bad;
        auto tags = std::map<int, int>();
        if (l == ob.l && common) for (int k : l) want.push_back("common K" + std::to_string(k)); // every mixin is common
        std::vector<std::unique_ptr<OpD>> ds; std::vector<OpD*> v;
        if (l != ob.l) for (int k : l) {
            if (!in(old, k)) { auto o = std::make_unique<OpD>(); o->kind = con_func_info; o->k = k; o->tag = 500 + k; o->x = std::make_unique<Arg>(0); v.push_back(o.get()); ds.push_back(std::move(o)); }
            else if (common) want.push_back("common K" + std::to_string(k));
        }
        w.target = t;
        VLOG("perform_object_mutation with " << (common ? "two functions" : "a function"));
        bool failed = false;
        perform("perform_object_mutation", ob, true, l, v, [&] {
            auto make = [&](init_new_args a) {
                int k = -1;
                for (int i = 0; i < NK; ++i) if (cur[i] == &a.info) k = i;
                for (auto d : v) if (d->k == k) Func{&w, &k, 500 + k, &d->calls, &d->bad}(a);
            };
            auto upd = [&](update_common_args a) {
                int k = -1;
                for (int i = 0; i < NK; ++i) if (cur[i] == &a.info) k = i;
                got.push_back("common K" + std::to_string(k));
                if (&a.target_type != t || t->mixins[a.target_index] != &a.info || &a.source_type != old_t || old_t->mixins[a.source_index] != &a.info) bad = "the place of a common mixin";
                if (live.find(a.mixin_buf) == live.end()) bad = "the buffer of a common mixin";
            };
            try { if (common) perform_object_mutation(*ob.o, *t, make, upd); else perform_object_mutation(*ob.o, *t, make); }
            catch (...) { failed = true; throw; }
        });
        w.target = nullptr;
        VCHECK(bad.empty(), "perform_object_mutation: " << bad);
        if (failed) VCHECK(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "calls for common mixins of a failed mutation: " << join(got));
        else VCHECK(got == want, "calls for common mixins: " << join(got) << ", expected " << join(want));
    }
};

void run(vp::Src& s) {
    live.clear(); news.clear(); err.clear(); boom_in = -1; arg_copies = 0;
    World w;
    w.canon = s.chance(1, 4);
    domain_settings set = domain_settings_builder();
    set.canonicalize_types = w.canon;
    w.dom.reset(new domain("dom", set, 0, nullptr, alc(w.dres)));
    static const char* nm[] = {"alpha", "alph", "beta", "b", "gamma", "zed"};
    for (int i = 0; i < NK; ++i) w.names.push_back(nm[i]);
    for (int i = NK - 1; i > 0; --i) std::swap(w.names[i], w.names[s.index(size_t(i) + 1)]);
    for (int i = 0; i < NK; ++i) {
        auto info = std::make_unique<common_mixin_info>();
        info->name = dnmx_sv::from_std(w.names[i]);
        with_k(i, [&](auto c) { util::common_init_mixin_info<K<decltype(c)::value>>(*info); });
        info->force_external = s.chance(1, 4);
        info->order_priority = int(s.index(3)) - 1;
        cur[i] = info.get();
        w.infos.push_back(std::move(info));
    }
    std::vector<int> order{0, 1, 2, 3, 4, 5};
    for (int i = NK - 1; i > 0; --i) std::swap(order[i], order[s.index(size_t(i) + 1)]);
    for (int i : order) w.dom->register_mixin(*w.infos[i]);
    w.rule_kind = int(s.weighted({5, 1, 1, 1}));
    w.ra = int(s.index(NK)); w.rb = (w.ra + 1 + int(s.index(NK - 1))) % NK;
    w.rule.name = dnmx_make_sv_lit("rule");
    w.rule.apply = &World::apply;
    w.rule.user_data = reinterpret_cast<uintptr_t>(&w);
    w.rule.order_priority = 0;
    if (w.rule_kind) w.dom->add_mutation_rule(w.rule);
    VLOG("rule: " << (w.rule_kind == 0 ? "none" : w.rule_kind == 1 ? "dedup" : w.rule_kind == 2 ? "with A, add B" : "with A, remove B") << " (A = K" << w.ra << ", B = K" << w.rb << ")" << (w.canon ? ", canonical" : ""));
    {
        Case c(s, w);
        size_t n = 1 + s.index(2);
        c.objs.resize(n);
        for (auto& o : c.objs) o.o.reset(new object(*w.dom, alc(w.ores)));
        do {
            vp::Src::Op op(s);
            auto& ob = c.objs[s.index(c.objs.size())];
            switch (s.weighted({6, 5, 3, 2, 2})) {
            case 0: c.do_mutate(ob); break;
            case 1: c.do_mutate_to(ob); break;
            case 2: c.do_gradual(ob); break;
            case 3: c.do_temporaries(ob); break;
            default: c.do_perform(ob); break;
            }
        } while (s.more(5));
        if (c.overrides_ran && c.several) s.interesting();
    }
    VCHECK(err.empty(), err);
    VCHECK(live.empty(), "mixins alive after their objects");
    if (w.rule_kind) w.dom->remove_mutation_rule(w.rule);
    w.dom.reset();
    VCHECK(w.ores.out.empty() && w.ores.err.empty(), "blocks of the objects' allocator " << w.ores.out.size() << " " << w.ores.err);
    VCHECK(w.dres.out.empty() && w.dres.err.empty(), "blocks of the domain's allocator " << w.dres.out.size() << " " << w.dres.err);
}
vp::Reg r("C15", {"typed operations", "mutate, mutate_to, gradual mutations and perform_object_mutation with operations by static type, info and name, constructor arguments of eight forms, functions, custom operations, operations used twice, constructors which throw, compared with a model of the constructions; non-trivial: an override runs after another mixin is constructed", run, 60000, 3000000});
}
