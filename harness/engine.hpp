// A small property-based testing engine.
//
// A case is a pure function of a choice sequence (Src). Choices come from a PRNG seeded by
// hash(seed, property, part, case index) or from a buffer (replay and shrinking; an exhausted
// buffer yields 0, which every generator maps to its simplest value).
// Workers are forked processes, so that a crash of the code under test (sanitizer report, failed
// assertion, std::terminate, hang) is an observation and not the end of the run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>
#include <initializer_list>
#include <chrono>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <time.h>

namespace vp {

struct Failure { std::string msg; };
struct Discard {};

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const char* s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) { h ^= uint8_t(*s); h *= 1099511628211ull; }
    return h;
}

// shared with the parent, one per worker
struct Slot {
    volatile int64_t cur_case;      // case being run, -1 when idle
    volatile int64_t case_start_ms; // monotonic
    volatile int64_t failed_case;   // first failing case or -1
    volatile int64_t done;          // 1 when finished normally
    char msg[4096];                 // first failure message
};

inline int64_t now_ms() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return int64_t(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
}

class Src {
public:
    std::vector<uint64_t> rec;   // what was drawn (reduced values)
    std::vector<std::pair<uint32_t, uint32_t>> spans; // op spans in rec, for shrinking
    bool verbose = false;
    std::string text;            // the rendered case
    std::map<std::string, uint64_t>* labels = nullptr;
    bool nontrivial = false;
    std::string soft;            // failure recorded where throwing was not possible
    Slot* slot = nullptr;
    uint32_t depth = 0;

    explicit Src(uint64_t seed) : m_state(seed) {}
    explicit Src(std::vector<uint64_t> buf) : m_buf(std::move(buf)), m_replay(true) {}

    // uniform in [0, n)
    uint64_t draw(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (m_replay) {
            v = m_pos < m_buf.size() ? m_buf[m_pos] : 0;
            ++m_pos;
            v %= n;
        }
        else {
            m_state += 0x9e3779b97f4a7c15ull;
            v = mix64(m_state);
            // multiply-shift reduction
            v = uint64_t((__uint128_t(v) * n) >> 64);
        }
        rec.push_back(v);
        return v;
    }
    uint64_t raw() { uint64_t hi = draw(1ull << 32); return (hi << 32) | draw(1ull << 32); }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint64_t(hi - lo) + 1)); }
    size_t index(size_t n) { return size_t(draw(n)); }
    // true with probability num/den; shrinks to false
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
    bool flip() { return draw(2) != 0; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[index(v.size())]; }
    template <typename T> T oneof(std::initializer_list<T> l) { return *(l.begin() + index(l.size())); }
    // index by weight; index 0 is the simplest
    size_t weighted(std::initializer_list<uint32_t> w) { return weighted_(w.begin(), w.size()); }
    size_t weighted(const std::vector<uint32_t>& w) { return weighted_(w.data(), w.size()); }

    // an operation of a history: its choices shrink as a unit
    struct Op {
        Src& s; uint32_t b;
        explicit Op(Src& s) : s(s), b(uint32_t(s.rec.size())) {}
        ~Op() { s.spans.push_back({b, uint32_t(s.rec.size())}); }
        Op(const Op&) = delete;
    };
    // continue flag of a list with expected length avg
    bool more(uint32_t avg) { return draw(avg + 1) != 0; }

    void label(const char* l) { if (labels) ++(*labels)[l]; }
    void label(const std::string& l) { if (labels) ++(*labels)[l]; }
    void interesting() { nontrivial = true; }

    template <typename F> void log(F&& f) { if (verbose) { std::ostringstream o; f(o); text += o.str(); text += '\n'; } }

    void soft_fail(const std::string& m) {
        if (!soft.empty()) return;
        soft = m;
        if (slot && !slot->msg[0]) snprintf(slot->msg, sizeof(slot->msg), "%s", m.c_str());
    }
    // throw if a failure was recorded
    void sync() { if (!soft.empty()) throw Failure{soft}; }
private:
    size_t weighted_(const uint32_t* w, size_t n) {
        uint64_t sum = 0;
        for (size_t i = 0; i < n; ++i) sum += w[i];
        uint64_t v = draw(sum);
        for (size_t i = 0; i < n; ++i) { if (v < w[i]) return i; v -= w[i]; }
        return n - 1;
    }
    uint64_t m_state = 0;
    std::vector<uint64_t> m_buf;
    size_t m_pos = 0;
    bool m_replay = false;
};

#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
[[noreturn]] __attribute__((noinline,cold)) inline void throw_failure(std::ostringstream& o) { throw Failure{o.str()}; }
#define VFAIL(expr) do { ([&]() __attribute__((noinline,cold,no_sanitize("address","undefined"))) { std::ostringstream vp_o_; vp_o_ << expr << " [" __FILE_NAME__ ":" VP_STR(__LINE__) "]"; ::vp::throw_failure(vp_o_); }()); __builtin_unreachable(); } while (false)
#define VCHECK(cond, expr) do { if (!(cond)) { VFAIL(expr << "  (" #cond ")"); } } while (false)
#define VEQ(a, b, expr) do { auto&& vp_a_ = (a); auto&& vp_b_ = (b); if (!(vp_a_ == vp_b_)) { VFAIL(expr << ": " #a " = " << vp_a_ << ", expected " #b " = " << vp_b_); } } while (false)
#define VLOG(expr) s.log([&](std::ostream& vp_o_) { vp_o_ << expr; })
#ifndef __FILE_NAME__
#define __FILE_NAME__ __FILE__
#endif

struct Part {
    std::string name;
    std::string rule;  // how cases are made and what makes one non-trivial
    std::function<void(Src&)> fn;
    uint64_t quick, thorough;
    bool single_process_threads = false; // the case starts threads: fewer workers
    uint64_t timeout_ms = 30000;
};

// names may have any bytes; what is printed has not
inline std::string printable(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '\n' || c == '\t' || (c >= 0x20 && c < 0x7f)) o += char(c);
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    return o;
}
inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

enum class Res { ok, discard, fail, crash, hang };

struct Runner {
    std::string prop, tier, out, replay_dir;
    uint64_t seed = 1;
    int jobs = 8;

    uint64_t case_seed(const Part& p, uint64_t idx) const {
        return mix64(mix64(mix64(seed) ^ hash_str(prop.c_str())) ^ hash_str(p.name.c_str())) ^ mix64(idx * 2 + 1);
    }

    // run in this process
    static Res exec(const Part& p, Src& s, std::string& msg) {
        try {
            p.fn(s);
            if (!s.soft.empty()) { msg = s.soft; return Res::fail; }
            return Res::ok;
        }
        catch (Failure& f) { msg = s.soft.empty() ? f.msg : s.soft; return Res::fail; }
        catch (Discard&) { if (!s.soft.empty()) { msg = s.soft; return Res::fail; } return Res::discard; }
        catch (std::exception& e) { msg = s.soft.empty() ? std::string("unexpected exception: ") + e.what() : s.soft; return Res::fail; }
        catch (...) { msg = "unexpected exception of unknown type"; return Res::fail; }
    }

    struct Out {
        Res res = Res::ok;
        std::string msg, text;
        std::vector<uint64_t> rec;
        std::vector<std::pair<uint32_t, uint32_t>> spans;
        bool nontrivial = false;
    };

    // run one choice source in a forked child
    Out exec_forked(const Part& p, const std::function<Src()>& mk, uint64_t timeout_ms, bool verbose, uint64_t prefix_from = 0, uint64_t prefix_step = 0, uint64_t prefix_to = 0) {
        constexpr size_t cap = 48u << 20;
        char* mem = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        Slot* slot = (Slot*)mem;
        slot->msg[0] = 0; slot->done = 0;
        char errf[] = "/tmp/vp_err_XXXXXX";
        int efd = mkstemp(errf);
        unlink(errf);
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            dup2(efd, 2);
            if (prefix_step) {
                for (uint64_t i = prefix_from; i < prefix_to; i += prefix_step) {
                    Src ps(case_seed(p, i));
                    std::string m;
                    exec(p, ps, m);
                }
            }
            Src s = mk();
            s.verbose = verbose;
            s.slot = slot;
            std::string m;
            Res r = exec(p, s, m);
            // serialize: res, nontrivial, nrec, recs, nspans, spans, msg, text
            char* w = mem + sizeof(Slot);
            char* e = mem + cap;
            auto put = [&](const void* d, size_t n) { if (n && w + n < e) { memcpy(w, d, n); w += n; } };
            auto putu = [&](uint64_t v) { put(&v, 8); };
            putu(uint64_t(r)); putu(s.nontrivial);
            if (s.rec.size() > 1000000) s.rec.resize(1000000);
            putu(s.rec.size()); put(s.rec.data(), s.rec.size() * 8);
            if (s.spans.size() > 1000000) s.spans.resize(1000000);
            putu(s.spans.size()); put(s.spans.data(), s.spans.size() * 8);
            if (m.size() > 20000) m.resize(20000);
            putu(m.size()); put(m.data(), m.size());
            if (s.text.size() > 2000000) s.text.resize(2000000);
            putu(s.text.size()); put(s.text.data(), s.text.size());
            slot->done = 1;
            _exit(0);
        }
        Out o;
        int64_t t0 = now_ms();
        int st = 0;
        int us = 200;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (uint64_t(now_ms() - t0) > timeout_ms) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                o.res = Res::hang;
                o.msg = "no result within " + std::to_string(timeout_ms) + " ms";
                munmap(mem, cap); close(efd);
                return o;
            }
            usleep(us); if (us < 5000) us += 100;
        }
        if (slot->done) {
            char* rp = mem + sizeof(Slot);
            auto getu = [&] { uint64_t v; memcpy(&v, rp, 8); rp += 8; return v; };
            o.res = Res(getu()); o.nontrivial = getu();
            auto get = [&](void* d, size_t n) { if (n) memcpy(d, rp, n); rp += n; };
            o.rec.resize(getu()); get(o.rec.data(), o.rec.size() * 8);
            o.spans.resize(getu()); get((void*)o.spans.data(), o.spans.size() * 8);
            o.msg.resize(getu()); memcpy(&o.msg[0], rp, o.msg.size()); rp += o.msg.size();
            o.text.resize(getu()); memcpy(&o.text[0], rp, o.text.size());
        }
        else {
            o.res = Res::crash;
            std::ostringstream m;
            if (slot->msg[0]) m << slot->msg << " / then ";
            if (WIFSIGNALED(st)) m << "terminated by signal " << WTERMSIG(st);
            else m << "exited with " << WEXITSTATUS(st) << " (sanitizer)";
            std::string err; char buf[4096]; lseek(efd, 0, SEEK_SET); ssize_t n;
            while ((n = read(efd, buf, sizeof buf)) > 0 && err.size() < 200000) err.append(buf, n);
            m << "\n" << summarize(err);
            o.msg = m.str();
            o.text = err;
        }
        munmap(mem, cap); close(efd);
        return o;
    }

    static std::string summarize(const std::string& err) {
        std::istringstream in(err); std::string l, o; int n = 0;
        while (std::getline(in, l) && n < 14) {
            if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos
                || l.find("Assertion") != std::string::npos || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos
                || l.find("WARNING: ThreadSanitizer") != std::string::npos
                || (l.find(" #") != std::string::npos && l.find("/code/dy") != std::string::npos)) { o += l; o += '\n'; ++n; }
        }
        return o;
    }

    static bool bad(Res r) { return r == Res::fail || r == Res::crash || r == Res::hang; }

    struct Viol { std::string part, msg, text; std::vector<uint64_t> choices; uint64_t idx; };

    // minimize a failing choice sequence
    Out shrink(const Part& p, std::vector<uint64_t>& best, Out bo) {
        int64_t t0 = now_ms();
        int execs = 0;
        const bool hang = bo.res == Res::hang;
        auto budget = [&] { return execs < 3000 && now_ms() - t0 < (hang ? 20000 : 60000); };
        auto tryit = [&](const std::vector<uint64_t>& c) {
            if (!budget()) return false;
            ++execs;
            Out o = exec_forked(p, [&] { return Src(c); }, hang ? 5000 : p.timeout_ms, false);
            if (!bad(o.res) || ((o.res == Res::hang) != hang)) return false;
            // crashes keep what was tried, normal failures keep what was consumed
            if (o.res == Res::fail) best = o.rec; else best = c;
            while (!best.empty() && best.back() == 0) best.pop_back();
            bo = std::move(o);
            return true;
        };
        bool progress = true;
        while (progress && budget()) {
            progress = false;
            // 1. op spans, last first
            if (bo.res == Res::fail || !bo.spans.empty()) {
                auto spans = bo.spans;
                std::sort(spans.begin(), spans.end(), [](auto& a, auto& b) { return a.first > b.first; });
                for (auto& sp : spans) {
                    if (!budget()) break;
                    if (sp.second > best.size() || sp.first >= sp.second) continue;
                    auto c = best;
                    c.erase(c.begin() + sp.first, c.begin() + sp.second);
                    if (tryit(c)) progress = true;
                }
            }
            // 2. chunks
            for (size_t len : {64, 32, 16, 8, 4, 2, 1}) {
                for (size_t i = best.size(); i-- > 0 && budget(); ) {
                    if (i + len > best.size()) continue;
                    auto c = best;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (tryit(c)) { progress = true; if (i > best.size()) i = best.size(); }
                    if (len > 4 && i > 0) i -= std::min(i, len / 2 - 1);
                }
            }
            // 3. values
            for (size_t i = 0; i < best.size() && budget(); ++i) {
                if (best[i] == 0) continue;
                auto c = best; c[i] = 0;
                if (tryit(c)) { progress = true; continue; }
                if (i >= best.size()) break;
                if (best[i] > 1) {
                    c = best; c[i] = best[i] / 2;
                    if (tryit(c)) { progress = true; if (i) --i; continue; }
                    if (i >= best.size()) break;
                    c = best; c[i] -= 1;
                    if (tryit(c)) { progress = true; }
                }
            }
        }
        return bo;
    }

    std::string write_replay(const Viol& v) {
        mkdir(replay_dir.c_str(), 0777);
        std::string path = replay_dir + "/" + prop + "-" + v.part + "-s" + std::to_string(seed) + "-c" + std::to_string(v.idx) + ".replay";
        for (auto i = replay_dir.size() + 1; i < path.size(); ++i) if (!isalnum((unsigned char)path[i]) && path[i] != '.') path[i] = '-';
        FILE* f = fopen(path.c_str(), "w");
        if (!f) return path;
        fprintf(f, "property %s\npart %s\nseed %llu\ncase %llu\nchoices", prop.c_str(), v.part.c_str(), (unsigned long long)seed, (unsigned long long)v.idx);
        for (auto c : v.choices) fprintf(f, " %llu", (unsigned long long)c);
        fprintf(f, "\nmessage %s\n--- minimal case ---\n%s\n", printable(v.msg).c_str(), printable(v.text).c_str());
        fclose(f);
        return path;
    }

    struct PartStats {
        uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<uint64_t> sample_idx;
        std::vector<std::string> samples;
    };

    bool run_part(const Part& p, PartStats& st, Viol& viol) {
        uint64_t n = tier == "thorough" ? p.thorough : p.quick;
        if (const char* e = getenv("VP_CASES")) n = strtoull(e, 0, 10);
        if (!n) return true;
        int W = p.single_process_threads ? std::max(1, jobs / 2) : jobs;
        if (uint64_t(W) > n) W = int(n);
        Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * W + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        volatile int64_t* stop_at = (volatile int64_t*)(slots + W); // no need to go beyond this case
        *stop_at = INT64_MAX;
        std::vector<pid_t> pids(W);
        std::vector<int> fds(W);
        fflush(stdout); fflush(stderr);
        for (int w = 0; w < W; ++w) {
            slots[w].cur_case = -1; slots[w].failed_case = -1; slots[w].done = 0; slots[w].msg[0] = 0; slots[w].case_start_ms = now_ms();
            char f[] = "/tmp/vp_st_XXXXXX"; fds[w] = mkstemp(f); unlink(f);
            pids[w] = fork();
            if (pids[w] == 0) {
                int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
                Slot& slot = slots[w];
                PartStats ws;
                for (uint64_t i = w; i < n; i += W) {
                    if (int64_t(i) >= *stop_at) break;
                    slot.case_start_ms = now_ms();
                    slot.cur_case = int64_t(i);
                    slot.msg[0] = 0;
                    Src s(case_seed(p, i));
                    s.labels = &ws.labels; s.slot = &slot;
                    std::string m;
                    Res r = exec(p, s, m);
                    slot.cur_case = -1;
                    if (r == Res::discard) { ++ws.discarded; continue; }
                    ++ws.evaluations;
                    if (r == Res::fail) {
                        snprintf(slot.msg, sizeof slot.msg, "%s", m.c_str());
                        slot.failed_case = int64_t(i);
                        break;
                    }
                    if (s.nontrivial) {
                        ++ws.nontrivial;
                        uint64_t h = hash_str(p.name.c_str());
                        for (auto c : s.rec) h = mix64(h ^ c);
                        ws.distinct.insert(h);
                        if (ws.sample_idx.size() < 3) ws.sample_idx.push_back(i);
                    }
                }
                FILE* o = fdopen(fds[w], "w");
                auto putu = [&](uint64_t v) { fwrite(&v, 8, 1, o); };
                putu(ws.evaluations); putu(ws.discarded); putu(ws.nontrivial);
                putu(ws.sample_idx.size()); for (auto i : ws.sample_idx) putu(i);
                putu(ws.distinct.size()); for (auto h : ws.distinct) putu(h);
                putu(ws.labels.size());
                for (auto& l : ws.labels) { putu(l.first.size()); fwrite(l.first.data(), 1, l.first.size(), o); putu(l.second); }
                fflush(o);
                slot.done = 1;
                _exit(0);
            }
        }
        std::vector<bool> alive(W, true);
        int nalive = W;
        int64_t fail_case = -1; bool fail_hang = false;
        auto note = [&](int64_t c, bool hang) {
            if (fail_case < 0 || c < fail_case) { fail_case = c; fail_hang = hang; }
            if (c < *stop_at) *stop_at = c;
        };
        while (nalive) {
            usleep(3000);
            for (int w = 0; w < W; ++w) {
                if (!alive[w]) continue;
                int stt;
                if (waitpid(pids[w], &stt, WNOHANG) == pids[w]) {
                    alive[w] = false; --nalive;
                    if (slots[w].failed_case >= 0) note(slots[w].failed_case, false);
                    else if (!slots[w].done) note(slots[w].cur_case >= 0 ? slots[w].cur_case : 0, false);
                    continue;
                }
                if (slots[w].failed_case >= 0 && slots[w].failed_case < *stop_at) *stop_at = slots[w].failed_case;
                if (slots[w].cur_case >= 0 && now_ms() - slots[w].case_start_ms > int64_t(p.timeout_ms)) {
                    int64_t c = slots[w].cur_case;
                    kill(pids[w], SIGKILL); waitpid(pids[w], &stt, 0);
                    alive[w] = false; --nalive;
                    note(c, true);
                }
            }
        }
        for (int w = 0; w < W; ++w) {
            if (slots[w].done) {
                FILE* f = fdopen(fds[w], "r"); rewind(f);
                auto getu = [&] { uint64_t v = 0; if (fread(&v, 8, 1, f) != 1) v = 0; return v; };
                st.evaluations += getu(); st.discarded += getu(); st.nontrivial += getu();
                for (uint64_t k = getu(); k--; ) st.sample_idx.push_back(getu());
                for (uint64_t k = getu(); k--; ) st.distinct.insert(getu());
                for (uint64_t k = getu(); k--; ) { std::string l(getu(), ' '); if (fread(&l[0], 1, l.size(), f)) {} st.labels[l] += getu(); }
                fclose(f);
            }
            else close(fds[w]);
        }
        std::string slotmsg;
        for (int w = 0; w < W; ++w) if (slots[w].failed_case == fail_case || slots[w].cur_case == fail_case) slotmsg = slots[w].msg;
        munmap(slots, sizeof(Slot) * W + 4096);

        std::sort(st.sample_idx.begin(), st.sample_idx.end());
        if (fail_case < 0) {
            for (size_t k = 0; k < st.sample_idx.size() && st.samples.size() < 2; ++k) {
                uint64_t i = st.sample_idx[k];
                Out o = exec_forked(p, [&] { return Src(case_seed(p, i)); }, p.timeout_ms, true);
                std::string t = o.text; if (t.size() > 1500) { t.resize(1500); t += "..."; }
                st.samples.push_back("part " + p.name + " case " + std::to_string(i) + ":\n" + t);
            }
            return true;
        }
        // confirm
        uint64_t idx = uint64_t(fail_case);
        Out first; int hits = 0, tries = 3;
        for (int k = 0; k < tries; ++k) {
            Out o = exec_forked(p, [&] { return Src(case_seed(p, idx)); }, fail_hang ? 2 * p.timeout_ms : p.timeout_ms, false);
            if (bad(o.res)) { if (!hits) first = std::move(o); ++hits; }
        }
        if (hits == 0 && p.single_process_threads) {
            for (int k = 0; k < 20 && !hits; ++k) {
                Out o = exec_forked(p, [&] { return Src(case_seed(p, idx)); }, p.timeout_ms, false);
                if (bad(o.res)) { first = std::move(o); ++hits; }
            }
        }
        if (hits == 0) {
            // depends on the cases before it in the same process?
            Out o = exec_forked(p, [&] { return Src(case_seed(p, idx)); }, 600000, false, idx % W, W, idx);
            if (bad(o.res)) {
                viol = {p.name, "(only after the preceding cases of the same process) " + o.msg, o.text, {}, idx};
                return false;
            }
            if (fail_hang) { st.labels["case stopped by the time limit, inconclusive"]++; return true; }
            fprintf(stderr, "%s/%s: case %llu failed once (%s) and not again: not reported\n", prop.c_str(), p.name.c_str(), (unsigned long long)idx, printable(slotmsg).c_str());
            st.labels["unconfirmed failure, not reported"]++;
            return true;
        }
        // get a choice sequence: crashes lose it, so derive it by re-running in-process generation as replay
        std::vector<uint64_t> best = first.rec;
        if (first.res != Res::fail) {
            best = trace_choices(p, idx);
            Out o = exec_forked(p, [&] { return Src(best); }, p.timeout_ms, false);
            if (!bad(o.res)) { // can not be expressed as a buffer: report unshrunk
                viol = {p.name, first.msg, first.text, best, idx};
                return false;
            }
        }
        Out fin = p.single_process_threads ? first : shrink(p, best, first);
        Out v = exec_forked(p, [&] { return Src(best); }, p.timeout_ms, true);
        std::string text = v.text;
        viol = {p.name, bad(v.res) ? v.msg : fin.msg, text, best, idx};
        if (v.res == Res::crash) viol.text = trace_text(p, best) + "\n--- stderr ---\n" + text;
        return false;
    }

    // the choices a crashing case makes, observed through shared memory
    std::vector<uint64_t> trace_choices(const Part& p, uint64_t idx) {
        // choices are a prefix-deterministic stream of reduced values: run with a recorder in shared memory
        return m_trace(p, [&] { return Src(case_seed(p, idx)); }, nullptr);
    }
    std::string trace_text(const Part& p, const std::vector<uint64_t>& c) {
        std::string t; m_trace(p, [&] { return Src(c); }, &t); return t;
    }
    std::vector<uint64_t> m_trace(const Part& p, const std::function<Src()>& mk, std::string* text);
};

// crash tracing: atexit-free, the child dumps its Src from the death callback / signal handler
struct TraceDump { Src* src; int fd; };
inline TraceDump g_trace = {nullptr, -1};
inline void trace_dump() {
    if (!g_trace.src || g_trace.fd < 0) return;
    Src* s = g_trace.src; g_trace.src = nullptr;
    uint64_t n = s->rec.size();
    auto w = [&](const void* d, size_t l) { const char* c = (const char*)d; while (l) { ssize_t k = write(g_trace.fd, c, l); if (k <= 0) return; c += k; l -= size_t(k); } };
    w(&n, 8); w(s->rec.data(), n * 8);
    n = s->text.size(); w(&n, 8); w(s->text.data(), n);
}
inline void trace_sig(int sig) { trace_dump(); signal(sig, SIG_DFL); raise(sig); }
}

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" inline __attribute__((used, visibility("default"))) const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8:handle_abort=0";
}
extern "C" inline __attribute__((used, visibility("default"))) const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=77"; }
extern "C" inline __attribute__((used, visibility("default"))) const char* __tsan_default_options() { return "exitcode=66:halt_on_error=1:report_signal_unsafe=0"; }

namespace vp {
inline std::vector<uint64_t> Runner::m_trace(const Part& p, const std::function<Src()>& mk, std::string* text) {
    char f[] = "/tmp/vp_tr_XXXXXX"; int fd = mkstemp(f); unlink(f);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
        Src s = mk();
        s.verbose = text != nullptr;
        g_trace = {&s, fd};
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(trace_dump);
        signal(SIGABRT, trace_sig);
        if (!__sanitizer_set_death_callback) { signal(SIGSEGV, trace_sig); signal(SIGBUS, trace_sig); signal(SIGILL, trace_sig); signal(SIGFPE, trace_sig); }
        signal(SIGALRM, [](int) { trace_dump(); _exit(3); });
        alarm(unsigned(p.timeout_ms / 1000 / 2 + 1));
        std::string m;
        exec(p, s, m);
        trace_dump();
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    std::vector<uint64_t> ret;
    uint64_t n = 0; lseek(fd, 0, SEEK_SET);
    if (read(fd, &n, 8) == 8) {
        ret.resize(n); size_t want = n * 8, got = 0;
        while (got < want) { ssize_t k = read(fd, (char*)ret.data() + got, want - got); if (k <= 0) break; got += size_t(k); }
        if (text && read(fd, &n, 8) == 8) { text->resize(n); got = 0; while (got < n) { ssize_t k = read(fd, &(*text)[got], n - got); if (k <= 0) break; got += size_t(k); } }
    }
    close(fd);
    return ret;
}

// parts of a property, in the order of the files linked
inline std::map<std::string, std::vector<Part>>& registry() { static std::map<std::string, std::vector<Part>> r; return r; }
struct Reg { Reg(const char* prop, Part p) { registry()[prop].push_back(std::move(p)); } };

inline int run_main(int argc, char** argv, const std::map<std::string, std::vector<Part>>& props) {
    Runner r;
    std::string replay; std::string only_part;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") r.prop = next();
        else if (a == "--tier") r.tier = next();
        else if (a == "--seed") r.seed = strtoull(next().c_str(), 0, 10);
        else if (a == "--out") r.out = next();
        else if (a == "--replay-dir") r.replay_dir = next();
        else if (a == "--replay") replay = next();
        else if (a == "--part") only_part = next();
        else if (a == "--jobs") r.jobs = atoi(next().c_str());
    }
    // addresses are inputs to some orderings: pin them where the system lets us
    if (!getenv("VP_NOASLR_DONE")) {
        setenv("VP_NOASLR_DONE", "1", 1);
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) { fprintf(stderr, "no replay file %s\n", replay.c_str()); return 2; }
        std::string all; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, n); fclose(f);
        std::istringstream in(all); std::string key, part; std::vector<uint64_t> ch; std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line); l >> key;
            if (key == "property") l >> r.prop;
            else if (key == "part") { std::getline(l, part); part.erase(0, part.find_first_not_of(' ')); }
            else if (key == "seed") l >> r.seed;
            else if (key == "choices") { uint64_t v; while (l >> v) ch.push_back(v); break; }
        }
        auto it = props.find(r.prop);
        if (it == props.end()) return 2;
        for (auto& p : it->second) if (p.name == part) {
            auto o = r.exec_forked(p, [&] { return Src(ch); }, p.timeout_ms, true);
            std::string text = o.res == Res::crash ? r.trace_text(p, ch) + "\n--- stderr ---\n" + o.text : o.text;
            printf("%s\n%s\n", printable(text).c_str(), printable(o.msg).c_str());
            if (Runner::bad(o.res)) { printf("VIOLATION property=%s replay=%s\n", r.prop.c_str(), replay.c_str()); return 1; }
            printf("replay passes\n");
            return 0;
        }
        return 2;
    }
    auto it = props.find(r.prop);
    if (it == props.end()) { fprintf(stderr, "unknown property %s\n", r.prop.c_str()); return 2; }
    int64_t t0 = now_ms();
    std::ostringstream js;
    uint64_t ev = 0, dist = 0, disc = 0;
    bool violated = false; Runner::Viol v; std::string vpath;
    std::ostringstream parts, samples, rules; bool fp = true, fs = true;
    for (auto& p : it->second) {
        if (!only_part.empty() && p.name != only_part) continue;
        Runner::PartStats st;
        int64_t p0 = now_ms();
        bool ok = r.run_part(p, st, v);
        ev += st.evaluations; dist += st.distinct.size(); disc += st.discarded;
        if (!fp) { parts << ","; rules << " | "; }
        fp = false;
        rules << p.name << ": " << p.rule;
        parts << json_str(p.name) << ":{\"evaluations\":" << st.evaluations << ",\"distinct_nontrivial\":" << st.distinct.size() << ",\"discarded\":" << st.discarded
            << ",\"wall_ms\":" << (now_ms() - p0) << ",\"classes\":{";
        bool f = true;
        for (auto& l : st.labels) { if (!f) parts << ","; f = false; parts << json_str(l.first) << ":" << l.second; }
        parts << "}}";
        for (auto& sm : st.samples) { if (!fs) samples << ","; fs = false; samples << json_str(sm); }
        printf("%s/%s: %llu cases, %zu distinct non-trivial, %llu discarded, %lld ms\n", r.prop.c_str(), p.name.c_str(), (unsigned long long)st.evaluations, st.distinct.size(), (unsigned long long)st.discarded, (long long)(now_ms() - p0));
        fflush(stdout);
        if (!ok) {
            violated = true;
            vpath = r.write_replay(v);
            printf("FAILED part %s case %llu: %s\n%s\n", v.part.c_str(), (unsigned long long)v.idx, printable(v.msg).c_str(), printable(v.text.substr(0, 6000)).c_str());
            break;
        }
    }
    js << "{\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << dist << ",\"discarded\":" << disc << ",\"rule\":" << json_str(rules.str())
        << ",\"parts\":{" << parts.str() << "},\"samples\":[" << samples.str() << "],\"wall_ms\":" << (now_ms() - t0)
        << ",\"violated\":" << (violated ? "true" : "false") << ",\"replay\":" << json_str(vpath) << ",\"message\":" << json_str(violated ? v.msg : "") << "}\n";
    if (!r.out.empty()) { FILE* f = fopen(r.out.c_str(), "w"); if (f) { fputs(js.str().c_str(), f); fclose(f); } }
    if (violated) { printf("VIOLATION property=%s replay=%s\n", r.prop.c_str(), vpath.c_str()); return 1; }
    return 0;
}
}
