// Stateless exhaustive explorer: a scenario is a function that asks for every
// nondeterministic decision through Ctx::choose(). The explorer runs it once for
// every possible sequence of answers (depth first), so that when it terminates
// without hitting a cap every behaviour of the bounded scenario was executed on
// the real code.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Violation {
    std::string msg;
};
struct Finding {  // a violation that carries a stable identity
    std::string key;
    std::string msg;
};
struct Skip {};  // this execution belongs to another shard
struct Cut {};   // this execution is redundant / outside of the bound
struct Next {};  // the same for one step of a long program

inline std::string vfmt(const char* f, va_list ap) {
    char buf[2048];
    vsnprintf(buf, sizeof(buf), f, ap);
    return buf;
}
[[gnu::format(printf, 1, 2)]] inline std::string fmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}

// Open addressing set of 64-bit hashes.
class HashSet {
    std::vector<uint64_t> t;
    size_t n = 0;
    bool zero = false;
    void grow() {
        std::vector<uint64_t> o(t.empty() ? 1024 : t.size() * 2, 0);
        o.swap(t);
        for (uint64_t v : o)
            if (v) put(v);
    }
    bool put(uint64_t v) {
        size_t m = t.size() - 1;
        size_t i = (v * 0x9e3779b97f4a7c15ull) >> 20;
        for (;; ++i) {
            uint64_t& s = t[i & m];
            if (s == v) return false;
            if (!s) {
                s = v;
                return true;
            }
        }
    }

public:
    bool insert(uint64_t v) {
        if (!v) {
            bool r = !zero;
            zero = true;
            return r;
        }
        if (t.empty() || n * 2 >= t.size()) grow();
        if (put(v)) {
            ++n;
            return true;
        }
        return false;
    }
    size_t size() const { return n + zero; }
    void dump(FILE* f) const {
        uint64_t z = 0;
        if (zero) fwrite(&z, 8, 1, f);
        for (uint64_t v : t)
            if (v) fwrite(&v, 8, 1, f);
    }
};

struct Stats {
    uint64_t executions = 0, transitions = 0, cuts = 0;
    HashSet states, outcomes;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::pair<uint64_t, std::string>> known;
    std::vector<std::string> samples;
};

// Shared page that always holds the case being executed: survives any crash.
struct CurPage {
    char scenario[64];
    uint64_t execs;
    uint32_t n;
    uint16_t choice[16000];
};

class Ctx {
public:
    std::vector<uint16_t> choices, arity;
    size_t pos = 0;
    bool tracing = false;
    bool replay = false;
    std::vector<std::string> trace;
    Stats* st = nullptr;
    CurPage* cur = nullptr;
    int shard = 0, nshards = 1;
    unsigned shard_depth = 3;
    bool thorough = false;
    std::string prop;
    std::set<std::string> known;
    std::map<std::string, std::string> args;
    uint64_t local_transitions = 0;
    // Long regular programs: see steps().
    bool want_long = false, lin_on = false;
    unsigned lin_a = 0, lin_b = 0, lin_p = 0, lin_i = 0;

    void begin() {
        pos = 0;
        local_transitions = 0;
        want_long = lin_on = false;
    }
    bool lin() const { return lin_on; }
    // The steps of a run for which all bounds are reduced (--arg short=N).
    unsigned less(unsigned d) const {
        auto it = args.find("short");
        const unsigned n = it == args.end() ? 0 : (unsigned)atoi(it->second.c_str());
        return d > n ? d - n : 1;
    }
    // The number of steps of an operation loop. In a scenario of long programs
    // (want_long), three parameters are chosen here, and all later decisions
    // of the execution follow from them: b, b + a, b + 2a, ... with b going up
    // by one after every p decisions. All combinations of parameters are run.
    unsigned steps(unsigned d, unsigned len = 0) {
        if (!want_long) return less(d);
        static const unsigned ps[] = {0, 3, 7, 16};
        lin_a = choose(thorough ? 31 : 13);
        lin_b = choose(thorough ? 31 : 13);
        lin_p = ps[choose(thorough ? 4 : 2)];
        lin_i = 0;
        lin_on = true;
        return len ? len : thorough ? 150 : 50;
    }
    // End of a history: goes on in long programs.
    bool stop() const { return !lin_on; }

    // Pick one of n alternatives.
    unsigned choose(unsigned n) {
        if (n == 0) {
            fprintf(stderr, "choose(0)\n");
            _exit(3);
        }
        if (n == 1) return 0;
        if (lin_on) {
            const unsigned i = lin_i++;
            return (lin_b + lin_a * i + (lin_p ? i / lin_p : 0)) % n;
        }
        unsigned v = 0;
        if (pos < choices.size()) {
            v = choices[pos];
            if (replay && v >= n) {
                fprintf(stderr, "replay divergence: choice %u of %u at %zu\n",
                        v, n, pos);
                _exit(3);
            }
            if (!replay && arity[pos] != n) {
                fprintf(stderr,
                        "nondeterministic scenario: arity %u was %u at %zu\n",
                        n, arity[pos], pos);
                _exit(3);
            }
        } else {
            choices.push_back(0);
            arity.push_back((uint16_t)n);
            if (cur && pos < 16000) {
                cur->choice[pos] = 0;
                cur->n = (uint32_t)choices.size();
            }
        }
        ++pos;
        if (!replay && nshards > 1 && pos == shard_depth) {
            if (!mine()) throw Skip{};
        }
        return v;
    }
    bool mine() const {
        uint64_t h = 1234567;
        for (size_t i = 0; i < pos && i < shard_depth; ++i)
            h = mix(h, choices[i] + 1);
        return (int)(h % (uint64_t)nshards) == shard;
    }
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[choose((unsigned)v.size())];
    }
    // Note one operation (transition) of the history.
    [[gnu::format(printf, 2, 3)]] void op(const char* f, ...) {
        ++local_transitions;
        if (!tracing) return;
        va_list ap;
        va_start(ap, f);
        trace.push_back(vfmt(f, ap));
        va_end(ap);
    }
    [[gnu::format(printf, 2, 3)]] void note(const char* f, ...) {
        if (!tracing) return;
        va_list ap;
        va_start(ap, f);
        trace.push_back(vfmt(f, ap));
        va_end(ap);
    }
    void state(uint64_t h) {
        if (st) st->states.insert(h);
    }
    void outcome(uint64_t h) {
        if (st) st->outcomes.insert(h);
    }
    void count(const char* name, uint64_t n = 1) {
        if (st) st->counters[name] += n;
    }
    [[gnu::format(printf, 3, 4)]] void require(bool c, const char* f, ...) {
        if (__builtin_expect(c, 1)) return;
        va_list ap;
        va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        throw Violation{s};
    }
    [[noreturn, gnu::format(printf, 2, 3)]] void fail(const char* f, ...) {
        va_list ap;
        va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        throw Violation{s};
    }
    // A requirement whose failure is identified by a stable key, so that it can
    // be listed in known_findings.txt.
    [[gnu::format(printf, 4, 5)]] void require_k(bool c, const char* key,
                                                 const char* f, ...) {
        if (__builtin_expect(c, 1)) return;
        va_list ap;
        va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        throw Finding{key, s};
    }
    // To be called before the step has changed anything.
    [[noreturn]] void cut() {
        if (lin_on) throw Next{};
        throw Cut{};
    }
};

struct Scenario {
    const char* name;
    std::function<void(Ctx&)> run;
    unsigned shard_depth = 3;
    const char* props = nullptr;  // space separated; null: all
};

// The scenario F with long regular programs.
template <void (*F)(Ctx&)>
void longer(Ctx& c) {
    c.want_long = true;
    F(c);
}

inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if ((unsigned char)c < 0x20) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

namespace detail {
inline volatile uint64_t g_execs = 0;
inline uint64_t g_seen = 0;
inline int g_stuck = 0;
inline int g_hang_ticks = 20;
__attribute__((no_sanitize_thread)) inline void on_alarm(int) {
    if (g_execs == g_seen) {
        if (++g_stuck >= g_hang_ticks) {
            static const char m[] = "MC-HANG: no progress\n";
            [[maybe_unused]] auto r = write(2, m, sizeof(m) - 1);
            _exit(77);
        }
    } else {
        g_seen = g_execs;
        g_stuck = 0;
    }
}
}  // namespace detail

inline bool in_list(const char* list, const std::string& id) {
    if (!list) return true;
    std::istringstream is(list);
    std::string w;
    while (is >> w)
        if (w == id) return true;
    return false;
}

// Exit codes: 0 explored, no unlisted violation; 10 violation (file written to
// --viol); anything else: crash.
inline int run_main(int argc, char** argv, std::vector<Scenario> scenarios) {
    std::string out, curf, viol, replay, states, known, only;
    Ctx c;
    double budget = 1e9;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] {
            if (i + 1 >= argc) _exit(3);
            return std::string(argv[++i]);
        };
        if (a == "--out") out = next();
        else if (a == "--cur") curf = next();
        else if (a == "--viol") viol = next();
        else if (a == "--states") states = next();
        else if (a == "--replay") replay = next();
        else if (a == "--prop") c.prop = next();
        else if (a == "--known") known = next();
        else if (a == "--only") only = next();
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--hang") detail::g_hang_ticks = atoi(next().c_str());
        else if (a == "--shard") {
            if (sscanf(next().c_str(), "%d/%d", &c.shard, &c.nshards) != 2)
                _exit(3);
        } else if (a == "--arg") {
            std::string kv = next();
            auto e = kv.find('=');
            c.args[kv.substr(0, e)] = kv.substr(e + 1);
        } else {
            fprintf(stderr, "bad argument %s\n", a.c_str());
            return 3;
        }
    }
    {
        std::stringstream ss(known);
        std::string k;
        while (std::getline(ss, k, ','))
            if (!k.empty()) c.known.insert(k);
    }
    struct sigaction sa{};
    sa.sa_handler = detail::on_alarm;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    struct itimerval tv{{1, 0}, {1, 0}};
    setitimer(ITIMER_REAL, &tv, nullptr);

    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) return 3;
        char name[128] = "";
        char tok[128];
        bool have = false;
        std::vector<uint16_t> ch;
        while (fscanf(f, "%127s", tok) == 1) {
            std::string t = tok;
            if (t == "scenario:") {
                if (fscanf(f, "%127s", name) != 1) return 3;
            } else if (t == "prop:") {
                char p[32];
                if (fscanf(f, "%31s", p) == 1) c.prop = p;
            } else if (t == "tier:") {
                char p[32];
                if (fscanf(f, "%31s", p) == 1)
                    c.thorough = !strcmp(p, "thorough");
            } else if (t == "choices:") {
                have = true;
                int v;
                while (fscanf(f, "%d", &v) == 1) ch.push_back((uint16_t)v);
            } else if (t == "#") {
                int ch1;
                while ((ch1 = fgetc(f)) != '\n' && ch1 != EOF) {}
            }
        }
        fclose(f);
        if (!have) return 3;
        for (auto& s : scenarios) {
            if (std::string(s.name) != name) continue;
            c.replay = true;
            c.tracing = true;
            c.choices = ch;
            c.arity.assign(ch.size(), 0);
            c.nshards = 1;
            int rc = 0;
            std::string msg;
            try {
                s.run(c);
            } catch (Violation& v) {
                msg = v.msg;
                rc = 10;
            } catch (Finding& v) {
                msg = v.key + ": " + v.msg;
                rc = 10;
            } catch (Cut&) {
            } catch (Next&) {
            } catch (Skip&) {
            }
            for (auto& t : c.trace) printf("  %s\n", t.c_str());
            if (rc) printf("REPLAYED VIOLATION: %s\n", msg.c_str());
            else printf("replay: no violation\n");
            return rc;
        }
        fprintf(stderr, "no scenario %s\n", name);
        return 3;
    }

    CurPage* cur = nullptr;
    if (!curf.empty()) {
        int fd = open(curf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(CurPage))) return 3;
        cur = (CurPage*)mmap(nullptr, sizeof(CurPage), PROT_READ | PROT_WRITE,
                             MAP_SHARED, fd, 0);
    }
    auto t0 = std::chrono::steady_clock::now();
    Stats st;
    c.st = &st;
    c.cur = cur;
    bool capped = false;
    std::string scen_json;
    auto violation = [&](const Scenario& s, const std::string& key,
                         const std::string& msg) {
        // Re-run the same choices with tracing on: replay before report.
        Ctx r;
        r.prop = c.prop;
        r.thorough = c.thorough;
        r.args = c.args;
        r.choices.assign(c.choices.begin(),
                         c.choices.begin() + (long)std::min(c.pos, c.choices.size()));
        r.arity.assign(r.choices.size(), 0);
        r.replay = true;
        r.tracing = true;
        std::string again = "(not reproduced in process)";
        try {
            s.run(r);
        } catch (Violation& v) {
            again = v.msg;
        } catch (Finding& v) {
            again = v.key + ": " + v.msg;
        } catch (Cut&) {
        } catch (Next&) {
        } catch (Skip&) {
        }
        FILE* f = viol.empty() ? stdout : fopen(viol.c_str(), "w");
        fprintf(f, "prop: %s\nscenario: %s\ntier: %s\n# %s%s%s\n# replayed: %s\n",
                c.prop.c_str(), s.name, c.thorough ? "thorough" : "quick",
                key.c_str(), key.empty() ? "" : ": ", msg.c_str(),
                again.c_str());
        for (auto& t : r.trace) fprintf(f, "# | %s\n", t.c_str());
        fprintf(f, "choices:");
        for (auto v : r.choices) fprintf(f, " %u", v);
        fprintf(f, "\n");
        if (f != stdout) fclose(f);
    };
    bool had_violation = false;
    for (auto& s : scenarios) {
        if (!in_list(s.props, c.prop)) continue;
        if (!only.empty() && only != s.name) continue;
        if (cur) snprintf(cur->scenario, sizeof cur->scenario, "%s", s.name);
        c.choices.clear();
        c.arity.clear();
        c.shard_depth = s.shard_depth;
        uint64_t e0 = st.executions, next_sample = 1, in_scen = 0;
        bool done = false;
        auto ts = std::chrono::steady_clock::now();
        while (!done) {
            c.begin();
            c.tracing = (in_scen == next_sample);
            c.trace.clear();
            if (cur) {
                cur->n = (uint32_t)std::min<size_t>(c.choices.size(), 16000);
                for (uint32_t i = 0; i < cur->n; ++i)
                    cur->choice[i] = c.choices[i];
                cur->execs = st.executions;
            }
            bool skipped = false;
            try {
                s.run(c);
                if (!(c.nshards == 1 || c.pos >= c.shard_depth || c.mine()))
                    skipped = true;
            } catch (Skip&) {
                skipped = true;
            } catch (Next&) {
            } catch (Cut&) {
                ++st.cuts;
            } catch (Finding& f) {
                if (c.known.count(f.key)) {
                    auto& k = st.known[f.key];
                    if (!k.first++) k.second = f.msg;
                } else if (c.nshards == 1 || c.pos >= c.shard_depth ||
                           c.mine()) {
                    violation(s, f.key, f.msg);
                    had_violation = true;
                    break;
                }
            } catch (Violation& v) {
                if (c.nshards == 1 || c.pos >= c.shard_depth || c.mine()) {
                    violation(s, "", v.msg);
                    had_violation = true;
                    break;
                }
            }
            if (!skipped) {
                ++st.executions;
                ++in_scen;
                st.transitions += c.local_transitions;
                if (c.tracing) {
                    next_sample = next_sample * 16 + 3;
                    std::string t = s.name;
                    t += ": ";
                    size_t k = 0;
                    for (auto& l : c.trace) {
                        if (k++) t += "; ";
                        t += l;
                        if (t.size() > 700) {
                            t += " ...";
                            break;
                        }
                    }
                    if (st.samples.size() < 12) st.samples.push_back(t);
                }
            }
            detail::g_execs = detail::g_execs + 1;
            // Advance: drop everything after the position that was reached, then
            // bump the deepest choice that has alternatives left.
            c.choices.resize(std::min(c.pos, c.choices.size()));
            c.arity.resize(c.choices.size());
            while (!c.choices.empty() &&
                   c.choices.back() + 1u >= c.arity.back()) {
                c.choices.pop_back();
                c.arity.pop_back();
            }
            if (c.choices.empty()) done = true;
            else ++c.choices.back();
            if (!done && (detail::g_execs & 63) == 0) {
                double el = std::chrono::duration<double>(
                                std::chrono::steady_clock::now() - t0)
                                .count();
                if (el > budget) {
                    capped = true;
                    break;
                }
            }
        }
        double el = std::chrono::duration<double>(
                        std::chrono::steady_clock::now() - ts)
                        .count();
        if (!scen_json.empty()) scen_json += ",";
        scen_json += json_str(s.name) + ":{" +
                     fmt("\"executions\":%llu,\"complete\":%s,\"s\":%.2f}",
                         (unsigned long long)(st.executions - e0),
                         done ? "true" : "false", el);
        if (had_violation) break;
    }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f,
                "{\"executions\":%llu,\"transitions\":%llu,\"cuts\":%llu,"
                "\"states\":%zu,\"outcomes\":%zu,\"capped\":%s,"
                "\"scenarios\":{%s},",
                (unsigned long long)st.executions,
                (unsigned long long)st.transitions,
                (unsigned long long)st.cuts, st.states.size(),
                st.outcomes.size(), capped ? "true" : "false",
                scen_json.c_str());
        fprintf(f, "\"counters\":{");
        bool first = true;
        for (auto& k : st.counters) {
            fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(k.first).c_str(),
                    (unsigned long long)k.second);
            first = false;
        }
        fprintf(f, "},\"known\":{");
        first = true;
        for (auto& k : st.known) {
            fprintf(f, "%s%s:[%llu,%s]", first ? "" : ",",
                    json_str(k.first).c_str(),
                    (unsigned long long)k.second.first,
                    json_str(k.second.second).c_str());
            first = false;
        }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto& k : st.samples) {
            fprintf(f, "%s%s", first ? "" : ",", json_str(k).c_str());
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
    }
    if (!states.empty()) {
        FILE* f = fopen(states.c_str(), "wb");
        st.states.dump(f);
        fclose(f);
    }
    return had_violation ? 10 : 0;
}

}  // namespace mc
