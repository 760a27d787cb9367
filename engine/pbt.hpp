// A small choice-sequence property-based testing engine.
//
// A test is a function of a Source. Every random decision it takes goes through
// Source::draw(n), which yields an integer in [0, n). The sequence of decisions
// is the case: it can be replayed, hashed, written to a file and shrunk
// (deleting and lowering decisions) without knowing what they mean.
//
// Cases run in worker processes. A worker announces the case it is about to run
// in shared memory, so a crash, a sanitizer report, a wrong exit or a hang is
// attributed to a case by the parent, which reproduces and shrinks it in forked
// children.
#pragma once

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <cxxabi.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifndef VERIF_PLAIN
#include <sanitizer/allocator_interface.h>
#endif

namespace pbt
{

typedef std::uint64_t u64;

/// The bytes that are allocated (not known without a sanitizer).
inline std::size_t bytes_in_use()
{
#ifdef VERIF_PLAIN
    return 0;
#else
    return __sanitizer_get_current_allocated_bytes();
#endif
}
/// Without a sanitizer, nothing else bounds what a case may allocate.
inline void limit_memory()
{
#ifdef VERIF_PLAIN
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = static_cast<rlim_t>(2048) << 20;
    setrlimit(RLIMIT_AS, &rl);
#endif
}

struct Fail {
    std::string msg;
};
/// The generated case is outside the domain: it does not count.
struct Discard {
};

inline u64 splitmix(u64 &x)
{
    u64 z = (x += 0x9e3779b97f4a7c15ULL);
    z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z     = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

/// Where the labels, the known findings and the notes of a case go.
struct Sink {
    std::map<std::string, u64> *labels = nullptr;
    std::set<std::string> *known       = nullptr;
    std::ostream *notes                = nullptr;
};

class Source {
public:
    /// Random mode.
    Source(u64 seed, int size)
        : rng_(seed), random_(true), size_(size)
    {
    }
    /// Replay mode.
    Source(const std::vector<u64> &choices, int size)
        : rng_(0), random_(false), replay_(choices), size_(size)
    {
    }

    /// An integer in [0, n), 0 is the simplest.
    u64 draw(u64 n)
    {
        if (n <= 1) return 0; // Not a decision.
        u64 v = 0;
        if (random_) {
            v = splitmix(rng_) % n;
        } else if (pos_ < replay_.size()) {
            v = replay_[pos_];
            if (v >= n) v %= n;
        }
        ++pos_;
        log(v);
        return v;
    }
    /// A raw 64 bit value.
    u64 bits()
    {
        u64 v = 0;
        if (random_) {
            v = splitmix(rng_);
        } else if (pos_ < replay_.size()) {
            v = replay_[pos_];
        }
        ++pos_;
        log(v);
        return v;
    }
    /// True with probability num/den; false is the simplest.
    bool chance(unsigned num, unsigned den)
    {
        return draw(den) >= den - num;
    }
    /// An integer in [lo, hi], lo is the simplest.
    long range(long lo, long hi)
    {
        return lo + static_cast<long>(draw(static_cast<u64>(hi - lo) + 1));
    }
    /// An integer in [-m, m], 0 is the simplest.
    long sint(long m)
    {
        long v = static_cast<long>(draw(static_cast<u64>(2 * m) + 1));
        return (v & 1) ? (v + 1) / 2 : -(v / 2);
    }
    /// Chooses an index with the given weights; the first is the simplest.
    std::size_t pick(std::initializer_list<unsigned> weights)
    {
        unsigned total = 0;
        for (unsigned w : weights) total += w;
        u64 v         = draw(total);
        std::size_t i = 0;
        for (unsigned w : weights) {
            if (v < w) return i;
            v -= w;
            ++i;
        }
        return 0;
    }

    void nontrivial(bool c = true)
    {
        if (c) nontrivial_ = true;
    }
    bool is_nontrivial() const
    {
        return nontrivial_;
    }
    void label(const std::string &l)
    {
        if (sink.labels) ++(*sink.labels)[l];
    }
    /// The case shows a listed known finding, described in KNOWN_FINDINGS.
    void known(const std::string &id)
    {
        if (sink.known) sink.known->insert(id);
        label("known-finding:" + id);
    }
    bool noting() const
    {
        return sink.notes != nullptr;
    }
    std::ostream &note()
    {
        static std::ostringstream null;
        if (sink.notes) return *sink.notes;
        null.str("");
        return null;
    }
    void discard(bool c = true)
    {
        if (c) throw Discard{};
    }
    int size() const
    {
        return size_;
    }
    const std::vector<u64> &used() const
    {
        return used_;
    }
    u64 hash() const
    {
        u64 h = 1469598103934665603ULL;
        for (u64 v : used_) {
            h ^= v + 0x9e3779b97f4a7c15ULL;
            h *= 1099511628211ULL;
            h ^= h >> 29;
        }
        return h;
    }

    Sink sink;
    /// Survives the death of the process: [0] is the number of decisions.
    u64 *shared_log = nullptr;

private:
    void log(u64 v)
    {
        used_.push_back(v);
        if (shared_log && shared_log[0] < log_max) shared_log[++shared_log[0]] = v;
    }

public:
    static constexpr u64 log_max = (1u << 18) - 2;

private:
    u64 rng_;
    bool random_;
    std::vector<u64> replay_;
    std::vector<u64> used_;
    std::size_t pos_ = 0;
    int size_;
    bool nontrivial_ = false;
};

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond, ...)                                                       \
    do {                                                                       \
        if (!(cond)) {                                                         \
            std::ostringstream pbt_oss_;                                       \
            pbt_oss_ << "check failed: " #cond " [line " PBT_STR(__LINE__) "] " \
                     << "" __VA_ARGS__;                                        \
            throw pbt::Fail{ pbt_oss_.str() };                                 \
        }                                                                      \
    } while (0)

struct Test {
    const char *name;
    unsigned weight; // share of the cases
    void (*fn)(Source &);
};
inline std::vector<Test> &tests()
{
    static std::vector<Test> t;
    return t;
}
struct Register {
    Register(const char *n, unsigned w, void (*f)(Source &))
    {
        tests().push_back(Test{ n, w, f });
    }
};
#define PROP(name, weight)                                           \
    static void prop_##name(pbt::Source &);                          \
    static pbt::Register reg_##name(#name, weight, &prop_##name);    \
    static void prop_##name([[maybe_unused]] pbt::Source &s)

// ---------------------------------------------------------------------------

struct Slot { // shared memory, one per worker
    volatile u64 index;   // case number, plus one
    volatile u64 test;    // test index
    volatile u64 seed;    // seed of the case
    volatile u64 done;    // cases completed
    volatile u64 nontriv; // non trivial cases
    volatile u64 discard;
    volatile u64 failed;  // set when a check failed (no crash)
    char msg[2048];
};

enum Outcome { PASS, FAILED, DISCARDED };

inline Outcome run_case(const Test &t, Source &src, std::string &msg)
{
    try {
        t.fn(src);
        return PASS;
    } catch (const Fail &f) {
        msg = f.msg;
        return FAILED;
    } catch (const Discard &) {
        return DISCARDED;
    } catch (const std::exception &e) {
        int st   = 0;
        char *dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        msg      = std::string("unexpected exception ") + (dn ? dn : "?") + ": " + e.what();
        std::free(dn);
        return FAILED;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        return FAILED;
    }
}

struct Options {
    u64 seed          = 1;
    u64 cases         = 1000; // per worker
    unsigned workers  = 4;
    double max_s      = 600;
    double hang_cpu_s = 30;
    std::string out;    // json report
    std::string replay; // file to write the failing case to
    std::string only;
    int size = 100;
};

inline u64 case_seed(u64 seed, unsigned worker, u64 k)
{
    u64 x = seed * 0x100000001b3ULL + worker * 0x9e3779b97f4a7c15ULL + k * 0xd1342543de82ef95ULL + 12345;
    splitmix(x);
    return splitmix(x);
}
/// The test that case k of a worker runs: a fixed interleaving by weight.
inline std::size_t case_test(u64 cs)
{
    u64 total = 0;
    for (auto &t : tests()) total += t.weight;
    u64 x = cs ^ 0xabcdef1234567ULL;
    u64 v = splitmix(x) % total;
    for (std::size_t i = 0; i < tests().size(); ++i) {
        if (v < tests()[i].weight) return i;
        v -= tests()[i].weight;
    }
    return 0;
}

inline double cpu_of(pid_t pid)
{
    char path[64];
    std::snprintf(path, sizeof path, "/proc/%d/stat", static_cast<int>(pid));
    std::ifstream f(path);
    std::string line;
    std::getline(f, line);
    auto p = line.rfind(')');
    if (p == std::string::npos) return -1;
    std::istringstream is(line.substr(p + 2));
    std::string tok;
    unsigned long ut = 0, st = 0;
    for (int i = 3; i <= 15; ++i) {
        is >> tok;
        if (i == 14) ut = std::strtoul(tok.c_str(), nullptr, 10);
        if (i == 15) st = std::strtoul(tok.c_str(), nullptr, 10);
    }
    return static_cast<double>(ut + st) / static_cast<double>(sysconf(_SC_CLK_TCK));
}

inline double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

inline std::string json_escape(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"') o += "\\\"";
        else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else o += static_cast<char>(c);
    }
    return o;
}

inline std::vector<std::string> read_lines(const std::string &path)
{
    std::vector<std::string> r;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l)) r.push_back(l);
    return r;
}

struct ChildResult {
    bool failed   = false;
    bool discard  = false;
    std::string msg;
    std::string err; // tail of stderr
    std::vector<u64> used;
    std::string notes;
};

/// Runs a list of cases in a forked child. Only the last one may fail.
struct CaseRef {
    std::size_t test;
    bool by_seed;
    u64 seed;
    std::vector<u64> choices;
};
inline ChildResult run_child(const std::vector<CaseRef> &cases, int size, double cpu_s, bool notes, const std::string &tmp)
{
    ChildResult r;
    static u64 *shared = static_cast<u64 *>(mmap(nullptr, sizeof(u64) << 18, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    shared[0]        = 0;
    std::string base = tmp + "/child." + std::to_string(getpid());
    std::string fo = base + ".out", fe = base + ".err", fn = base + ".note";
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(e, 2);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        struct rlimit rl;
        rl.rlim_cur = static_cast<rlim_t>(cpu_s) + 1;
        rl.rlim_max = rl.rlim_cur + 2;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        limit_memory();
        Outcome o = PASS;
        std::string msg;
        std::ofstream nt;
        if (notes) nt.open(fn), nt << std::unitbuf;
        for (std::size_t i = 0; i < cases.size(); ++i) {
            const CaseRef &c = cases[i];
            Source src       = c.by_seed ? Source(c.seed, size) : Source(c.choices, size);
            if (notes && i + 1 == cases.size()) src.sink.notes = &nt;
            if (i + 1 == cases.size()) src.shared_log = shared;
            o = run_case(tests()[c.test], src, msg);
            if (i + 1 == cases.size() || o == FAILED) {
                break;
            }
        }
        std::ofstream f(fo);
        f << static_cast<int>(o) << "\n" << json_escape(msg) << "\n";
        f.close();
        _exit(o == FAILED ? 3 : 0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    auto lines = read_lines(fo);
    r.used.assign(shared + 1, shared + 1 + shared[0]);
    if (lines.size() >= 2) {
        int o     = std::atoi(lines[0].c_str());
        r.failed  = (o == FAILED);
        r.discard = (o == DISCARDED);
        r.msg     = lines[1];
    }
    if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) || lines.size() < 2) {
        r.failed = true;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL)))
            r.msg = "does not terminate";
        else if (WIFSIGNALED(st))
            r.msg = std::string("killed by signal ") + std::to_string(WTERMSIG(st));
        else
            r.msg = std::string("the process ended (status ") + std::to_string(WEXITSTATUS(st)) + ")";
        for (auto &l : read_lines(fe)) {
            if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find(": ThreadSanitizer") != std::string::npos || l.find("runtime error:") != std::string::npos ||
                l.find("ssertion") != std::string::npos || l.find("LeakSanitizer") != std::string::npos || l.find("terminate called") != std::string::npos) {
                r.msg += "; " + l;
                break;
            }
        }
    }
    if (notes) {
        for (auto &l : read_lines(fn)) {
            r.notes += l + "\n";
            if (r.notes.size() > 20000) break;
        }
        unlink(fn.c_str());
    }
    std::string tail;
    for (auto &l : read_lines(fe)) {
        tail += l + "\n";
        if (tail.size() > 6000) break;
    }
    r.err = tail;
    unlink(fo.c_str());
    unlink(fe.c_str());
    return r;
}

inline std::vector<u64> shrink(std::size_t test, std::vector<u64> best, int size, double budget_s, const std::string &tmp, u64 &tried)
{
    const double end = now() + budget_s;
    auto fails       = [&](const std::vector<u64> &c) {
        if (now() > end) return false;
        ++tried;
        ChildResult r = run_child({ CaseRef{ test, false, 0, c } }, size, 10, false, tmp);
        return r.failed && r.msg != "does not terminate";
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // Cut the tail.
        for (std::size_t n = best.size() / 2; n >= 1 && !best.empty(); n /= 2) {
            while (best.size() >= n) {
                std::vector<u64> c(best.begin(), best.end() - static_cast<long>(n));
                if (!fails(c)) break;
                best = c, progress = true;
            }
        }
        // Delete blocks.
        for (std::size_t n : { 16u, 8u, 4u, 2u, 1u }) {
            for (std::size_t i = 0; i + n <= best.size() && now() < end;) {
                std::vector<u64> c(best);
                c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + n));
                if (fails(c)) best = c, progress = true;
                else i += (n > 4 ? n / 2 : 1);
            }
        }
        // Zero blocks.
        for (std::size_t n : { 16u, 4u }) {
            for (std::size_t i = 0; i + n <= best.size() && now() < end; i += n) {
                std::vector<u64> c(best);
                bool any = false;
                for (std::size_t k = i; k < i + n; ++k) any |= (c[k] != 0), c[k] = 0;
                if (any && fails(c)) best = c, progress = true;
            }
        }
        // Lower single values.
        for (std::size_t i = 0; i < best.size() && now() < end; ++i) {
            if (best[i] == 0) continue;
            std::vector<u64> c(best);
            c[i] = 0;
            if (fails(c)) {
                best = c, progress = true;
                continue;
            }
            u64 lo = 0, hi = best[i]; // lo passes, hi fails
            for (int it = 0; it < 12 && hi - lo > 1 && now() < end; ++it) {
                u64 mid = lo + (hi - lo) / 2;
                c[i]    = mid;
                if (fails(c)) hi = mid;
                else lo = mid;
            }
            if (hi < best[i]) best[i] = hi, progress = true;
        }
    }
    return best;
}

inline void worker_main(const Options &o, unsigned w, Slot *slot, const std::string &tmp)
{
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    std::string fe = tmp + "/worker." + std::to_string(w) + ".err";
    int e          = open(fe.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(e, 2);
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    limit_memory();
    std::map<std::string, u64> labels;
    std::set<std::string> known;
    std::vector<u64> hashes;
    std::vector<std::pair<u64, u64>> samples; // (test, seed)
    std::map<std::size_t, int> per_test;
    double start = now();
    for (u64 k = 0; k < o.cases; ++k) {
        u64 cs        = case_seed(o.seed, w, k);
        std::size_t t = case_test(cs);
        if (!o.only.empty() && o.only != tests()[t].name) continue;
        slot->test  = t;
        slot->seed  = cs;
        slot->index = k + 1;
        Source src(cs, o.size);
        src.sink.labels = &labels;
        src.sink.known  = &known;
        std::string msg;
        Outcome r = run_case(tests()[t], src, msg);
        if (r == FAILED) {
            std::strncpy(slot->msg, msg.c_str(), sizeof(slot->msg) - 1);
            slot->failed = 1;
            _exit(3);
        }
        slot->done = slot->done + 1;
        if (r == DISCARDED) slot->discard = slot->discard + 1;
        else {
            ++labels[std::string("test:") + tests()[t].name];
            if (src.is_nontrivial()) {
                slot->nontriv = slot->nontriv + 1;
                if (hashes.size() < 4000000) hashes.push_back(src.hash() ^ (t * 0x9e37ULL));
                if (w == 0 && per_test[t] < 2 && src.used().size() < 400 && (k > 20)) {
                    ++per_test[t];
                    samples.push_back({ t, cs });
                }
            }
        }
        // Keep what the code under test prints from filling the disk.
        if ((k & 1023) == 0 && ftruncate(e, 0) == 0) lseek(e, 0, SEEK_SET);
        if (now() - start > o.max_s) break;
    }
    std::ofstream f(tmp + "/worker." + std::to_string(w) + ".rep");
    f << labels.size() << "\n";
    for (auto &l : labels) f << l.second << " " << l.first << "\n";
    f << known.size() << "\n";
    for (auto &l : known) f << l << "\n";
    f << samples.size() << "\n";
    for (auto &p : samples) f << p.first << " " << p.second << "\n";
    f.close();
    std::ofstream h(tmp + "/worker." + std::to_string(w) + ".hash", std::ios::binary);
    h.write(reinterpret_cast<const char *>(hashes.data()), static_cast<std::streamsize>(hashes.size() * sizeof(u64)));
    h.close();
    slot->index = 0;
    _exit(0);
}

inline std::size_t test_by_name(const std::string &n)
{
    for (std::size_t i = 0; i < tests().size(); ++i)
        if (n == tests()[i].name) return i;
    std::fprintf(stderr, "no test named %s\n", n.c_str());
    std::exit(2);
}

inline void write_replay(const std::string &path, const std::vector<CaseRef> &cases, int size, const std::string &msg, const std::string &notes, const std::string &err)
{
    std::ofstream f(path);
    f << "pbt-replay 1\nsize " << size << "\ncases " << cases.size() << "\n";
    for (auto &c : cases) {
        f << tests()[c.test].name << " ";
        if (c.by_seed) f << "seed " << c.seed << "\n";
        else {
            f << "choices " << c.choices.size();
            for (u64 v : c.choices) f << " " << v;
            f << "\n";
        }
    }
    f << "# " << msg << "\n";
    std::istringstream a(notes), b(err);
    std::string l;
    while (std::getline(a, l)) f << "# input: " << l << "\n";
    while (std::getline(b, l)) f << "# stderr: " << l << "\n";
}

inline int do_replay(const std::string &path, const std::string &tmp)
{
    std::ifstream f(path);
    std::string w;
    int ver = 0, size = 100;
    std::size_t n = 0;
    f >> w >> ver >> w >> size >> w >> n;
    std::vector<CaseRef> cases;
    for (std::size_t i = 0; i < n; ++i) {
        std::string name, kind;
        f >> name >> kind;
        CaseRef c{ test_by_name(name), kind == "seed", 0, {} };
        if (c.by_seed) f >> c.seed;
        else {
            std::size_t k = 0;
            f >> k;
            c.choices.resize(k);
            for (auto &v : c.choices) f >> v;
        }
        cases.push_back(c);
    }
    ChildResult r = run_child(cases, size, 60, true, tmp);
    std::printf("%s%s\n%s%s", r.failed ? "FAILED: " : "passed", r.msg.c_str(), r.notes.c_str(), r.failed ? r.err.c_str() : "");
    return r.failed ? 1 : 0;
}

inline int pbt_main(int argc, char **argv)
{
    Options o;
    std::string replay_in, tmp;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = static_cast<unsigned>(std::atoi(v.c_str()));
        else if (a == "--max-s") o.max_s = std::atof(v.c_str());
        else if (a == "--out") o.out = v;
        else if (a == "--replay-out") o.replay = v;
        else if (a == "--only") o.only = v;
        else if (a == "--size") o.size = std::atoi(v.c_str());
        else if (a == "--tmp") tmp = v;
        else if (a == "--replay") replay_in = v;
        else {
            std::fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    bool own_tmp = tmp.empty();
    if (own_tmp) {
        char b[] = "/tmp/pbt.XXXXXX";
        if (!mkdtemp(b)) return 2;
        tmp = b;
    }
    if (!replay_in.empty()) {
        int r = do_replay(replay_in, tmp);
        if (own_tmp) rmdir(tmp.c_str());
        return r;
    }
    double t0 = now();
    Slot *slots = static_cast<Slot *>(mmap(nullptr, sizeof(Slot) * o.workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::memset(static_cast<void *>(slots), 0, sizeof(Slot) * o.workers);
    std::vector<pid_t> pids(o.workers);
    std::vector<bool> alive(o.workers, true);
    std::vector<u64> last(o.workers, 0);
    std::vector<double> last_cpu(o.workers, 0.);
    std::fflush(nullptr);
    for (unsigned w = 0; w < o.workers; ++w) {
        pids[w] = fork();
        if (pids[w] == 0) worker_main(o, w, &slots[w], tmp);
    }
    int bad     = -1;
    bool hang   = false;
    unsigned nl = o.workers;
    int bad_status = 0;
    while (nl > 0 && bad < 0) {
        int st    = 0;
        pid_t pid = waitpid(-1, &st, WNOHANG);
        if (pid > 0) {
            for (unsigned w = 0; w < o.workers; ++w) {
                if (pids[w] == pid) {
                    alive[w] = false;
                    --nl;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = static_cast<int>(w), bad_status = st;
                    // exit(0) by the code under test, in the middle of a case.
                    else if (slots[w].index != 0) bad = static_cast<int>(w), bad_status = st;
                }
            }
            continue;
        }
        usleep(20000);
        for (unsigned w = 0; w < o.workers; ++w) {
            if (!alive[w]) continue;
            if (slots[w].index != last[w]) {
                last[w]     = slots[w].index;
                last_cpu[w] = cpu_of(pids[w]);
            } else {
                double c = cpu_of(pids[w]);
                if (c - last_cpu[w] > o.hang_cpu_s) {
                    bad = static_cast<int>(w), hang = true;
                    break;
                }
            }
        }
    }
    for (unsigned w = 0; w < o.workers; ++w) {
        if (alive[w]) {
            kill(pids[w], SIGKILL);
            waitpid(pids[w], nullptr, 0);
        }
    }
    u64 done = 0, nontriv = 0, disc = 0;
    for (unsigned w = 0; w < o.workers; ++w) done += slots[w].done, nontriv += slots[w].nontriv, disc += slots[w].discard;
    std::string failure, fnotes, ferr;
    int rc = 0;
    if (bad >= 0) {
        Slot &sl      = slots[bad];
        std::size_t t = sl.test;
        if (sl.index == 0 && !hang) {
            // The worker failed outside of a case, e.g., a leak reported at exit.
            std::fprintf(stderr, "worker failed outside of a case (status %d)\n", bad_status);
            for (auto &l : read_lines(tmp + "/worker." + std::to_string(bad) + ".err")) std::fprintf(stderr, "%s\n", l.c_str());
            return 2;
        }
        std::vector<CaseRef> ref{ CaseRef{ t, true, sl.seed, {} } };
        ChildResult r = run_child(ref, o.size, o.hang_cpu_s, true, tmp);
        u64 tried     = 0;
        if (r.failed && r.msg != "does not terminate") {
            std::vector<u64> ch = r.used;
            std::vector<CaseRef> cref{ CaseRef{ t, false, 0, ch } };
            if (run_child(cref, o.size, 20, false, tmp).failed) {
                ch  = shrink(t, ch, o.size, 40, tmp, tried);
                ref = { CaseRef{ t, false, 0, ch } };
            }
        } else if (!r.failed) {
            // Depends on the cases before it: replay the worker's history.
            std::vector<CaseRef> hist;
            for (u64 k = 0; k < sl.index; ++k) {
                u64 cs         = case_seed(o.seed, static_cast<unsigned>(bad), k);
                std::size_t tt = case_test(cs);
                if (!o.only.empty() && o.only != tests()[tt].name) continue;
                hist.push_back(CaseRef{ tt, true, cs, {} });
            }
            double until = now() + 90;
            if (run_child(hist, o.size, 300, false, tmp).failed) {
                ref = hist;
                // Drop prefixes, then blocks, of the history.
                for (std::size_t n = ref.size() / 2; n >= 1 && now() < until; n /= 2) {
                    for (std::size_t i = 0; i + n < ref.size() && now() < until;) {
                        std::vector<CaseRef> c(ref);
                        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + n));
                        if (run_child(c, o.size, 300, false, tmp).failed) ref = c;
                        else i += n;
                    }
                }
            } else {
                std::fprintf(stderr, "a worker failed on a case that does not fail again (status %d, %s)\n", bad_status, sl.msg);
                for (auto &l : read_lines(tmp + "/worker." + std::to_string(bad) + ".err")) std::fprintf(stderr, "%s\n", l.c_str());
                rc = 4;
            }
        }
        if (rc == 0) {
            // Three replays before reporting.
            int again = 0;
            for (int i = 0; i < 3; ++i) {
                ChildResult z = run_child(ref, o.size, o.hang_cpu_s, true, tmp);
                if (z.failed) {
                    ++again;
                    failure = z.msg, fnotes = z.notes, ferr = z.err;
                }
                if (hang) {
                    again = 3;
                    break;
                }
            }
            if (again == 0) {
                std::fprintf(stderr, "failure did not replay\n");
                rc = 4;
            } else {
                rc = 1;
                write_replay(o.replay, ref, o.size, std::string(tests()[t].name) + ": " + failure, fnotes, ferr);
            }
            failure = std::string(tests()[t].name) + ": " + failure;
            done += tried;
        }
    }
    // Reports of the workers.
    std::map<std::string, u64> labels;
    std::set<std::string> known;
    std::vector<std::pair<u64, u64>> samples;
    std::vector<u64> hashes;
    for (unsigned w = 0; w < o.workers; ++w) {
        std::ifstream f(tmp + "/worker." + std::to_string(w) + ".rep");
        std::size_t n = 0;
        if (!(f >> n)) continue;
        for (std::size_t i = 0; i < n; ++i) {
            u64 c;
            std::string l;
            f >> c;
            f.get();
            std::getline(f, l);
            labels[l] += c;
        }
        f >> n;
        std::string l;
        std::getline(f, l);
        for (std::size_t i = 0; i < n; ++i) {
            std::getline(f, l);
            known.insert(l);
        }
        f >> n;
        for (std::size_t i = 0; i < n; ++i) {
            u64 a, b;
            f >> a >> b;
            samples.push_back({ a, b });
        }
        std::ifstream h(tmp + "/worker." + std::to_string(w) + ".hash", std::ios::binary);
        h.seekg(0, std::ios::end);
        std::size_t sz = static_cast<std::size_t>(h.tellg()) / sizeof(u64);
        h.seekg(0);
        std::size_t at = hashes.size();
        hashes.resize(at + sz);
        h.read(reinterpret_cast<char *>(hashes.data() + at), static_cast<std::streamsize>(sz * sizeof(u64)));
    }
    std::sort(hashes.begin(), hashes.end());
    u64 distinct = static_cast<u64>(std::unique(hashes.begin(), hashes.end()) - hashes.begin());
    if (!o.out.empty()) {
        std::ofstream f(o.out);
        f << "{\"evaluations\": " << done - disc << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << distinct << ", \"discarded\": " << disc;
        f << ", \"wall_s\": " << now() - t0 << ", \"violation\": " << (rc == 1 ? "true" : "false");
        f << ", \"failure\": \"" << json_escape(failure) << "\", \"known\": [";
        bool first = true;
        for (auto &k : known) f << (first ? "" : ", ") << "\"" << json_escape(k) << "\"", first = false;
        f << "], \"labels\": {";
        first = true;
        for (auto &k : labels) f << (first ? "" : ", ") << "\"" << json_escape(k.first) << "\": " << k.second, first = false;
        f << "}, \"samples\": [";
        first = true;
        if (rc == 0) {
            for (auto &p : samples) {
                ChildResult r = run_child({ CaseRef{ p.first, true, p.second, {} } }, o.size, 30, true, tmp);
                std::string nn = r.notes.substr(0, 700);
                f << (first ? "" : ", ") << "{\"test\": \"" << tests()[p.first].name << "\", \"seed\": \"" << p.second << "\", \"input\": \"" << json_escape(nn) << "\"}";
                first = false;
            }
        } else {
            f << "{\"failing\": \"" << json_escape(failure + " | " + fnotes) << "\"}";
        }
        f << "]}\n";
    }
    for (unsigned w = 0; w < o.workers; ++w)
        for (const char *x : { ".err", ".rep", ".hash" }) unlink((tmp + "/worker." + std::to_string(w) + x).c_str());
    if (own_tmp) rmdir(tmp.c_str());
    if (rc == 1) std::printf("FAILURE %s\n%s", failure.c_str(), fnotes.c_str());
    return rc;
}

} // namespace pbt
