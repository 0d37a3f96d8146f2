// Common support for the conformance drivers: seeded randomness, command line, and ndjson trace output.
// A trace file holds one JSON object per line; each line is one history {"id","k",("init"),"ev":[...]}
// that the TLA+ trace specifications step through event by event.
#pragma once
#include <nlohmann/json.hpp>

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <unistd.h>
#include <vector>

namespace vp
{
using J = nlohmann::json;

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int64_t  in(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
    bool     chance(int pct) { return static_cast<int>(below(100)) < pct; }
    double   unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
    template <class C>
    auto& pick(C& c)
    {
        return c[below(c.size())];
    }
    template <class C>
    const auto& pick(const C& c)
    {
        return c[below(c.size())];
    }
    template <class C>
    void shuffle(C& c)
    {
        for (size_t i = c.size(); i > 1; --i)
        {
            std::swap(c[i - 1], c[below(i)]);
        }
    }
};

inline uint64_t      seed     = 1;
inline bool          thorough = false;
inline std::string   out_path, script_path, mode = "all", scratch = ".";
inline std::ofstream out;
inline uint64_t      histories = 0, events = 0;
inline std::string   note_buf;

// what the driver is doing right now; printed if the process dies, so that a crash names the call that caused it
inline void note(const std::string& s) { note_buf = s; }

inline void on_signal(int sig)
{
    const char* m = "VP-CRASH signal ";
    (void)!write(2, m, strlen(m));
    char b[16];
    int  n = snprintf(b, sizeof b, "%d in: ", sig);
    (void)!write(2, b, static_cast<size_t>(n));
    (void)!write(2, note_buf.data(), note_buf.size());
    (void)!write(2, "\n", 1);
    _exit(70);
}

inline void init(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; i += 2)
    {
        const std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = std::stoull(v);
        else if (a == "--tier") thorough = v == "thorough";
        else if (a == "--out") out_path = v;
        else if (a == "--script") script_path = v;
        else if (a == "--mode") mode = v;
        else if (a == "--scratch") scratch = v;
    }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) std::signal(s, on_signal);
    std::set_terminate(
        []
        {
            const char* m = "VP-CRASH exception in: ";
            (void)!write(2, m, strlen(m));
            (void)!write(2, note_buf.data(), note_buf.size());
            (void)!write(2, "\n", 1);
            _exit(71);
        });
    out.open(out_path);
    if (!out)
    {
        std::cerr << "cannot open " << out_path << "\n";
        std::exit(2);
    }
}

inline bool is_mode(const std::string& m) { return mode == "all" || mode == m; }

struct History
{
    J h;
    explicit History(const std::string& kind)
    {
        h["id"] = histories;
        h["k"]  = kind;
        h["ev"] = J::array();
    }
    History(const std::string& kind, J init) : History(kind) { h["init"] = std::move(init); }
    void   ev(J e) { h["ev"].push_back(std::move(e)); ++events; }
    size_t size() const { return h["ev"].size(); }
    void   close()
    {
        if (h["ev"].empty()) return;
        ++histories;
        out << h.dump() << "\n";
    }
};

// groups many independent events of the same kind into histories of bounded length
struct Table
{
    std::string kind;
    size_t      chunk;
    History     cur;
    explicit Table(std::string k, size_t c = 200) : kind{std::move(k)}, chunk{c}, cur{kind} {}
    void ev(J e)
    {
        cur.ev(std::move(e));
        if (cur.size() >= chunk) flush();
    }
    void flush()
    {
        cur.close();
        cur = History{kind};
    }
    ~Table() { flush(); }
};

inline std::vector<J> script()
{
    std::vector<J> r;
    if (script_path.empty()) return r;
    std::ifstream f(script_path);
    std::string   l;
    while (std::getline(f, l))
        if (!l.empty()) r.push_back(J::parse(l));
    return r;
}

inline int finish()
{
    out.flush();
    out.close();
    std::cerr << "VP-DONE histories=" << histories << " events=" << events << "\n";
    return 0;
}


// 64-bit words as eight base-256 digits, least significant first (TLC integers are 32-bit)
inline J word(uint64_t v)
{
    J r = J::array();
    for (int i = 0; i < 8; ++i) r.push_back((v >> (8 * i)) & 0xFF);
    return r;
}
inline uint64_t unword(const J& j)
{
    uint64_t v = 0;
    for (int i = 7; i >= 0; --i) v = (v << 8) | j[static_cast<size_t>(i)].get<uint64_t>();
    return v;
}
inline std::string dec(uint64_t v) { return std::to_string(v); }
}  // namespace vp
