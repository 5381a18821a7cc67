// Monitor library of the harnesses: case loop, seeded choices, reports.
// A harness registers one case function per property; the runner (tools/check.py) splits case numbers over worker
// processes, so a crash or hang is attributed to a case and replayed by number.
#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <iterator>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace mon
{
    class Rng
    {
    public:
        explicit Rng(uint64_t seed): S(seed)
        {}
        Rng(uint64_t seed, uint64_t stream);
        uint64_t Next();
        // [0, n)
        uint64_t Below(uint64_t n)
        {
            return n ? Next() % n : 0;
        }
        // [a, b]
        int64_t Range(int64_t a, int64_t b)
        {
            return a + int64_t(Below(uint64_t(b - a) + 1));
        }
        bool Chance(unsigned percent)
        {
            return Below(100) < percent;
        }
        uint8_t Byte()
        {
            return uint8_t(Next() >> 13);
        }
        double Unit()
        {
            return double(Next() >> 11) / double(1ull << 53);
        }
        template<class C> auto& Pick(C& c)
        {
            return c[Below(std::size(c))];
        }
        template<class C> const auto& Pick(const C& c)
        {
            return c[Below(std::size(c))];
        }
        template<class T> T Of(std::initializer_list<T> l)
        {
            return *(l.begin() + Below(l.size()));
        }
        std::vector<uint8_t> Bytes(size_t n);

    private:
        uint64_t S;
    };

    uint64_t Hash(const std::string& s);
    std::string Hex(const uint8_t* p, size_t n);
    std::string Hex(const std::vector<uint8_t>& v);
    std::string Quote(const std::string& s); // printable

    // The property does not hold. key names what failed (not the random input), detail shows the input.
    void Violation(const std::string& key, const std::string& detail);
    void Count(const std::string& name, uint64_t n = 1);
    void Max(const std::string& name, uint64_t v);
    // A distinct, non-trivial thing the monitor observed
    void Distinct(const std::string& what);
    void Distinct(uint64_t hash);
    // What the monitor observed, written out (a few are kept)
    void Sample(const std::string& text);
    bool Thorough();
    bool Verbose(); // replaying one case
    uint64_t Seed();
    const std::string& Scratch(); // a directory of this worker
    std::string Repo();           // /repo

    using TCaseFn = std::function<void(Rng&, uint64_t)>;
    struct TReg
    {
        TReg(const char* name, TCaseFn fn, std::function<void()> atEnd = nullptr);
    };
}

#define MON_CONCAT2(a, b) a##b
#define MON_CONCAT(a, b) MON_CONCAT2(a, b)
#define MON_CHECK(name, fn) static ::mon::TReg MON_CONCAT(monReg, __LINE__)(name, fn)

// Reports with a key when the condition does not hold
#define MON_EXPECT(cond, key, detail)                                                                                  \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            std::ostringstream monS;                                                                                   \
            monS << detail;                                                                                            \
            ::mon::Violation((key), monS.str());                                                                       \
        }                                                                                                              \
    } while (0)
