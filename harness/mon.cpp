#include "mon.h"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <mutex>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

namespace mon
{
    namespace
    {
        struct TState
        {
            std::mutex M;
            FILE* Out = nullptr;
            std::map<std::string, uint64_t> Counters;
            std::map<std::string, uint64_t> Maxes;
            std::unordered_set<uint64_t> Hashes;
            std::map<std::string, int> KeyCount;
            int Samples = 0;
            uint64_t Case = 0;
            bool Thorough = false;
            bool Verbose = false;
            uint64_t Seed = 1;
            std::string Scratch;
            std::string Repo = "/repo";
        };
        TState& St()
        {
            static TState* s = new TState;
            return *s;
        }
        struct TEntry
        {
            TCaseFn Fn;
            std::function<void()> AtEnd;
        };
        std::map<std::string, TEntry>& Regs()
        {
            static std::map<std::string, TEntry>* r = new std::map<std::string, TEntry>;
            return *r;
        }

        std::string Json(const std::string& s)
        {
            std::string r = "\"";
            for (unsigned char c: s) {
                if (c == '"' || c == '\\') {
                    r += '\\';
                    r += char(c);
                } else if (c < 0x20 || c >= 0x7f) {
                    char b[8];
                    snprintf(b, sizeof b, "\\u%04x", c);
                    r += b;
                } else {
                    r += char(c);
                }
            }
            return r + "\"";
        }

        void Line(const std::string& l)
        {
            auto& s = St();
            fputs((l + "\n").c_str(), s.Out);
            fflush(s.Out);
        }

        // Seconds of CPU time or ten times as many of real time for one case; the runner repeats a case before calling it a hang
        int CaseLimit = 20;

        void OnAlarm(int)
        {
            char b[64];
            int n = snprintf(b, sizeof b, "\nMON-TIMEOUT case\n");
            (void)!write(2, b, n);
            _exit(98);
        }

        void Arm(int s)
        {
            itimerval v{};
            v.it_value.tv_sec = s;
            setitimer(ITIMER_PROF, &v, nullptr);
            itimerval r{};
            r.it_value.tv_sec = s * 6;
            setitimer(ITIMER_REAL, &r, nullptr);
        }
    }

    Rng::Rng(uint64_t seed, uint64_t stream): S(seed * 0x9E3779B97F4A7C15ull ^ (stream + 1) * 0xD1B54A32D192ED03ull)
    {
        Next();
        Next();
    }

    uint64_t Rng::Next()
    {
        uint64_t z = (S += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    std::vector<uint8_t> Rng::Bytes(size_t n)
    {
        std::vector<uint8_t> r(n);
        for (auto& b: r) {
            b = Byte();
        }
        return r;
    }

    uint64_t Hash(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c: s) {
            h = (h ^ c) * 1099511628211ull;
        }
        h ^= h >> 29;
        return h * 0x9E3779B97F4A7C15ull;
    }

    std::string Hex(const uint8_t* p, size_t n)
    {
        std::string r;
        char b[4];
        for (size_t i = 0; i < n; ++i) {
            snprintf(b, sizeof b, i ? " %02x" : "%02x", p[i]);
            r += b;
        }
        return r;
    }
    std::string Hex(const std::vector<uint8_t>& v)
    {
        return Hex(v.data(), v.size());
    }
    std::string Quote(const std::string& s)
    {
        return Json(s);
    }

    void Violation(const std::string& key, const std::string& detail)
    {
        auto& s = St();
        std::lock_guard<std::mutex> l(s.M);
        int n = ++s.KeyCount[key];
        if (n <= 3 || s.Verbose) {
            Line("{\"t\":\"V\",\"key\":" + Json(key) + ",\"case\":" + std::to_string(s.Case) + ",\"detail\":" +
                 Json(detail.substr(0, 6000)) + "}");
        }
        if (s.Verbose) {
            std::cerr << "VIOLATION-DETAIL " << key << ": " << detail << std::endl;
        }
    }
    void Count(const std::string& name, uint64_t n)
    {
        auto& s = St();
        std::lock_guard<std::mutex> l(s.M);
        s.Counters[name] += n;
    }
    void Max(const std::string& name, uint64_t v)
    {
        auto& s = St();
        std::lock_guard<std::mutex> l(s.M);
        auto& x = s.Maxes[name];
        x = std::max(x, v);
    }
    void Distinct(uint64_t h)
    {
        auto& s = St();
        std::lock_guard<std::mutex> l(s.M);
        if (s.Hashes.size() < 300000) {
            s.Hashes.insert(h);
        }
    }
    void Distinct(const std::string& what)
    {
        Distinct(Hash(what));
    }
    void Sample(const std::string& text)
    {
        auto& s = St();
        std::lock_guard<std::mutex> l(s.M);
        if (s.Samples < 2) {
            ++s.Samples;
            Line("{\"t\":\"S\",\"case\":" + std::to_string(s.Case) + ",\"text\":" + Json(text.substr(0, 3000)) + "}");
        }
    }
    bool Thorough()
    {
        return St().Thorough;
    }
    bool Verbose()
    {
        return St().Verbose;
    }
    uint64_t Seed()
    {
        return St().Seed;
    }
    const std::string& Scratch()
    {
        return St().Scratch;
    }
    std::string Repo()
    {
        return St().Repo;
    }

    TReg::TReg(const char* name, TCaseFn fn, std::function<void()> atEnd)
    {
        Regs()[name] = TEntry{std::move(fn), std::move(atEnd)};
    }

    int Run(int argc, char** argv)
    {
        // prop seed first count step out scratch [thorough] [verbose] [limit=N]
        if (argc < 8) {
            for (auto& r: Regs()) {
                std::cout << r.first << "\n";
            }
            return 2;
        }
        auto& s = St();
        std::string prop = argv[1];
        s.Seed = strtoull(argv[2], nullptr, 10);
        uint64_t first = strtoull(argv[3], nullptr, 10);
        uint64_t end = strtoull(argv[4], nullptr, 10);
        uint64_t step = strtoull(argv[5], nullptr, 10);
        s.Out = fopen(argv[6], "a");
        s.Scratch = argv[7];
        for (int i = 8; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "thorough") {
                s.Thorough = true;
            } else if (a == "verbose") {
                s.Verbose = true;
            } else if (a.rfind("limit=", 0) == 0) {
                CaseLimit = atoi(a.c_str() + 6);
            } else if (a.rfind("repo=", 0) == 0) {
                s.Repo = a.substr(5);
            }
        }
        mkdir(s.Scratch.c_str(), 0777);
        auto it = Regs().find(prop);
        if (it == Regs().end() || !s.Out) {
            std::cerr << "no such check " << prop << std::endl;
            return 2;
        }
        rlimit nocore{0, 0};
        setrlimit(RLIMIT_CORE, &nocore);
        signal(SIGPROF, OnAlarm);
        signal(SIGALRM, OnAlarm);
        signal(SIGPIPE, SIG_IGN);
        auto progress = std::string(argv[6]) + ".case";
        FILE* pf = fopen(progress.c_str(), "w");
        auto flush = [&] {
            std::lock_guard<std::mutex> l(s.M);
            std::string c = "{\"t\":\"C\",\"c\":{";
            bool f = true;
            for (auto& x: s.Counters) {
                c += (f ? "" : ",") + Json(x.first) + ":" + std::to_string(x.second);
                f = false;
            }
            c += "},\"m\":{";
            f = true;
            for (auto& x: s.Maxes) {
                c += (f ? "" : ",") + Json(x.first) + ":" + std::to_string(x.second);
                f = false;
            }
            c += "},\"v\":{";
            f = true;
            for (auto& x: s.KeyCount) {
                c += (f ? "" : ",") + Json(x.first) + ":" + std::to_string(x.second);
                f = false;
            }
            c += "}}";
            Line(c);
            s.Counters.clear();
            s.KeyCount.clear();
            FILE* h = fopen((std::string(argv[6]) + ".hash").c_str(), "ab");
            for (auto x: s.Hashes) {
                fwrite(&x, 8, 1, h);
            }
            fclose(h);
            s.Hashes.clear();
        };
        uint64_t done = 0;
        for (uint64_t i = first; i < end; i += step) {
            s.Case = i;
            rewind(pf);
            fprintf(pf, "%llu\n", (unsigned long long)i);
            fflush(pf);
            Arm(CaseLimit);
            Rng rng(s.Seed, i);
            try {
                it->second.Fn(rng, i);
            } catch (const std::exception& e) {
                Violation(std::string("escaped-exception"), e.what());
            } catch (...) {
                Violation("escaped-exception", "of unknown type");
            }
            Count("cases");
            if (++done % 64 == 0) {
                flush();
            }
        }
        Arm(60);
        if (it->second.AtEnd) {
            it->second.AtEnd();
        }
        flush();
        Line("{\"t\":\"E\"}");
        fclose(s.Out);
        return 0;
    }
}

int main(int argc, char** argv)
{
    int rc = mon::Run(argc, argv);
    fflush(nullptr);
    _exit(rc);
}
