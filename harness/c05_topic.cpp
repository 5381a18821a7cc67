// C05: MQTT name validity and conversion against the documented substitution table.
#include "common_utils.h"
#include "mon.h"

using mon::Rng;

namespace
{
    std::string RefConvert(const std::string& s)
    {
        std::string res;
        for (char c: s) {
            switch (c) {
                case '\'':
                case '"':
                case '/':
                    res += '|';
                    break;
                case '+':
                    res += "_plus_";
                    break;
                case '$':
                case '#':
                    res += '_';
                    break;
                default:
                    res += c;
            }
        }
        return res;
    }

    void One(const std::string& s)
    {
        mon::Count("strings");
        bool bad = s.find_first_of("'\"/+$#") != std::string::npos;
        auto c = util::ConvertToValidMqttTopicString(s);
        auto d = mon::Quote(s) + " -> " + mon::Quote(c);
        MON_EXPECT(util::IsValidMqttTopicString(s) == !bad, "validity", mon::Quote(s));
        MON_EXPECT(util::IsValidMqttTopicString(c), "converted-not-valid", d);
        MON_EXPECT(c.find_first_of("/+#") == std::string::npos, "separator-or-wildcard-left", d);
        MON_EXPECT(util::ConvertToValidMqttTopicString(c) == c, "not-idempotent", d);
        MON_EXPECT((c == s) == !bad, "unchanged-iff-valid", d);
        MON_EXPECT(c == RefConvert(s), "substitution", d);
        if (bad) {
            mon::Distinct(s);
            if (s.size() > 4) {
                mon::Sample(d);
            }
        } else {
            mon::Count("already-valid");
        }
    }

    void Case(Rng& r, uint64_t n)
    {
        if (n == 0) { // every string of one and two bytes
            One("");
            for (int a = 0; a < 256; ++a) {
                One(std::string(1, char(a)));
                for (int b = 0; b < 256; ++b) {
                    One(std::string{char(a), char(b)});
                }
            }
        }
        static const char* pieces[] = {"+", "/", "#", "$", "'", "\"", "_plus_", "|", "_", "a", "Температура", "\xd0", "\0x", " ",
                                       "Channel 1", "//", "##", "$SYS", "K1+K2", "%", "\\", "\n"};
        for (int i = 0; i < 300; ++i) {
            std::string s;
            if (r.Chance(30)) {
                auto b = r.Bytes(r.Below(40));
                s.assign(b.begin(), b.end());
            } else {
                for (int k = r.Below(10); k > 0; --k) {
                    s += r.Pick(pieces);
                    if (r.Chance(5)) {
                        s += '\0';
                    }
                }
            }
            One(s);
        }
        if (n == 1) {
            One(std::string(1000000, '+'));
            One(std::string(1000000, 'x'));
        }
    }
    MON_CHECK("C05", Case);
}
