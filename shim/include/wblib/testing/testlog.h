// Stand-in for libwbmqtt1 test helpers
#pragma once
#include "../shim_core.h"
#include <gtest/gtest.h>
namespace WBMQTT::Testing
{
    class TLoggedFixture: public ::testing::Test
    {
    public:
        enum TMode
        {
            E_Normal,
            E_Unordered
        };
        class TEmit
        {
        public:
            explicit TEmit(TLoggedFixture& f, std::string prefix): F(f)
            {
                S << prefix;
            }
            TEmit(TEmit&&) = default;
            ~TEmit()
            {
                F.Append(S.str());
            }
            template<class T> TEmit& operator<<(const T& v)
            {
                if constexpr (std::is_same_v<T, std::vector<uint8_t>>) {
                    S << Hex(v);
                } else {
                    S << v;
                }
                return *this;
            }
            static std::string Hex(const std::vector<uint8_t>& v)
            {
                std::string r;
                char b[4];
                for (auto c: v) {
                    snprintf(b, sizeof b, r.empty() ? "%02X" : " %02X", c);
                    r += b;
                }
                return r;
            }

        private:
            TLoggedFixture& F;
            std::ostringstream S;
        };
        TEmit Emit()
        {
            return TEmit(*this, std::string(Indent * 4, ' '));
        }
        TEmit Note()
        {
            return TEmit(*this, ">>> ");
        }
        void SetMode(TMode m)
        {
            Mode = m;
        }
        void TearDown() override;
        static std::string GetDataFilePath(const std::string& rel);
        static void SetExecutableName(const std::string& name);
        void Append(const std::string& line);

        int Indent = 0;

    private:
        TMode Mode = E_Normal;
        std::mutex M;
        std::vector<std::string> Lines;
    };

    struct TTestLogIndent
    {
        explicit TTestLogIndent(TLoggedFixture& f): F(f)
        {
            ++F.Indent;
        }
        ~TTestLogIndent()
        {
            --F.Indent;
        }
        TLoggedFixture& F;
    };

    using WBMQTT::HexDump;

    inline ::testing::AssertionResult ArraysMatch(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b)
    {
        return a == b ? ::testing::AssertionSuccess() : ::testing::AssertionFailure() << HexDump(a) << " != " << HexDump(b);
    }

    inline ::testing::AssertionResult JsonsMatch(const Json::Value& a, const Json::Value& b)
    {
        auto n = [](const Json::Value& v) {
            Json::StreamWriterBuilder w;
            return Json::writeString(w, v);
        };
        return n(a) == n(b) ? ::testing::AssertionSuccess() : ::testing::AssertionFailure() << n(a) << " != " << n(b);
    }
}
