// Answers of a Modbus device that are recognisably damaged
#pragma once
#include "msys.h"

namespace msys
{
    enum EDamage
    {
        D_SILENCE,
        D_EXCEPTION,   // a transient one
        D_TRUNCATED,
        D_FLIPPED,     // up to three bits (serial line only)
        D_FOREIGN,     // of another unit
        D_FUNCTION,    // of another function
        D_SHORT_DATA,  // consistent, but with less data than requested
        D_LONG_DATA,   // consistent, but with more data than requested
        D_BAD_COUNT,   // byte count does not agree with the data
        D_GARBAGE,
        D_STALE,       // Modbus TCP: of another transaction
        D_EMPTY_PDU,
        D_COUNT
    };
    inline const char* DamageName(int k)
    {
        static const char* n[] = {"silence", "exception", "truncated", "flipped", "foreign", "function",
                                  "short-data", "long-data", "bad-count", "garbage", "stale", "empty-pdu"};
        return n[k];
    }
    // Is the line clean after it: nothing of it remains for later requests
    inline bool Clean(int k)
    {
        return k == D_SILENCE || k == D_EXCEPTION || k == D_TRUNCATED;
    }

    inline TAnswer Damage(Rng& r, const sim::TModbusRequest& q, sim::TModbusSlave& s, bool tcp, int kind)
    {
        using sim::TBytes;
        TAnswer a;
        a.Delay = milliseconds(r.Below(8));
        auto frame = [&](const TBytes& pdu, uint8_t unit, uint16_t tid) {
            return tcp ? sim::TcpFrame(tid, unit, pdu) : sim::RtuFrame(unit, pdu);
        };
        a.Kind = TAnswer::RAW_NOEXEC;
        TBytes pdu;
        if (q.IsRead()) {
            pdu = s.Execute(q);
            // other contents than those of the device, to see if they are taken
            for (size_t i = 2; i < pdu.size(); ++i) {
                if (r.Chance(50)) {
                    pdu[i] ^= r.Next();
                }
            }
        } else {
            pdu = TBytes(q.Pdu.begin(), q.Pdu.begin() + std::min<size_t>(5, q.Pdu.size()));
        }
        switch (kind) {
            case D_SILENCE:
                a.Kind = TAnswer::SILENCE;
                return a;
            case D_EXCEPTION:
                pdu = {uint8_t(q.Fn | 0x80), uint8_t(r.Of({4, 5, 6, 7, 8, 10, 11, 200}))};
                break;
            case D_FUNCTION: {
                static const uint8_t fns[] = {1, 2, 3, 4, 5, 6, 15, 16, 7, 0x41};
                uint8_t f;
                do {
                    f = fns[r.Below(10)];
                } while (f == q.Fn);
                pdu[0] = f;
                break;
            }
            case D_SHORT_DATA:
                if (q.IsRead() && pdu.size() > 2) {
                    auto n = 1 + r.Below(pdu.size() - 2);
                    pdu.resize(pdu.size() - n);
                    pdu[1] = pdu.size() - 2;
                } else {
                    pdu.resize(1);
                }
                break;
            case D_LONG_DATA: {
                auto n = 1 + r.Below(6);
                for (size_t i = 0; i < n; ++i) {
                    pdu.push_back(r.Next());
                }
                if (q.IsRead()) {
                    pdu[1] = pdu.size() - 2;
                }
                break;
            }
            case D_BAD_COUNT:
                if (q.IsRead()) {
                    pdu[1] += 1 + r.Below(255);
                } else {
                    pdu[0] ^= 1;
                }
                break;
            case D_EMPTY_PDU:
                pdu.clear();
                break;
            default:
                break;
        }
        auto unit = q.Slave;
        auto tid = q.Tid;
        if (kind == D_FOREIGN) {
            unit += 1 + r.Below(255);
        }
        if (kind == D_STALE) {
            tid -= 1 + r.Below(200);
        }
        a.Raw = frame(pdu, unit, tid);
        if (kind == D_TRUNCATED) {
            a.Raw.resize(r.Below(a.Raw.size()));
        }
        if (kind == D_FLIPPED) {
            auto n = 1 + r.Below(3);
            for (uint64_t i = 0; i < n; ++i) {
                auto b = r.Below(a.Raw.size() * 8);
                a.Raw[b / 8] ^= 1 << b % 8;
            }
            // flips of one bit twice give the original back
            if (a.Raw == frame(pdu, unit, tid)) {
                a.Raw[0] ^= 1;
            }
        }
        if (kind == D_GARBAGE) {
            a.Raw.resize(1 + r.Below(40));
            for (auto& x: a.Raw) {
                x = r.Next();
            }
        }
        if (a.Raw.empty()) {
            a.Kind = TAnswer::SILENCE;
        }
        return a;
    }

    inline int RandomDamage(Rng& r, bool tcp)
    {
        while (true) {
            int k = r.Below(D_COUNT);
            if (tcp ? k != D_FLIPPED : k != D_STALE) {
                return k;
            }
        }
    }
}
