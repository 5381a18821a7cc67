// Simulated devices of the protocols other than Modbus, written from the descriptions of the protocols.
#pragma once
#include "mon.h"
#include "serial_device.h"
#include "sim.h"
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <memory>

namespace drv
{
    using mon::Rng;
    using namespace sim;

    struct TEndless
    {};

    struct TExp // what reading a channel has to give
    {
        bool Error = false;
        bool Text = false; // compared as text
        std::string S;
        double V = 0;
        static TExp Num(double v)
        {
            TExp e;
            e.V = v;
            return e;
        }
        static TExp Int(int64_t v)
        {
            TExp e;
            e.Text = true;
            e.S = std::to_string(v);
            return e;
        }
        static TExp Uint(uint64_t v)
        {
            TExp e;
            e.Text = true;
            e.S = std::to_string(v);
            return e;
        }
        static TExp Str(const std::string& s)
        {
            TExp e;
            e.Text = true;
            e.S = s;
            return e;
        }
        static TExp Err()
        {
            TExp e;
            e.Error = true;
            return e;
        }
    };

    struct TChan
    {
        std::string Name;
        std::string Json; // members of the channel
        std::function<TExp()> Exp;
        // Writing: a value, the frames that have to be sent for it, what changes in the device
        std::function<uint64_t()> GenWrite;
        std::function<std::vector<TBytes>(uint64_t)> Frames;
        bool NoAnswer = false; // the device does not answer to writing
        bool Read = true;
        PRegister Reg;
    };

    enum class EDamage
    {
        NONE,
        SILENCE,
        FLIP,    // a bit of the frame, the checksum is not fixed
        SHORT,   // the end is missing
        HEADER,  // another address, command or register with a proper checksum
        BODY,    // random contents with a proper checksum
        RESIZE,  // other length with a proper checksum
        GARBAGE, // random bytes
        ALIKE,   // the start of a good frame and random bytes
        LONG,    // a lot of bytes
        TAIL,    // good frame with something after it
        SPECIAL, // protocol specific
        SPLIT,   // a long pause in the middle
        ERROR,   // error answer of the protocol
        COUNT
    };
    inline const char* DamageName(EDamage d)
    {
        static const char* n[] = {"none", "silence", "flip", "short", "header", "body", "resize", "garbage", "alike", "long", "tail", "special", "split", "error"};
        return n[int(d)];
    }

    class TDrv: public TWire
    {
    public:
        TDrv(Rng& r, const std::string& protocol): R(r), Protocol(protocol)
        {}
        Rng& R;
        std::string Protocol;
        std::string Device; // members of the device configuration: slave_id and so on
        std::vector<TChan> Chans;
        int Baud = 9600;

        // ---- what happens with answers
        EDamage Damage = EDamage::NONE;
        bool DamageService = false; // answers other than ones with data are damaged, too
        bool DamageOnce = false;    // only the first one
        bool Rejected = false;      // an answer which must not be used was given for data
        bool Unclear = false;       // an answer which may be used or not was given for data
        bool ServiceDamaged = false;
        uint64_t Answers = 0, DataAnswers = 0, CleanData = 0, Damaged = 0;
        bool NeverSession = false; // always answers that there is no session
        uint64_t Requests = 0;      // since the start of the call
        uint64_t Limit = 400;
        std::vector<TBytes> Log;    // requests of the call
        std::string LastAnswer;
        bool Judge = true;          // requests are judged
        bool Refuse = false;        // the device answers with errors

        void OnWrite(TSimPort& port, const TBytes& data) override
        {
            ++Requests;
            mon::Count("requests");
            if (Requests > Limit) {
                throw TEndless();
            }
            Log.push_back(data);
            Request(port, data);
        }
        virtual void Request(TSimPort& port, const TBytes& data) = 0;
        virtual void Randomize() = 0;
        // Power cycle: sessions are lost
        virtual void Restart()
        {}
        // Fixes the checksum of a frame
        virtual void Seal(TBytes&)
        {}
        // Positions of the frame with data which must be as expected; others of the header are not a matter of the driver
        virtual std::vector<size_t> Header(const TBytes&)
        {
            return {};
        }
        // Bits not covered by the checksum of the protocol
        virtual bool Covered(const TBytes&, size_t, int)
        {
            return true;
        }
        virtual TBytes Special(const TBytes& f)
        {
            return f;
        }
        // The form of the frame on the wire
        virtual TBytes Wrap(const TBytes& f)
        {
            return f;
        }
        virtual TBytes ErrorAnswer()
        {
            return {};
        }
        // All bytes after the last one needed are ignored by the protocol's framing
        bool ResizeRejected = false;

        void Bad(const TBytes& d, const std::string& why)
        {
            if (Judge) {
                if (getenv("VLOG")) {
                    fprintf(stderr, "BAD %s: %s\n", why.c_str(), mon::Hex(d).c_str());
                }
                mon::Violation("request-frame:" + Protocol, why + ": " + mon::Hex(d));
            }
        }

        int MinDelayMs = 0; // of answers
        void Send(TSimPort& port, TBytes f, bool data)
        {
            ++Answers;
            DataAnswers += data;
            auto d = Damage;
            if (d != EDamage::NONE && ((!data && !DamageService) || (DamageOnce && Damaged))) {
                d = EDamage::NONE;
            }
            if (data && Refuse) {
                d = EDamage::ERROR;
            }
            if (d != EDamage::NONE) {
                ++Damaged;
                mon::Count(std::string("damage-") + DamageName(d));
                ServiceDamaged = ServiceDamaged || !data;
            }
            bool rejected = false, unclear = false;
            int pause = 0;
            TBytes wire;
            switch (d) {
                case EDamage::NONE:
                case EDamage::COUNT:
                    wire = Wrap(f);
                    break;
                case EDamage::SILENCE:
                    rejected = true;
                    break;
                case EDamage::FLIP: {
                    size_t pos = R.Below(f.size());
                    int bit = int(R.Below(8));
                    rejected = Covered(f, pos, bit);
                    unclear = !rejected;
                    f[pos] ^= uint8_t(1 << bit);
                    wire = Wrap(f);
                    break;
                }
                case EDamage::SHORT:
                    f.resize(R.Below(f.size()));
                    wire = Wrap(f);
                    if (R.Chance(20)) {
                        wire.resize(R.Below(wire.size() + 1));
                    }
                    // what is left can be a good frame only by accident
                    unclear = Sealed(f);
                    rejected = !unclear;
                    break;
                case EDamage::HEADER: {
                    auto h = Header(f);
                    if (h.empty() || h.back() >= f.size()) {
                        wire = Wrap(f);
                        break;
                    }
                    auto p = h[R.Below(h.size())];
                    auto was = f[p];
                    f[p] = HeaderByte(f, p);
                    if (f[p] == was) {
                        f[p] ^= 1;
                    }
                    Seal(f);
                    wire = Wrap(f);
                    rejected = true;
                    break;
                }
                case EDamage::BODY:
                    for (int i = R.Range(1, 4); i > 0; --i) {
                        f[R.Below(f.size())] = R.Byte();
                    }
                    Seal(f);
                    wire = Wrap(f);
                    unclear = true;
                    break;
                case EDamage::RESIZE: {
                    auto was = f.size();
                    if (R.Chance(70)) {
                        f.resize(R.Below(f.size() + 12));
                    } else {
                        f.resize(R.Range(f.size(), 300), R.Byte());
                    }
                    Seal(f);
                    wire = Wrap(f);
                    unclear = !ResizeRejected || f.size() >= was; // what follows a good frame may be left unread
                    rejected = !unclear;
                    break;
                }
                case EDamage::GARBAGE:
                    wire = R.Bytes(R.Range(1, 60));
                    if (R.Chance(30)) {
                        wire.assign(wire.size(), R.Of<int>({0, 0xFF, 0xC0, 0x02, 0x03, 0x7F, '(', '\r', '\n', 6, 0x15}));
                    }
                    unclear = true;
                    break;
                case EDamage::ALIKE: {
                    auto n = R.Below(f.size() + 1);
                    wire.assign(f.begin(), f.begin() + n);
                    auto x = R.Bytes(R.Range(0, 40));
                    wire.insert(wire.end(), x.begin(), x.end());
                    wire = R.Chance(50) ? Wrap(wire) : wire;
                    unclear = true;
                    break;
                }
                case EDamage::LONG: {
                    wire = Wrap(f);
                    if (R.Chance(50)) {
                        wire.pop_back();
                    }
                    auto b = R.Byte();
                    auto n = R.Range(90, 2500);
                    auto same = R.Chance(50);
                    while (int(wire.size()) < n) {
                        wire.push_back(same ? b : R.Byte());
                    }
                    unclear = true;
                    break;
                }
                case EDamage::TAIL: {
                    wire = Wrap(f);
                    auto x = R.Bytes(R.Range(1, 12));
                    wire.insert(wire.end(), x.begin(), x.end());
                    unclear = true;
                    break;
                }
                case EDamage::SPECIAL:
                    f = Special(f);
                    if (R.Chance(80)) {
                        Seal(f);
                    }
                    wire = Wrap(f);
                    unclear = true;
                    break;
                case EDamage::SPLIT: {
                    wire = Wrap(f);
                    auto n = R.Below(wire.size() + 1);
                    TBytes first(wire.begin(), wire.begin() + n);
                    wire.erase(wire.begin(), wire.begin() + n);
                    port.Push(first, milliseconds(R.Range(1, 20)));
                    pause = R.Range(60, 1500);
                    unclear = true;
                    break;
                }
                case EDamage::ERROR:
                    f = ErrorAnswer();
                    if (f.empty()) {
                        rejected = true;
                        break;
                    }
                    wire = Wrap(f);
                    rejected = true;
                    break;
            }
            if (data) {
                CleanData += !rejected && !unclear;
                Rejected = Rejected || rejected;
            }
            Unclear = Unclear || unclear; // a service answer can turn into a good answer with data, too
            LastAnswer = std::string(DamageName(d)) + " " + mon::Hex(wire);
            if (!wire.empty()) {
                port.Push(wire, milliseconds(pause + MinDelayMs + R.Range(1, 20)));
            }
        }
        virtual uint8_t HeaderByte(const TBytes&, size_t)
        {
            return R.Byte();
        }
        virtual bool Sealed(const TBytes& f)
        {
            TBytes g = f;
            Seal(g);
            return g == f && !f.empty();
        }
    };
    using PDrv = std::shared_ptr<TDrv>;

    std::vector<std::string> Protocols();
    PDrv Make(Rng& r, const std::string& protocol);
}
