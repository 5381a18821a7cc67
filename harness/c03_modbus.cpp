// C03: Modbus RTU and TCP requests and the acceptance of responses.
#include "modbus_base.h"
#include "modbus_common.h"
#include "register.h"
#include "sim.h"
#include <algorithm>

using mon::Rng;
using namespace sim;

namespace
{
    const auto RESPONSE_TIMEOUT = std::chrono::milliseconds(100);
    const auto FRAME_TIMEOUT = std::chrono::milliseconds(10);
    const size_t RTU_EXTRA = 3;

    struct TRequest
    {
        uint8_t Slave, Fn;
        uint16_t Addr, Count, WAddr, WCount;
        TBytes Data;
        bool Bits() const
        {
            return Fn == 1 || Fn == 2 || Fn == 5 || Fn == 15;
        }
        bool Read() const
        {
            return Fn >= 1 && Fn <= 4 || Fn == 23;
        }
        size_t ResponseData() const
        {
            return Bits() ? (Count + 7) / 8 : Count * 2;
        }
    };

    void Put(TBytes& v, uint16_t x)
    {
        v.push_back(x >> 8);
        v.push_back(x & 0xff);
    }

    TRequest GenRequest(Rng& r)
    {
        TRequest q;
        q.Slave = r.Chance(80) ? r.Range(1, 247) : r.Byte();
        q.Fn = r.Of<uint8_t>({1, 2, 3, 4, 5, 6, 15, 16, 23});
        q.Addr = r.Chance(20) ? r.Of<uint16_t>({0, 255, 256, 0x7fff, 0x8000, 0xffff}) : r.Next();
        q.Count = 1;
        q.WAddr = r.Next();
        q.WCount = 0;
        switch (q.Fn) {
            case 1:
            case 2:
                q.Count = r.Chance(50) ? r.Range(1, 2000) : r.Range(1, 20);
                break;
            case 3:
            case 4:
                q.Count = r.Chance(30) ? r.Range(1, 125) : r.Range(1, 6);
                break;
            case 5:
                q.Data = r.Chance(50) ? TBytes{0xff, 0} : TBytes{0, 0};
                break;
            case 6:
                q.Data = r.Bytes(2);
                break;
            case 15:
                q.Count = r.Chance(30) ? r.Range(1, 1968) : r.Range(1, 20);
                q.Data = r.Bytes((q.Count + 7) / 8);
                break;
            case 16:
                q.Count = r.Chance(30) ? r.Range(1, 123) : r.Range(1, 6);
                q.Data = r.Bytes(q.Count * 2);
                break;
            case 23:
                q.Count = r.Range(1, 125);
                q.WCount = r.Range(1, 121);
                q.Data = r.Bytes(q.WCount * 2);
                break;
        }
        return q;
    }

    // From the Modbus specification
    TBytes RefPdu(const TRequest& q)
    {
        TBytes p{q.Fn};
        Put(p, q.Addr);
        switch (q.Fn) {
            case 5:
            case 6:
                break;
            case 15:
            case 16:
                Put(p, q.Count);
                p.push_back(q.Data.size());
                break;
            case 23:
                Put(p, q.Count);
                Put(p, q.WAddr);
                Put(p, q.WCount);
                p.push_back(q.Data.size());
                break;
            default:
                Put(p, q.Count);
        }
        p.insert(p.end(), q.Data.begin(), q.Data.end());
        return p;
    }

    TBytes GoodAnswer(Rng& r, const TRequest& q)
    {
        TBytes p{q.Fn};
        if (q.Read()) {
            p.push_back(q.ResponseData());
            auto d = r.Bytes(q.ResponseData());
            p.insert(p.end(), d.begin(), d.end());
        } else {
            Put(p, q.Addr);
            if (q.Fn == 5 || q.Fn == 6) {
                p.insert(p.end(), q.Data.begin(), q.Data.end());
            } else {
                Put(p, q.Count);
            }
        }
        return p;
    }

    struct TChunk
    {
        microseconds Delay;
        TBytes Data;
    };

    struct TCaptureWire: public TWire
    {
        std::vector<TBytes> Sent;
        std::vector<TChunk> Answer;
        void OnWrite(TSimPort& port, const TBytes& d) override
        {
            Sent.push_back(d);
            for (auto& c: Answer) {
                port.Push(c.Data, c.Delay, true);
            }
        }
    };

    enum EOutcome
    {
        ACCEPTED,
        EXCEPTION,
        REJECTED
    };

    struct TResult
    {
        EOutcome Outcome;
        TBytes Data;
        int Code = -1;
        std::string What;
        int SlaveId = -1;
    };

    TResult Do(Modbus::IModbusTraits& traits, TSimPort& port, const TRequest& q, const TBytes& pdu, bool match)
    {
        TResult res;
        try {
            auto t = traits.Transaction(port,
                                        q.Slave,
                                        pdu,
                                        Modbus::CalcResponsePDUSize(Modbus::EFunction(q.Fn), q.Count),
                                        RESPONSE_TIMEOUT,
                                        FRAME_TIMEOUT,
                                        match);
            res.SlaveId = t.SlaveId;
            res.Data = Modbus::ExtractResponseData(Modbus::EFunction(q.Fn), t.Pdu);
            res.Outcome = ACCEPTED;
        } catch (const Modbus::TModbusExceptionError& e) {
            res.Outcome = EXCEPTION;
            res.Code = e.GetExceptionCode();
            res.What = e.what();
        } catch (const Modbus::TErrorBase& e) {
            res.Outcome = REJECTED;
            res.What = e.what();
        } catch (const TSerialDeviceException& e) {
            res.Outcome = REJECTED;
            res.What = e.what();
        } catch (const std::exception& e) {
            mon::Violation("unexpected-exception", std::string(e.what()));
            res.Outcome = REJECTED;
        }
        return res;
    }

    // ---- what a received byte string is, by specification
    enum EKind
    {
        K_GOOD,
        K_EXCEPTION,
        K_BAD
    };

    // pdu of an intact frame from the right unit
    EKind ClassifyPdu(const TRequest& q, const TBytes& pdu)
    {
        if (pdu.size() < 2 || (pdu[0] & 0x7f) != q.Fn) {
            return K_BAD;
        }
        if (pdu[0] & 0x80) {
            return K_EXCEPTION;
        }
        if (q.Read()) {
            return pdu.size() == size_t(pdu[1]) + 2 ? K_GOOD : K_BAD;
        }
        return pdu.size() == 5 ? K_GOOD : K_BAD;
    }

    bool RtuIntact(const TBytes& f, const TRequest& q, bool match)
    {
        return f.size() >= 4 && (!match || f[0] == q.Slave) &&
               Crc16(f.data(), f.size() - 2) == (f[f.size() - 2] | f[f.size() - 1] << 8);
    }

    std::string Show(const TRequest& q, const std::vector<TChunk>& answer, const TResult& res)
    {
        std::ostringstream s;
        s << "slave " << int(q.Slave) << " fn " << int(q.Fn) << " addr " << q.Addr << " count " << q.Count << " answer";
        for (auto& c: answer) {
            s << " +" << c.Delay.count() << "us:" << mon::Hex(c.Data);
        }
        s << " -> " << (res.Outcome == ACCEPTED ? "accepted " : res.Outcome == EXCEPTION ? "exception " : "rejected ")
          << mon::Hex(res.Data) << " " << res.Code << " " << res.What;
        return s.str();
    }

    // Bytes of a frame in chunks whose pauses are shorter than the silence that ends a frame
    std::vector<TChunk> Split(Rng& r, const TBytes& f, microseconds first, microseconds maxGap)
    {
        std::vector<TChunk> res;
        size_t i = 0;
        auto at = first;
        unsigned style = r.Below(4);
        while (i < f.size()) {
            size_t n = style == 0 ? f.size() : style == 1 ? 1 : 1 + r.Below(f.size());
            n = std::min(n, f.size() - i);
            res.push_back({at, TBytes(f.begin() + i, f.begin() + i + n)});
            at += microseconds(r.Below(maxGap.count()));
            i += n;
        }
        return res;
    }

    enum EMut
    {
        M_NONE,
        M_EXCEPTION,
        M_TRUNC,
        M_EXTEND,
        M_FLIP,
        M_SLAVE,
        M_FN,
        M_COUNT,   // consistent frame with another amount of data
        M_BYTECNT, // byte count does not match
        M_RANDOM,
        M_SILENCE,
        M_GAP,
        M_NUM
    };
    const char* MutName[] = {"none", "exception", "truncated", "extended", "flipped", "foreign-slave", "wrong-fn",
                             "other-amount", "wrong-byte-count", "random", "silence", "gap"};

    TBytes MutatePdu(Rng& r, EMut m, const TRequest& q, TBytes pdu)
    {
        switch (m) {
            case M_EXCEPTION:
                return {uint8_t(q.Fn | 0x80), r.Chance(70) ? uint8_t(r.Range(0, 11)) : r.Byte()};
            case M_FN: {
                uint8_t f;
                do {
                    f = r.Chance(50) ? r.Range(1, 23) : r.Byte();
                } while ((f & 0x7f) == q.Fn);
                pdu[0] = f;
                if (r.Chance(30)) {
                    pdu = {uint8_t(f | 0x80), uint8_t(r.Range(0, 4))};
                }
                return pdu;
            }
            case M_COUNT: {
                size_t n = r.Chance(50) ? r.Below(8) : r.Below(256);
                TBytes d = r.Bytes(n);
                pdu = {q.Fn, uint8_t(n)};
                pdu.insert(pdu.end(), d.begin(), d.end());
                return pdu;
            }
            case M_BYTECNT:
                if (pdu.size() > 1) {
                    pdu[1] = r.Byte();
                }
                return pdu;
            default:
                return pdu;
        }
    }

    void Damage(Rng& r, EMut m, TBytes& f)
    {
        switch (m) {
            case M_TRUNC:
                f.resize(r.Below(f.size()));
                break;
            case M_EXTEND: {
                auto d = r.Bytes(1 + r.Below(12));
                f.insert(r.Chance(70) ? f.end() : f.begin(), d.begin(), d.end());
                break;
            }
            case M_FLIP: {
                if (f.size() > 3 && r.Chance(35)) {
                    auto& a = f[f.size() - 2];
                    auto& b = f[f.size() - 1];
                    switch (r.Below(6)) {
                        case 0: // checksum bytes in the other order
                            std::swap(a, b);
                            break;
                        case 1:
                            a = b = r.Of<uint8_t>({0, 0xff});
                            break;
                        case 2:
                            a = ~a;
                            b = ~b;
                            break;
                        case 3: // checksum without the address byte
                        {
                            auto c = Crc16(f.data() + 1, f.size() - 3);
                            a = c & 0xff;
                            b = c >> 8;
                            break;
                        }
                        case 4:
                            std::swap(f[r.Below(f.size())], f[r.Below(f.size())]);
                            break;
                        case 5: // only one byte of the checksum differs
                            (r.Chance(50) ? a : b) ^= 1 + r.Below(255);
                            break;
                    }
                    break;
                }
                size_t n = 1 + r.Below(3);
                for (size_t i = 0; i < n; ++i) {
                    f[r.Below(f.size())] ^= 1 << r.Below(8);
                }
                break;
            }
            case M_RANDOM:
                f = r.Bytes(1 + r.Below(r.Chance(80) ? 20 : 300));
                break;
            default:
                break;
        }
    }

    void Judge(const char* proto,
               EMut m,
               const TRequest& q,
               EKind kind,
               bool must, // the answer is intact, complete and in time: it has to be taken
               const TBytes& pdu,
               const TResult& res,
               const std::string& show)
    {
        std::string pre = std::string(proto) + ":";
        if (kind == K_BAD) {
            MON_EXPECT(res.Outcome != ACCEPTED, pre + "bad-accepted:" + MutName[m], show);
            MON_EXPECT(res.Outcome != EXCEPTION, pre + "bad-as-exception:" + MutName[m], show);
            mon::Count("bad-answers");
            return;
        }
        if (kind == K_EXCEPTION) {
            MON_EXPECT(res.Outcome != ACCEPTED, pre + "exception-accepted", show);
            if (res.Outcome == EXCEPTION) {
                MON_EXPECT(res.Code == pdu[1], pre + "exception-code", show);
                mon::Count("exceptions");
            } else if (must) {
                mon::Violation(pre + "exception-lost", show);
            }
            return;
        }
        MON_EXPECT(res.Outcome != EXCEPTION, pre + "good-as-exception", show);
        if (res.Outcome == ACCEPTED) {
            TBytes want = q.Read() ? TBytes(pdu.begin() + 2, pdu.end()) : TBytes();
            MON_EXPECT(res.Data == want, pre + "payload", show);
            mon::Count("accepted");
        } else if (must) {
            mon::Violation(pre + "good-rejected", show);
        }
    }

    void CaseRtu(Rng& r)
    {
        Reset();
        auto port = std::make_shared<TSimPort>("p", r.Of({1200, 9600, 115200}));
        auto wire = std::make_shared<TCaptureWire>();
        port->Wire = wire;
        port->Open();
        auto q = GenRequest(r);
        auto m = EMut(r.Below(M_NUM));
        bool match = r.Chance(85);
        bool force = r.Chance(20);
        Modbus::TModbusRTUTraits traits(force);
        auto refPdu = RefPdu(q);
        auto pdu = Modbus::MakePDU(Modbus::EFunction(q.Fn), q.Addr, q.Count, q.WAddr, q.WCount, q.Data);
        MON_EXPECT(pdu == refPdu, "request-pdu:fn" + std::to_string(q.Fn), mon::Hex(pdu) << " for " << mon::Hex(refPdu));
        auto answerPdu = MutatePdu(r, m, q, GoodAnswer(r, q));
        uint8_t from = q.Slave;
        if (m == M_SLAVE) {
            from = q.Slave + 1 + r.Below(255);
        }
        auto frame = RtuFrame(from, answerPdu);
        Damage(r, m, frame);
        size_t expected = RTU_EXTRA + Modbus::CalcResponsePDUSize(Modbus::EFunction(q.Fn), q.Count);
        size_t wantSize = RTU_EXTRA + (q.Read() ? 2 + q.ResponseData() : 5);
        MON_EXPECT(expected == wantSize, "response-size:fn" + std::to_string(q.Fn), expected << " for " << wantSize);
        // a longer answer than 256 bytes does not exist in RTU
        bool tooBig = wantSize > 256;
        if (m != M_SILENCE) {
            wire->Answer = Split(r, frame, microseconds(r.Below(90000)), microseconds(9000));
        }
        bool lateGap = false;
        if (m == M_GAP && wire->Answer.size() > 1) {
            lateGap = true;
            size_t at = 1 + r.Below(wire->Answer.size() - 1);
            auto add = FRAME_TIMEOUT + milliseconds(60);
            for (size_t i = at; i < wire->Answer.size(); ++i) {
                wire->Answer[i].Delay += add;
            }
        }
        auto res = Do(traits, *port, q, pdu, match);
        auto show = Show(q, wire->Answer, res);
        MON_EXPECT(wire->Sent.size() == 1 && wire->Sent[0] == RtuFrame(q.Slave, refPdu), "rtu:request", show);
        mon::Count(std::string("rtu-") + MutName[m]);
        if (m == M_SILENCE || frame.empty()) {
            MON_EXPECT(res.Outcome == REJECTED, "rtu:silence", show);
            return;
        }
        // Acceptable interpretations of the stream: whole, prefix of the expected size, exception prefix
        EKind kind = K_BAD;
        TBytes kindPdu;
        std::vector<size_t> cuts = {5, expected, frame.size()};
        if (lateGap) {
            // what came before the pause is a frame of its own
            size_t n = 0;
            microseconds last = wire->Answer[0].Delay;
            for (auto& c: wire->Answer) {
                if (c.Delay - last > FRAME_TIMEOUT + milliseconds(20)) {
                    cuts.push_back(n);
                }
                n += c.Data.size();
                last = c.Delay;
            }
        }
        for (auto n: cuts) {
            if (n > frame.size() || n < 4 || kind != K_BAD) {
                continue;
            }
            TBytes f(frame.begin(), frame.begin() + n);
            if (RtuIntact(f, q, match)) {
                TBytes p(f.begin() + 1, f.end() - 2);
                auto k = ClassifyPdu(q, p);
                if (k == K_EXCEPTION && n != 5) {
                    k = K_BAD;
                }
                if (k != K_BAD) {
                    kind = k;
                    kindPdu = p;
                }
            }
        }
        bool must = (m == M_NONE || m == M_EXCEPTION) && from == q.Slave && !tooBig;
        Judge("rtu", m, q, kind, must, kindPdu, res, show);
        mon::Distinct(show.substr(0, 200));
        mon::Sample(show);
    }

    uint16_t LastTid = 0;

    void CaseTcp(Rng& r)
    {
        Reset();
        auto port = std::make_shared<TSimPort>("tcp-" + std::to_string(r.Below(3)), 115200);
        auto wire = std::make_shared<TCaptureWire>();
        port->Wire = wire;
        port->Open();
        Modbus::TModbusTCPTraits traits;
        if (r.Chance(10)) {
            Modbus::TModbusTCPTraits::ResetTransactionId(*port);
        }
        if (r.Chance(1)) {
            // transaction ids wrap around
            auto q = GenRequest(r);
            auto n = 65536 + r.Below(5);
            static std::map<std::string, bool> done;
            if (!done[port->Name]) {
                done[port->Name] = true;
                wire->Answer = {{microseconds(0), TcpFrame(0, 0, {1})}};
                uint16_t prev = 0;
                q = GenRequest(r);
                auto pdu = RefPdu(q);
                for (uint64_t i = 0; i < n; ++i) {
                    port->DropRx();
                    wire->Sent.clear();
                    Do(traits, *port, q, pdu, true);
                    uint16_t tid = wire->Sent[0][0] << 8 | wire->Sent[0][1];
                    MON_EXPECT(i == 0 || tid != prev, "tcp:tid-repeated", "transaction id " << tid << " twice in a row");
                    prev = tid;
                }
                wire->Sent.clear();
                port->DropRx();
                mon::Count("tid-wraps");
            }
        }
        // several transactions over one connection; answers may be those of earlier ones
        std::vector<TBytes> stale;
        std::set<uint16_t> tids;
        size_t n = 1 + r.Below(4);
        for (size_t i = 0; i < n; ++i) {
            auto q = GenRequest(r);
            auto m = EMut(r.Below(M_NUM));
            bool match = r.Chance(85);
            auto refPdu = RefPdu(q);
            auto pdu = Modbus::MakePDU(Modbus::EFunction(q.Fn), q.Addr, q.Count, q.WAddr, q.WCount, q.Data);
            auto answerPdu = MutatePdu(r, m, q, GoodAnswer(r, q));
            uint8_t from = m == M_SLAVE ? q.Slave + 1 + r.Below(255) : q.Slave;
            // the wire learns the transaction id from the request
            struct TAnswerWire: public TWire
            {
                std::function<void(TSimPort&, const TBytes&)> F;
                void OnWrite(TSimPort& p, const TBytes& d) override
                {
                    F(p, d);
                }
            };
            auto w = std::make_shared<TAnswerWire>();
            TBytes sent, stream;
            std::vector<TChunk> chunks;
            size_t staleCount = 0;
            bool otherTid = r.Chance(10);
            bool damageAfterHeader = false;
            w->F = [&](TSimPort& p, const TBytes& d) {
                sent = d;
                if (m == M_SILENCE) {
                    return;
                }
                uint16_t tid = d.size() > 1 ? d[0] << 8 | d[1] : 0;
                auto f = TcpFrame(otherTid ? tid - 1 - r.Below(3) : tid, from, answerPdu);
                if (m != M_FLIP) {
                    Damage(r, m, f);
                } else {
                    f[r.Chance(70) ? r.Below(std::min<size_t>(f.size(), 9)) : r.Below(f.size())] ^= 1 << r.Below(8);
                }
                while (!stale.empty() && staleCount < 3 && r.Chance(40)) {
                    auto& s = r.Pick(stale);
                    stream.insert(stream.end(), s.begin(), s.end());
                    ++staleCount;
                }
                stream.insert(stream.end(), f.begin(), f.end());
                chunks = Split(r, stream, microseconds(r.Below(m == M_NONE ? 60000 : 90000)), microseconds(m == M_NONE ? 700 : 9000));
                if (chunks.size() > 40) {
                    chunks = {{milliseconds(10), stream}};
                }
                for (auto& c: chunks) {
                    p.Push(c.Data, c.Delay, true);
                }
            };
            port->Wire = w;
            auto res = Do(traits, *port, q, pdu, match);
            auto show = Show(q, chunks, res) + " request " + mon::Hex(sent);
            mon::Count(std::string("tcp-") + MutName[m]);
            uint16_t tid = sent.size() > 1 ? sent[0] << 8 | sent[1] : 0;
            MON_EXPECT(sent == TcpFrame(tid, q.Slave, refPdu), "tcp:request", show);
            MON_EXPECT(!tids.count(tid), "tcp:tid-reused", show);
            tids.insert(tid);
            // walk over the stream of frames
            EKind kind = K_BAD;
            TBytes kindPdu;
            size_t pos = 0;
            while (pos + 8 <= stream.size()) {
                size_t len = stream[pos + 4] << 8 | stream[pos + 5];
                if (len < 1 || pos + 6 + len > stream.size()) {
                    break;
                }
                if ((stream[pos] << 8 | stream[pos + 1]) == tid) {
                    if (!match || stream[pos + 6] == q.Slave) {
                        kindPdu.assign(stream.begin() + pos + 7, stream.begin() + pos + 6 + len);
                        kind = ClassifyPdu(q, kindPdu);
                        if (kind == K_EXCEPTION && kindPdu.size() != 2) {
                            kind = res.Outcome == ACCEPTED ? K_EXCEPTION : K_BAD;
                            if (res.Outcome == EXCEPTION) {
                                kind = K_EXCEPTION; // an exception answer with a tail
                            }
                        }
                    }
                    break;
                }
                pos += 6 + len;
            }
            bool must = (m == M_NONE || m == M_EXCEPTION) && !otherTid && staleCount == 0;
            bool mustStale = (m == M_NONE || m == M_EXCEPTION) && !otherTid && chunks.size() == 1;
            Judge("tcp", m, q, kind, must || mustStale, kindPdu, res, show);
            if (res.SlaveId >= 0 && res.Outcome == ACCEPTED && !kindPdu.empty() && !match && m == M_SLAVE) {
                MON_EXPECT(res.SlaveId == from, "tcp:responder", show);
            }
            if (staleCount) {
                mon::Count("tcp-stale");
            }
            stale.push_back(TcpFrame(tid, q.Slave, GoodAnswer(r, q)));
            port->DropRx();
            mon::Distinct(show.substr(0, 200));
        }
    }

    // Reading through the register level: the amount of data has to be the requested one
    void CaseRegister(Rng& r)
    {
        Reset();
        bool tcp = r.Chance(50);
        auto port = std::make_shared<TSimPort>("reg", 9600);
        auto wire = std::make_shared<TCaptureWire>();
        port->Open();
        struct TFmt
        {
            RegisterFormat F;
            size_t Words;
        };
        auto fmt = r.Of<TFmt>({{U16, 1}, {U32, 2}, {U64, 4}, {Float, 2}, {Double, 4}, {U24, 2}, {String, 0}, {String8, 0}});
        int type = r.Of({int(Modbus::REG_HOLDING), int(Modbus::REG_INPUT), int(Modbus::REG_COIL), int(Modbus::REG_DISCRETE)});
        bool bit = type == Modbus::REG_COIL || type == Modbus::REG_DISCRETE;
        if (bit) {
            fmt = {U8, 1};
        }
        uint32_t addr = r.Below(1000);
        TRegisterDesc desc;
        desc.Address = std::make_shared<TUint32RegisterAddress>(addr);
        desc.WriteAddress = desc.Address;
        if (fmt.F == String || fmt.F == String8) {
            fmt.Words = 1 + r.Below(30);
            desc.DataWidth = fmt.Words * (fmt.F == String ? 8 : 16);
        }
        bool le = r.Chance(50);
        auto cfg = TRegisterConfig::Create(type,
                                           desc,
                                           fmt.F,
                                           1,
                                           0,
                                           0,
                                           TRegisterConfig::TSporadicMode::DISABLED,
                                           false,
                                           "t",
                                           le ? EWordOrder::LittleEndian : EWordOrder::BigEndian);
        size_t words = bit ? 1 : cfg->Get16BitWidth();
        TRequest q{uint8_t(r.Range(1, 247)), uint8_t(type == Modbus::REG_HOLDING ? 3 : type == Modbus::REG_INPUT ? 4
                                                     : type == Modbus::REG_COIL ? 1 : 2),
                   uint16_t(addr), uint16_t(words), 0, 0, {}};
        auto m = EMut(r.Below(M_NUM));
        auto good = GoodAnswer(r, q);
        auto answerPdu = MutatePdu(r, m, q, good);
        struct TAnswerWire: public TWire
        {
            std::function<void(TSimPort&, const TBytes&)> F;
            void OnWrite(TSimPort& p, const TBytes& d) override
            {
                F(p, d);
            }
        };
        TBytes frame, sent;
        auto w = std::make_shared<TAnswerWire>();
        w->F = [&](TSimPort& p, const TBytes& d) {
            sent = d;
            if (m == M_SILENCE) {
                return;
            }
            uint8_t from = m == M_SLAVE ? q.Slave + 1 + r.Below(255) : q.Slave;
            frame = tcp ? TcpFrame(d[0] << 8 | d[1], from, answerPdu) : RtuFrame(from, answerPdu);
            if (!tcp || m != M_FLIP) {
                Damage(r, m, frame);
            }
            p.Push(frame, milliseconds(5));
        };
        port->Wire = w;
        std::unique_ptr<Modbus::IModbusTraits> traits;
        if (tcp) {
            traits = std::make_unique<Modbus::TModbusTCPTraits>();
        } else {
            traits = std::make_unique<Modbus::TModbusRTUTraits>();
        }
        bool ok = false;
        TRegisterValue v;
        try {
            v = Modbus::ReadRegister(*traits, *port, q.Slave, *cfg, milliseconds(0), RESPONSE_TIMEOUT, FRAME_TIMEOUT);
            ok = true;
        } catch (const Modbus::TErrorBase&) {
        } catch (const TSerialDeviceException&) {
        } catch (const std::exception& e) {
            mon::Violation("register:unexpected-exception", e.what());
        }
        std::ostringstream s;
        s << (tcp ? "tcp" : "rtu") << " fn " << int(q.Fn) << " words " << words << " answer " << mon::Hex(frame) << " ok " << ok;
        mon::Count("register-reads");
        size_t head = tcp ? 7 : 1;
        bool exact = m == M_NONE || m == M_GAP ||
                     (m == M_COUNT && answerPdu.size() == good.size()) || (m == M_BYTECNT && answerPdu == good) ||
                     (tcp && m == M_FLIP);
        // an intact answer of another size, or any damage, gives no value
        if (!exact && m != M_EXTEND && m != M_RANDOM && m != M_FLIP) {
            MON_EXPECT(!ok, std::string("register:bad-accepted:") + MutName[m], s.str());
        }
        if (!ok) {
            MON_EXPECT(!exact, "register:good-rejected", s.str());
            return;
        }
        if (exact && frame.size() >= head + 2 + q.ResponseData()) {
            // value of the data by definition
            const uint8_t* d = frame.data() + head + 2;
            mon::Count("register-values");
            if (bit) {
                MON_EXPECT(v.Get<uint64_t>() == (d[0] & 1), "register:bit", s.str() << " " << v.Get<uint64_t>());
                return;
            }
            std::vector<uint16_t> ws;
            for (size_t i = 0; i < words; ++i) {
                ws.push_back(d[i * 2] << 8 | d[i * 2 + 1]);
            }
            if (le) {
                std::reverse(ws.begin(), ws.end());
            }
            if (fmt.F == String || fmt.F == String8) {
                std::string want;
                for (auto x: ws) {
                    if (fmt.F == String8) {
                        want += char(x >> 8);
                    }
                    want += char(x & 0xff);
                }
                auto e = want.find_first_of(std::string("\0\xff", 2));
                if (e != std::string::npos) {
                    want.resize(e);
                }
                MON_EXPECT(v.Get<std::string>() == want, "register:string", s.str() << " " << mon::Quote(v.Get<std::string>()));
                return;
            }
            uint64_t want = 0;
            for (auto x: ws) {
                want = want << 16 | x;
            }
            if (fmt.F == U24) {
                want &= 0xffffff;
            }
            MON_EXPECT(v.Get<uint64_t>() == want, "register:number", s.str() << " " << v.Get<uint64_t>());
        }
    }

    void Case(Rng& r, uint64_t)
    {
        for (int i = 0; i < 120; ++i) {
            CaseRtu(r);
            CaseTcp(r);
            CaseRegister(r);
        }
    }
    MON_CHECK("C03", Case);
}
