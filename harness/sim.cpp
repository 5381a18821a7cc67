#include "sim.h"
#include <condition_variable>
#include <pthread.h>
#include <time.h>

#ifdef SIM_REALTIME
#include <thread>

// Real time, for checks with threads: each port is used by one thread at a time
namespace sim
{
    TTime Now()
    {
        return std::chrono::steady_clock::now();
    }
    int64_t NowUs()
    {
        return std::chrono::duration_cast<microseconds>(Now().time_since_epoch()).count();
    }
    void Reset()
    {}
    void At(TTime, std::function<void()>, bool)
    {
        abort();
    }
    void AdvanceTo(TTime t, bool)
    {
        std::this_thread::sleep_until(t);
    }
    void Advance(microseconds d, bool)
    {
        std::this_thread::sleep_for(d);
    }
    uint64_t SpinSteps()
    {
        return 0;
    }
#else
namespace
{
    constexpr int64_t START_NS = 1000000000ll * 100000; // an arbitrary non-zero origin
    std::atomic<int64_t> ClockNs{START_NS};
    std::atomic<uint64_t> Queries{0};
    std::atomic<uint64_t> Spins{0};
    struct TEvent
    {
        std::function<void()> Fn;
        bool IdleOnly;
    };
    std::multimap<int64_t, TEvent> Events;
    bool InEvent = false;

    void Move(int64_t to, bool idle)
    {
        if (!InEvent) {
            while (true) {
                auto it = Events.begin();
                while (it != Events.end() && it->first <= to && it->second.IdleOnly && !idle) {
                    ++it;
                }
                if (it == Events.end() || it->first > to) {
                    break;
                }
                if (it->first > ClockNs) {
                    ClockNs = it->first;
                }
                auto f = std::move(it->second.Fn);
                Events.erase(it);
                InEvent = true;
                f();
                InEvent = false;
            }
        }
        if (to > ClockNs) {
            ClockNs = to;
        }
    }
}

namespace std::chrono
{
    inline namespace _V2
    {
        steady_clock::time_point steady_clock::now() noexcept
        {
            // A loop that polls the clock without sleeping would never end
            if (++Queries > 20000) {
                Queries = 0;
                ++Spins;
                ClockNs += 1000000;
            }
            return time_point(nanoseconds(ClockNs.load()));
        }
        system_clock::time_point system_clock::now() noexcept
        {
            return time_point(duration_cast<duration>(nanoseconds(1700000000ll * 1000000000 + (ClockNs - START_NS))));
        }
    }
}

extern "C" int nanosleep(const timespec* t, timespec* rem)
{
    int64_t ns = t->tv_sec * 1000000000ll + t->tv_nsec;
    if (ns > 0) {
        Queries = 0;
        Move(ClockNs + ns, true);
    }
    return 0;
}

extern "C" int clock_nanosleep(clockid_t, int flags, const timespec* t, timespec* rem)
{
    int64_t ns = t->tv_sec * 1000000000ll + t->tv_nsec;
    Queries = 0;
    Move(flags & TIMER_ABSTIME ? ns : ClockNs + std::max<int64_t>(ns, 0), true);
    return 0;
}

// The only timed wait of the program is that of the serial client, on the steady clock. Time goes to the next scheduled
// event (after which the waiter looks at its predicate) or to the end of the wait.
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const timespec* t)
{
    int64_t until = t->tv_sec * 1000000000ll + t->tv_nsec;
    pthread_mutex_unlock(m);
    Queries = 0;
    int64_t to = until;
    for (auto& e: Events) {
        to = std::min(to, std::max(e.first, ClockNs.load()));
        break;
    }
    bool timeout = to >= until;
    Move(to, true);
    pthread_mutex_lock(m);
    return timeout ? ETIMEDOUT : 0;
}

namespace sim
{
    TTime Now()
    {
        return TTime(std::chrono::nanoseconds(ClockNs.load()));
    }
    int64_t NowUs()
    {
        return (ClockNs - START_NS) / 1000;
    }
    void Reset()
    {
        ClockNs = START_NS;
        Events.clear();
        Queries = 0;
        Spins = 0;
    }
    void At(TTime t, std::function<void()> f, bool idleOnly)
    {
        auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
        Events.emplace(ns, TEvent{std::move(f), idleOnly});
    }
    void AdvanceTo(TTime t, bool idle)
    {
        Queries = 0;
        Move(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(), idle);
    }
    void Advance(microseconds d, bool idle)
    {
        AdvanceTo(Now() + std::max(d, microseconds(0)), idle);
    }
    uint64_t SpinSteps()
    {
        return Spins;
    }

#endif

    // ------------------------------------------------------------------ port
    TSimPort::TSimPort(const std::string& name, int baud): Name(name), Baud(baud)
    {
        Configured.BaudRate = baud;
        Configured.Parity = 'N';
        Configured.DataBits = 8;
        Configured.StopBits = 2;
        Current = Configured;
    }

    void TSimPort::Fault(const char* what)
    {
        if (CloseOnFail) {
            Opened = false;
            ++Closes;
        }
        throw TSerialDeviceErrnoException(what, EIO);
    }

    void TSimPort::Open()
    {
        ++OpenTries;
        OpenTryTimes.push_back(Now());
        if (Opened) {
            throw TSerialDeviceException("port is already open");
        }
        if (FailOpen && FailOpen()) {
            throw TSerialDeviceException("can't open serial port");
        }
        ++Opens;
        Opened = true;
        Current = Configured;
        Rx.clear();
        LastInteraction = Now();
    }

    void TSimPort::Close()
    {
        if (Opened) {
            ++Closes;
        }
        Opened = false;
        Rx.clear();
    }

    bool TSimPort::IsOpen() const
    {
        return Opened;
    }

    void TSimPort::CheckPortOpen() const
    {
        if (!Opened) {
            throw TSerialDeviceException("port not open");
        }
    }

    microseconds TSimPort::GetSendTimeBits(size_t bits) const
    {
        return microseconds(int64_t(std::ceil(bits * 1000000.0 / Current.BaudRate)));
    }

    microseconds TSimPort::GetSendTimeBytes(double n) const
    {
        return GetSendTimeBits(std::ceil(11 * n));
    }

    std::string TSimPort::GetDescription(bool verbose) const
    {
        return verbose ? "<" + Name + ">" : Name;
    }

    void TSimPort::ApplySerialPortSettings(const TSerialPortConnectionSettings& s)
    {
        ++SettingsChanges;
        if (Serial && (!Opened || FailSettings && FailSettings())) {
            throw std::runtime_error("can't set termios attributes");
        }
        Current = s;
        if (KeepFuture) {
            while (!Rx.empty() && Rx.front().first <= Now()) {
                Rx.pop_front();
            }
        } else {
            Rx.clear();
        }
        if (Wire) {
            Wire->OnSettings(*this, s);
        }
    }

    void TSimPort::ResetSerialPortSettings()
    {
        ApplySerialPortSettings(Configured);
    }

    void TSimPort::WriteBytes(const uint8_t* buf, int count)
    {
        ++Writes;
        if (!Opened) {
            ++UseWhenClosed;
            throw TSerialDeviceErrnoException("serial write failed: ", EBADF);
        }
        if (FailWrite && FailWrite()) {
            Fault("serial write failed: ");
        }
        TBytes d(buf, buf + count);
        Advance(GetSendTimeBytes(count));
        LastInteraction = Now();
        if (Wire) {
            Wire->OnWrite(*this, d);
        }
    }

    void TSimPort::Push(const TBytes& data, microseconds delay, bool atOnce)
    {
        auto t = std::max(Now() + delay, LastRx);
        if (getenv("VLOG")) {
            fprintf(stderr, "%10.6f will come from %.6f: %s\n", double((Now() - TTime{}).count()) / 1e9, double((t - TTime{}).count()) / 1e9, mon::Hex(data).substr(0, 60).c_str());
        }
        for (auto b: data) {
            if (!atOnce) {
                t += RxBaud ? microseconds(11 * 1000000 / RxBaud) : GetSendTimeBytes(1);
            }
            Rx.emplace_back(t, b);
        }
        LastRx = t;
    }

    void TSimPort::DropRx()
    {
        Rx.clear();
        LastRx = Now();
    }

    // True when a byte can be read, having waited for it no longer than until
    bool TSimPort::WaitByte(TTime until)
    {
        // an event may push bytes while time moves
        while (true) {
            if (!Rx.empty() && Rx.front().first <= Now()) {
                return true;
            }
            auto to = until;
            if (!Rx.empty()) {
                to = std::min(to, Rx.front().first);
            }
            if (to <= Now()) {
                return false;
            }
            AdvanceTo(to);
            if ((Rx.empty() || Rx.front().first > Now()) && Now() >= until) {
                return false;
            }
        }
    }

    uint8_t TSimPort::ReadByte(const microseconds& timeout)
    {
        CheckPortOpen();
        if (FailRead && FailRead()) {
            Fault("read() failed");
        }
        if (!WaitByte(Now() + timeout)) {
            throw TSerialDeviceTransientErrorException("timeout");
        }
        auto b = Rx.front().second;
        Rx.pop_front();
        LastInteraction = Now();
        return b;
    }

    TReadFrameResult TSimPort::ReadFrame(uint8_t* buf,
                                         size_t size,
                                         const microseconds& responseTimeout,
                                         const microseconds& frameTimeout,
                                         TFrameCompletePred complete)
    {
        if (!Opened) {
            ++UseWhenClosed;
        }
        CheckPortOpen();
        ++Frames;
        if (FailRead && FailRead()) {
            Fault("read() failed");
        }
        TReadFrameResult res;
        if (!size) {
            return res;
        }
        auto start = Now();
        auto timeout = CalcResponseTimeout(responseTimeout) + microseconds(24000) + GetSendTimeBytes(1);
        while (res.Count < size) {
            if (complete && complete(buf, res.Count)) {
                break;
            }
            if (!WaitByte(Now() + timeout)) {
                break;
            }
            if (res.Count == 0) {
                res.ResponseTime = std::chrono::duration_cast<microseconds>(Now() - start);
            }
            while (res.Count < size && !Rx.empty() && Rx.front().first <= Now()) {
                buf[res.Count++] = Rx.front().second;
                Rx.pop_front();
            }
            timeout = frameTimeout + microseconds(15000) + GetSendTimeBytes(1);
        }
        if (!res.Count) {
            ++Timeouts;
            throw TResponseTimeoutException();
        }
        LastInteraction = Now();
        return res;
    }

    void TSimPort::SkipNoise()
    {
        if (!Opened) {
            // select() on a closed descriptor of the real port
            throw TSerialDeviceErrnoException("TFileDescriptorPort::Select() failed: ", EBADF);
        }
        auto start = Now();
        int tries = 0;
        while (WaitByte(Now() + std::max<microseconds>(1ms, GetSendTimeBytes(5)))) {
            while (!Rx.empty() && Rx.front().first <= Now()) {
                Rx.pop_front();
            }
            LastInteraction = Now();
            if (Now() - start > 100ms) {
                if (tries < 3) {
                    ++tries;
                    Close();
                    Open();
                    start = Now();
                } else {
                    throw TSerialDeviceTransientErrorException("continuous unsolicited data flow");
                }
            }
        }
    }

    void TSimPort::SleepSinceLastInteraction(const microseconds& us)
    {
        AdvanceTo(LastInteraction + us);
    }

    // ------------------------------------------------------------------ Modbus
    const char* TypeName(EType t)
    {
        switch (t) {
            case EType::COIL:
                return "coil";
            case EType::DISCRETE:
                return "discrete";
            case EType::HOLDING:
                return "holding";
            default:
                return "input";
        }
    }

    std::string TModbusRequest::Str() const
    {
        std::ostringstream s;
        s << "slave " << int(Slave) << " fn " << int(Fn) << " addr " << Addr << " count " << Count;
        if (!Data.empty()) {
            s << " data " << mon::Hex(Data);
        }
        if (Malformed) {
            s << " malformed " << mon::Hex(Pdu);
        }
        return s.str();
    }

    // bit by bit, from the Modbus specification
    uint16_t Crc16(const uint8_t* p, size_t n)
    {
        uint16_t crc = 0xffff;
        for (size_t i = 0; i < n; ++i) {
            crc ^= p[i];
            for (int b = 0; b < 8; ++b) {
                crc = crc & 1 ? (crc >> 1) ^ 0xa001 : crc >> 1;
            }
        }
        return crc;
    }

    TBytes RtuFrame(uint8_t slave, const TBytes& pdu)
    {
        TBytes f{slave};
        f.insert(f.end(), pdu.begin(), pdu.end());
        auto c = Crc16(f.data(), f.size());
        f.push_back(c & 0xff);
        f.push_back(c >> 8);
        return f;
    }

    TBytes TcpFrame(uint16_t tid, uint8_t slave, const TBytes& pdu)
    {
        size_t n = pdu.size() + 1;
        TBytes f{uint8_t(tid >> 8), uint8_t(tid), 0, 0, uint8_t(n >> 8), uint8_t(n), slave};
        f.insert(f.end(), pdu.begin(), pdu.end());
        return f;
    }

    TModbusRequest ParsePdu(uint8_t slave, const TBytes& p)
    {
        TModbusRequest r;
        r.At = Now();
        r.Slave = slave;
        r.Pdu = p;
        r.Malformed = true;
        if (p.empty()) {
            return r;
        }
        r.Fn = p[0];
        if (p.size() < 5) {
            return r;
        }
        r.Addr = p[1] << 8 | p[2];
        switch (r.Fn) {
            case 1:
            case 2:
            case 3:
            case 4:
                r.Count = p[3] << 8 | p[4];
                r.Malformed = p.size() != 5 || r.Count == 0 || r.Count > (r.Fn <= 2 ? 2000u : 125u) ||
                              r.Addr + r.Count > 0x10000;
                break;
            case 5:
                r.Count = 1;
                r.Data = {p[3], p[4]};
                r.Malformed = p.size() != 5 || p[4] != 0 || (p[3] != 0 && p[3] != 0xff);
                break;
            case 6:
                r.Count = 1;
                r.Data = {p[3], p[4]};
                r.Malformed = p.size() != 5;
                break;
            case 15:
            case 16: {
                r.Count = p[3] << 8 | p[4];
                if (p.size() < 6) {
                    break;
                }
                size_t bytes = r.Fn == 16 ? r.Count * 2 : (r.Count + 7) / 8;
                r.Data.assign(p.begin() + 6, p.end());
                r.Malformed = r.Count == 0 || p[5] != bytes || r.Data.size() != bytes ||
                              r.Count > (r.Fn == 16 ? 123u : 1968u) || r.Addr + r.Count > 0x10000;
                break;
            }
            default:
                break;
        }
        return r;
    }

    uint16_t TModbusSlave::Get(EType t, uint32_t a) const
    {
        auto m = Mem.find(t);
        if (m == Mem.end()) {
            return 0;
        }
        auto i = m->second.find(a);
        return i == m->second.end() ? 0 : i->second;
    }

    void TModbusSlave::Set(EType t, uint32_t a, uint16_t v)
    {
        Mem[t][a] = v;
    }

    bool TModbusSlave::IsIllegal(EType t, uint32_t a) const
    {
        auto i = Illegal.find(t);
        if (i != Illegal.end() && i->second.count(a)) {
            return true;
        }
        if (DefaultIllegal) {
            auto m = Mem.find(t);
            return m == Mem.end() || !m->second.count(a);
        }
        return false;
    }

    TBytes TModbusSlave::Execute(const TModbusRequest& r)
    {
        auto exc = [&](uint8_t code) { return TBytes{uint8_t(r.Fn | 0x80), code}; };
        if (r.Malformed) {
            return exc(3);
        }
        if (r.IsRead()) {
            auto t = EType(r.Fn);
            bool bits = r.Fn <= 2;
            if (!bits && r.Count > MaxRead) {
                return exc(3);
            }
            for (uint32_t i = 0; i < r.Count; ++i) {
                if (IsIllegal(t, r.Addr + i)) {
                    return exc(2);
                }
            }
            TBytes p{r.Fn};
            if (bits) {
                p.push_back((r.Count + 7) / 8);
                p.resize(2 + (r.Count + 7) / 8);
                for (uint32_t i = 0; i < r.Count; ++i) {
                    if (Get(t, r.Addr + i)) {
                        p[2 + i / 8] |= 1 << (i % 8);
                    }
                }
            } else {
                p.push_back(r.Count * 2);
                for (uint32_t i = 0; i < r.Count; ++i) {
                    auto v = Get(t, r.Addr + i);
                    p.push_back(v >> 8);
                    p.push_back(v & 0xff);
                }
            }
            return p;
        }
        auto t = r.Fn == 5 || r.Fn == 15 ? EType::COIL : EType::HOLDING;
        for (uint32_t i = 0; i < r.Count; ++i) {
            if (IsIllegal(t, r.Addr + i) || t == EType::HOLDING && ReadOnlyHolding.count(r.Addr + i)) {
                return exc(2);
            }
        }
        auto put = [&](uint32_t a, uint16_t v) {
            Set(t, a, v);
            MemEvents.push_back({Now(), t, a, v});
            if (OnWritten) {
                OnWritten(t, a, v);
            }
        };
        switch (r.Fn) {
            case 5:
                put(r.Addr, r.Data[0] ? 1 : 0);
                return r.Pdu;
            case 6:
                put(r.Addr, r.Data[0] << 8 | r.Data[1]);
                return r.Pdu;
            case 15:
                for (uint32_t i = 0; i < r.Count; ++i) {
                    put(r.Addr + i, r.Data[i / 8] >> (i % 8) & 1);
                }
                break;
            case 16:
                for (uint32_t i = 0; i < r.Count; ++i) {
                    put(r.Addr + i, r.Data[2 * i] << 8 | r.Data[2 * i + 1]);
                }
                break;
            default:
                return exc(1);
        }
        return TBytes(r.Pdu.begin(), r.Pdu.begin() + 5);
    }

    void TModbusBus::OnWrite(TSimPort& port, const TBytes& d)
    {
        if (OnOther && OnOther(port, d)) {
            return;
        }
        if (Tcp) {
            if (d.size() < 8 || d[2] || d[3] || size_t(d[4] << 8 | d[5]) != d.size() - 6) {
                ++BadFrames;
                mon::Violation("request-frame", "not a Modbus TCP request: " + mon::Hex(d));
                return;
            }
            Handle(port, d[6], TBytes(d.begin() + 7, d.end()), d[0] << 8 | d[1]);
            return;
        }
        if (d.size() < 4 || Crc16(d.data(), d.size() - 2) != (d[d.size() - 2] | d[d.size() - 1] << 8)) {
            ++BadFrames;
            mon::Violation("request-frame", "not a Modbus RTU request: " + mon::Hex(d));
            return;
        }
        Handle(port, d[0], TBytes(d.begin() + 1, d.end() - 2), 0);
    }

    void TModbusBus::Handle(TSimPort& port, uint8_t slave, const TBytes& pdu, uint16_t tid)
    {
        auto r = ParsePdu(slave, pdu);
        r.Tid = tid;
        Log.push_back(r);
        if (OnRequest) {
            OnRequest(r);
        }
        auto it = Slaves.find(slave);
        if (it == Slaves.end() || !it->second->Online) {
            return;
        }
        auto& s = *it->second;
        s.Log.push_back(r);
        TAnswer a;
        if (s.Fault) {
            a = s.Fault(r);
        }
        if (a.Kind == TAnswer::SILENCE) {
            return;
        }
        if (a.Kind == TAnswer::RAW_NOEXEC) {
            port.Push(a.Raw, a.Delay);
            return;
        }
        auto ans = s.Execute(r);
        bool delivered = a.Kind == TAnswer::GOOD;
        if (delivered && r.IsRead() && !(ans[0] & 0x80)) {
            for (uint32_t i = 0; i < r.Count; ++i) {
                s.Served[EType(r.Fn)][r.Addr + i] = {Now(), s.Get(EType(r.Fn), r.Addr + i)};
            }
        }
        if (s.OnAnswered) {
            s.OnAnswered(r, ans, delivered);
        }
        if (a.Kind == TAnswer::LOST) {
            return;
        }
        if (a.Kind == TAnswer::RAW) {
            port.Push(a.Raw, a.Delay);
            return;
        }
        auto f = Tcp ? TcpFrame(tid, slave, ans) : RtuFrame(slave, ans);
        if (a.GapAt.count() && a.GapPos > 0 && a.GapPos < f.size()) {
            port.Push(TBytes(f.begin(), f.begin() + a.GapPos), a.Delay);
            port.Push(TBytes(f.begin() + a.GapPos, f.end()), a.Delay + port.GetSendTimeBytes(a.GapPos) + a.GapAt);
        } else {
            port.Push(f, a.Delay);
        }
    }
}
