// P01: the real serial and TCP ports over pseudo terminals and loopback sockets, in real time.
// A peer thread sends scripted bytes; the monitor keeps the stream that was sent with the time of every chunk and judges
// every call of the port. What depends only on bytes or on lower bounds of time is judged at once. What depends on the
// scheduler of the machine is only reported when the same history fails four times in a row.
#include "log.h"
#include "mon.h"
#include "port/feature_port.h"
#include "port/serial_port.h"
#include "port/tcp_port.h"
#include "serial_exc.h"

#include <arpa/inet.h>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <termios.h>
#include <thread>
#include <unistd.h>

using namespace std::chrono;
using TClock = steady_clock;

namespace
{
    std::mutex TermiosMutex;
    std::map<int, std::vector<termios>> Requested; // per descriptor
}

extern "C" int __real_tcsetattr(int fd, int actions, const struct termios* t);
extern "C" int __wrap_tcsetattr(int fd, int actions, const struct termios* t)
{
    {
        std::lock_guard<std::mutex> l(TermiosMutex);
        Requested[fd].push_back(*t);
    }
    int r = __real_tcsetattr(fd, actions, t);
    // A pseudo terminal does not have other data bits or parity, the library reports it when nothing else is changed
    return r < 0 && errno == EINVAL ? 0 : r;
}

namespace
{
    microseconds Us(TClock::duration d)
    {
        return duration_cast<microseconds>(d);
    }

    const microseconds SLACK(250000); // for the scheduler

    struct TChunk
    {
        size_t End; // offset of the stream after the chunk
        TClock::time_point Before, After;
    };

    // The other end of the line
    struct TPeer
    {
        bool Tcp = false;
        int Listen = -1;
        int Fd = -1;
        int Keep = -1; // keeps the slave side open so that the line survives closing by the port
        std::string Path;
        uint16_t TcpPort = 0;
        std::string Error;

        std::mutex M;
        std::vector<uint8_t> Sent;
        std::vector<TChunk> Chunks;

        ~TPeer()
        {
            Hang();
            if (Keep >= 0) {
                close(Keep);
            }
            if (Listen >= 0) {
                close(Listen);
            }
        }
        bool Make(bool tcp)
        {
            Tcp = tcp;
            if (tcp) {
                Listen = socket(AF_INET, SOCK_STREAM, 0);
                sockaddr_in a{};
                a.sin_family = AF_INET;
                a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                if (Listen < 0 || bind(Listen, (sockaddr*)&a, sizeof a) < 0 || listen(Listen, 4) < 0) {
                    return false;
                }
                socklen_t n = sizeof a;
                getsockname(Listen, (sockaddr*)&a, &n);
                TcpPort = ntohs(a.sin_port);
                return true;
            }
            static std::mutex ptsMutex; // ptsname() is not reentrant
            std::lock_guard<std::mutex> l(ptsMutex);
            Fd = posix_openpt(O_RDWR | O_NOCTTY);
            if (Fd < 0 || grantpt(Fd) < 0 || unlockpt(Fd) < 0) {
                return false;
            }
            Path = ptsname(Fd);
            Keep = open(Path.c_str(), O_RDWR | O_NOCTTY);
            return Keep >= 0;
        }
        bool Accept(int timeoutMs)
        {
            pollfd p{Listen, POLLIN, 0};
            if (poll(&p, 1, timeoutMs) <= 0) {
                return false;
            }
            int fd = accept(Listen, nullptr, nullptr);
            if (fd < 0) {
                return false;
            }
            if (Fd >= 0) {
                close(Fd);
            }
            Fd = fd;
            int one = 1;
            setsockopt(Fd, SOL_TCP, TCP_NODELAY, &one, sizeof one);
            return true;
        }
        // Bytes may be seen by the port between Before and After
        bool Send(const std::vector<uint8_t>& b)
        {
            std::lock_guard<std::mutex> l(M);
            TChunk c;
            c.Before = TClock::now();
            size_t done = 0;
            // register the bytes before they can be read
            Sent.insert(Sent.end(), b.begin(), b.end());
            while (done < b.size()) {
                auto n = write(Fd, b.data() + done, b.size() - done);
                if (n <= 0) {
                    return false;
                }
                done += n;
            }
            c.After = TClock::now();
            c.End = Sent.size();
            Chunks.push_back(c);
            return true;
        }
        // Reads what the port wrote until n bytes or the time is up
        std::vector<uint8_t> Take(size_t n, int ms)
        {
            std::vector<uint8_t> r;
            auto end = TClock::now() + milliseconds(ms);
            while (r.size() < n) {
                int left = duration_cast<milliseconds>(end - TClock::now()).count();
                pollfd p{Fd, POLLIN, 0};
                if (left <= 0 || poll(&p, 1, left) <= 0) {
                    break;
                }
                uint8_t buf[512];
                auto k = read(Fd, buf, sizeof buf);
                if (k <= 0) {
                    break;
                }
                r.insert(r.end(), buf, buf + k);
            }
            return r;
        }
        void Hang(bool reset = false)
        {
            std::lock_guard<std::mutex> l(M);
            if (Fd >= 0) {
                if (Tcp && reset) {
                    linger lg{1, 0};
                    setsockopt(Fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
                }
                close(Fd);
                Fd = -1;
            }
        }
    };

    struct TLine
    {
        TPeer Peer;
        PPort Base;
        std::shared_ptr<TFeaturePort> Feature;
        TPort* P = nullptr; // what is used
        bool Tcp = false;
        int Baud = 9600, Data = 8, Stop = 1;
        char Parity = 'N';
        microseconds ByteTime()
        {
            if (Tcp) {
                return microseconds(11 * 1000000 / 9600);
            }
            int bits = 1 + Data + Stop + (Parity != 'N');
            return microseconds(bits * 1000000LL / Baud);
        }
        // What the port adds to the asked times, at most
        microseconds ResponseLag()
        {
            return Tcp ? microseconds(500000) : microseconds(34000) + 2 * ByteTime();
        }
        microseconds FrameLag()
        {
            return Tcp ? microseconds(150000) : microseconds(15000) + 2 * ByteTime();
        }
    };

    // One history in one thread. Soft failures are collected and reported when they come again.
    struct THistory
    {
        mon::Rng R;
        uint64_t Id;
        std::string Kind;
        std::vector<std::pair<std::string, std::string>> Soft;
        std::ostringstream Text;
        std::atomic<const char*> Op{""};
        std::atomic<TPeer*> Peer{nullptr};
        THistory(uint64_t seed): R(seed), Id(seed)
        {}
        void Late(const std::string& key, const std::string& detail)
        {
            Soft.push_back({key, detail});
        }
    };

    const int RATES[] = {110, 300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200};
    const int SANE_RATES[] = {1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200};

    speed_t Speed(int baud)
    {
        static const std::map<int, speed_t> m = {{110, B110},     {300, B300},     {600, B600},     {1200, B1200},
                                                 {2400, B2400},   {4800, B4800},   {9600, B9600},   {19200, B19200},
                                                 {38400, B38400}, {57600, B57600}, {115200, B115200}};
        return m.at(baud);
    }

    std::string Describe(TLine& l)
    {
        std::ostringstream s;
        if (l.Tcp) {
            s << "tcp";
        } else {
            s << "serial " << l.Baud << " " << l.Data << l.Parity << l.Stop;
        }
        return s.str();
    }

    bool MakeLine(THistory& h, TLine& l, int tcpPercent = 40, bool anyRate = false, bool open = true)
    {
        l.Tcp = h.R.Chance(tcpPercent);
        if (!l.Peer.Make(l.Tcp)) {
            mon::Count("no-line");
            return false;
        }
        h.Peer = &l.Peer;
        if (l.Tcp) {
            l.Base = std::make_shared<TTcpPort>(TTcpPortSettings("127.0.0.1", l.Peer.TcpPort));
        } else {
            l.Baud = anyRate ? h.R.Pick(RATES) : h.R.Pick(SANE_RATES);
            l.Parity = h.R.Of({'N', 'E', 'O'});
            l.Data = h.R.Of({7, 8, 8, 8});
            l.Stop = h.R.Of({1, 2});
            l.Base = std::make_shared<TSerialPort>(
                TSerialPortSettings(l.Peer.Path, TSerialPortConnectionSettings(l.Baud, l.Parity, l.Data, l.Stop)));
        }
        l.P = l.Base.get();
        if (h.R.Chance(50)) {
            l.Feature = std::make_shared<TFeaturePort>(l.Base, h.R.Chance(30), h.R.Chance(30));
            l.P = l.Feature.get();
        }
        h.Text << Describe(l) << (l.Feature ? " feature" : "");
        if (open) {
            h.Op = "open";
            try {
                l.P->Open();
            } catch (const std::exception& e) {
                mon::Violation("open:failed", h.Text.str() + ": " + e.what());
                return false;
            }
            if (l.Tcp && !l.Peer.Accept(5000)) {
                mon::Violation("open:not-connected", h.Text.str());
                return false;
            }
        }
        return true;
    }

    enum class TEnd
    {
        DATA,
        TIMEOUT,   // TResponseTimeoutException
        PORT_ERROR // another TSerialDeviceException
    };

    // Calls the port. Anything but TSerialDeviceException is a violation
    template<class F> TEnd Guard(THistory& h, const char* op, F f, std::string* what = nullptr)
    {
        h.Op = op;
        auto r = TEnd::DATA;
        try {
            f();
        } catch (const TResponseTimeoutException& e) {
            r = TEnd::TIMEOUT;
        } catch (const TSerialDeviceException& e) {
            r = TEnd::PORT_ERROR;
            if (what) {
                *what = e.what();
            }
        } catch (const std::exception& e) {
            r = TEnd::PORT_ERROR;
            mon::Violation(std::string("escaped:") + op, h.Text.str() + ": " + e.what());
        }
        h.Op = "between";
        return r;
    }

    // ---------------------------------------------------------------- frames

    struct TRead
    {
        size_t Size = 0;
        int64_t PredAt = -1; // the frame is complete when it has that many bytes
        microseconds Rt{}, Ft{};
    };

    // Everything that can be said about one ReadFrame when the peer only sends
    void ReadAndJudge(THistory& h, TLine& l, const TRead& q, size_t& taken)
    {
        auto& r = h.R;
        std::vector<uint8_t> heap(q.Size ? q.Size : 1); // its exact size, for the sanitizer
        heap.shrink_to_fit();
        size_t predCalls = 0;
        bool predTrue = false;
        TReadFrameResult res;
        TPort::TFrameCompletePred pred;
        auto* buf = new uint8_t[q.Size];
        std::unique_ptr<uint8_t[]> own(buf);
        if (q.PredAt >= 0) {
            pred = [&](uint8_t* b, size_t n) {
                ++predCalls;
                if (n) {
                    std::lock_guard<std::mutex> g(l.Peer.M);
                    if (b != buf || n > q.Size || taken + n > l.Peer.Sent.size() ||
                        memcmp(b, l.Peer.Sent.data() + taken, n) != 0) {
                        mon::Violation("frame:predicate-sees-other-bytes", h.Text.str());
                    }
                }
                predTrue = (int64_t)n >= q.PredAt;
                return predTrue;
            };
        }
        auto start = TClock::now();
        auto end = Guard(h, "ReadFrame", [&] { res = l.P->ReadFrame(buf, q.Size, q.Rt, q.Ft, pred); });
        auto stop = TClock::now();
        std::ostringstream d;
        d << h.Text.str() << ": read size=" << q.Size << " pred=" << q.PredAt << " rt=" << q.Rt.count()
          << " ft=" << q.Ft.count() << " -> " << (int)end << " count=" << res.Count << " in " << Us(stop - start).count()
          << " us, taken before=" << taken;
        mon::Count("reads");
        std::lock_guard<std::mutex> g(l.Peer.M);
        auto& sent = l.Peer.Sent;
        auto& chunks = l.Peer.Chunks;
        auto chunkOf = [&](size_t offset) -> const TChunk* { // the chunk with that byte
            for (auto& c: chunks) {
                if (offset < c.End) {
                    return &c;
                }
            }
            return nullptr;
        };
        auto rt = q.Rt.count() < 0 ? microseconds(500000) : q.Rt;
        if (end == TEnd::PORT_ERROR) {
            mon::Violation("frame:port-error", d.str());
            return;
        }
        auto* first = chunkOf(taken);
        if (end == TEnd::TIMEOUT) {
            mon::Count("timeouts");
            MON_EXPECT(Us(stop - start) >= rt, "timeout:too-early", d.str());
            if (Us(stop - start) > rt + l.ResponseLag() + SLACK) {
                h.Late("timeout:too-late", d.str());
            }
            if (first && Us(first->After - start) < rt - milliseconds(10)) {
                h.Late("timeout:although-data", d.str());
            }
            return;
        }
        if (q.Size == 0) {
            MON_EXPECT(res.Count == 0, "frame:bytes-into-nothing", d.str());
            return;
        }
        MON_EXPECT(res.Count > 0, "frame:empty-without-error", d.str());
        if (res.Count > q.Size) {
            mon::Violation("frame:too-long", d.str());
            return;
        }
        if (taken + res.Count > sent.size() || memcmp(buf, sent.data() + taken, res.Count) != 0) {
            mon::Violation("frame:other-bytes",
                           d.str() + " got " + mon::Hex(buf, std::min<size_t>(res.Count, 64)) + " expected " +
                               mon::Hex(sent.data() + std::min(taken, sent.size()),
                                        std::min<size_t>(64, sent.size() - std::min(taken, sent.size()))));
            taken += res.Count;
            return;
        }
        mon::Count("bytes-compared", res.Count);
        if (first && first->Before >= start) {
            auto lo = Us(first->Before - start), hi = Us(first->After - start);
            if (res.ResponseTime + milliseconds(2) < lo) { // it is counted from a later moment
                h.Late("frame:response-time-early", d.str() + " response time " + std::to_string(res.ResponseTime.count()));
            }
            MON_EXPECT(res.ResponseTime <= Us(stop - start) + microseconds(1),
                       "frame:response-time",
                       d.str() << " response time " << res.ResponseTime.count() << " first byte after " << lo.count());
            if (res.ResponseTime > hi + milliseconds(100)) {
                h.Late("frame:response-time-late", d.str() + " response time " + std::to_string(res.ResponseTime.count()));
            }
            if (lo > rt + l.ResponseLag() + SLACK) {
                h.Late("frame:waited-too-long-for-the-first-byte", d.str());
            }
        } else {
            MON_EXPECT(res.ResponseTime <= Us(stop - start) + microseconds(1), "frame:response-time", d.str());
        }
        auto* last = chunkOf(taken + res.Count - 1);
        if (!last) {
            return; // being sent right now
        }
        bool complete = res.Count == q.Size || (q.PredAt >= 0 && (int64_t)res.Count >= q.PredAt);
        if (q.PredAt >= 0 && (int64_t)res.Count >= q.PredAt) {
            mon::Count("ended-by-predicate");
        } else if (res.Count == q.Size) {
            mon::Count("ended-by-size");
        } else {
            mon::Count("ended-by-silence");
        }
        taken += res.Count;
        if (complete) {
            // as soon as it is complete: the byte that completed it is the one of the predicate or the last one
            if (Us(stop - std::max(last->After, start)) > std::min(q.Ft, SLACK + l.ByteTime())) {
                h.Late("frame:complete-but-waited", d.str());
            }
        } else {
            MON_EXPECT(Us(stop - last->Before) >= q.Ft, "frame:ended-too-early", d.str());
            auto* next = chunkOf(taken);
            if (next && Us(next->After - last->Before) < q.Ft - milliseconds(10)) {
                h.Late("frame:split", d.str());
            }
            if (Us(stop - std::max(last->After, start)) > q.Ft + l.FrameLag() + SLACK) {
                h.Late("frame:silence-not-noticed", d.str());
            }
        }
        (void)r;
    }

    void Frames(THistory& h)
    {
        TLine l;
        if (!MakeLine(h, l)) {
            return;
        }
        auto& r = h.R;
        size_t taken = 0;
        int messages = r.Range(2, 6);
        for (int m = 0; m < messages; ++m) {
            TRead q;
            q.Rt = milliseconds(r.Of({60, 100, 200, 300}));
            q.Ft = milliseconds(r.Of({20, 30, 60}));
            int len = r.Of({1, 2, (int)r.Range(3, 40), (int)r.Range(40, 256)});
            auto body = r.Bytes(len);
            for (auto& b: body) {
                if (r.Chance(20)) {
                    b = r.Of({0x00, 0x03, 0x04, 0x0a, 0x0d, 0x11, 0x13, 0x1a, 0x7f, 0xff});
                }
            }
            q.Size = r.Of({len, len + 1, len + (int)r.Range(2, 300), (int)r.Range(1, len)});
            if (r.Chance(40)) {
                q.PredAt = r.Of({len, (int)r.Range(1, len), len + 5});
            }
            bool fast = q.PredAt == len || (q.PredAt < 0 && (int)q.Size == len);
            if (fast && r.Chance(60)) {
                q.Ft = milliseconds(600); // the end must come from the frame, not from the silence
            }
            bool before = r.Chance(25);   // the answer is there before it is read
            int first = before ? 0 : r.Of({0, 1, 10, 30, 50});
            std::vector<std::pair<int, std::vector<uint8_t>>> script;
            for (size_t i = 0; i < body.size();) {
                size_t n = std::min<size_t>(body.size() - i, r.Of({1, 1, 2, 8, 64, 300}));
                if (script.size() > 12) {
                    n = body.size() - i;
                }
                int gap = script.empty() ? first : r.Of({0, 0, 1, 2, 5, 8});
                script.push_back({gap, std::vector<uint8_t>(body.begin() + i, body.begin() + i + n)});
                i += n;
            }
            if (r.Chance(15)) { // the rest comes after a pause that ends the frame
                script.push_back({int(duration_cast<milliseconds>(q.Ft + l.FrameLag()).count()) + 60, r.Bytes(r.Range(1, 5))});
            }
            h.Text << "; m" << m << " len=" << len << " chunks=" << script.size() << " first=" << first;
            auto play = [&] {
                for (auto& s: script) {
                    if (s.first) {
                        std::this_thread::sleep_for(milliseconds(s.first));
                    }
                    l.Peer.Send(s.second);
                }
            };
            std::thread t;
            if (before) {
                play();
            } else {
                t = std::thread(play);
            }
            ReadAndJudge(h, l, q, taken);
            if (t.joinable()) {
                t.join();
            }
            if (q.Size && r.Chance(70)) { // read the rest
                for (int k = 0; k < 60 && taken < l.Peer.Sent.size(); ++k) {
                    TRead rest;
                    rest.Size = 512;
                    rest.Rt = milliseconds(60);
                    rest.Ft = milliseconds(20);
                    size_t was = taken;
                    ReadAndJudge(h, l, rest, taken);
                    if (taken == was && k > 20) {
                        break;
                    }
                }
                if (taken != l.Peer.Sent.size()) {
                    h.Late("frame:bytes-lost", h.Text.str());
                }
            }
            if (r.Chance(20)) { // bytes are only discarded when asked: sending keeps them
                std::vector<uint8_t> req = r.Bytes(8);
                Guard(h, "Write", [&] { l.P->WriteBytes(req); });
                MON_EXPECT(l.Peer.Take(8, 3000) == req, "write:other-bytes", h.Text.str());
            }
            mon::Distinct(std::to_string(q.Size - len) + "/" + std::to_string(q.PredAt) + "/" +
                          std::to_string(script.size()) + "/" + std::to_string(len) + Describe(l));
        }
        for (int k = 0; k < 40 && taken < l.Peer.Sent.size(); ++k) {
            TRead rest;
            rest.Size = 512;
            rest.Rt = milliseconds(60);
            rest.Ft = milliseconds(20);
            ReadAndJudge(h, l, rest, taken);
        }
        MON_EXPECT(taken <= l.Peer.Sent.size(), "frame:more-than-sent", h.Text.str());
        if (taken != l.Peer.Sent.size()) {
            h.Late("frame:bytes-lost", h.Text.str());
        }
    }

    // ---------------------------------------------------------------- nothing arrives

    void Silence(THistory& h)
    {
        TLine l;
        if (!MakeLine(h, l)) {
            return;
        }
        auto& r = h.R;
        for (int k = 0; k < 3; ++k) {
            milliseconds asked(r.Of({-1, 0, 5, 50, 200}));
            milliseconds minimal(r.Of({-1, -1, 0, 20, 120, 300}));
            bool onBase = !l.Feature || r.Chance(50);
            if (l.Feature) {
                l.Feature->SetMinimalResponseTimeout(milliseconds(-1));
            }
            l.Base->SetMinimalResponseTimeout(milliseconds(-1));
            (onBase ? l.Base.get() : l.P)->SetMinimalResponseTimeout(minimal);
            auto eff = std::max(asked, minimal);
            // neither is set: the default one. A feature port replaces the asked time by the default one before it
            // asks the base port
            if (eff.count() < 0) {
                eff = milliseconds(500);
            }
            auto most = eff;
            if (l.Feature && onBase && asked.count() < 0) {
                most = std::max(eff, milliseconds(500));
            }
            bool byte = r.Chance(40);
            std::string d = h.Text.str() + " asked=" + std::to_string(asked.count()) +
                            " minimal=" + std::to_string(minimal.count()) + (onBase ? " base" : " feature") +
                            (byte ? " byte" : " frame");
            if (asked.count() == 0 && minimal.count() <= 0 && false) {
                continue;
            }
            auto start = TClock::now();
            uint8_t buf[16];
            std::string what;
            auto end = Guard(
                h,
                byte ? "ReadByte" : "ReadFrame",
                [&] {
                    if (byte) {
                        l.P->ReadByte(asked);
                    } else {
                        l.P->ReadFrame(buf, sizeof buf, asked, milliseconds(20));
                    }
                },
                &what);
            auto took = Us(TClock::now() - start);
            mon::Count("timeouts");
            if (byte) {
                MON_EXPECT(end != TEnd::DATA, "timeout:byte-from-nothing", d);
            } else {
                MON_EXPECT(end == TEnd::TIMEOUT, "timeout:no-timeout-error", d + " " + what);
            }
            MON_EXPECT(took >= eff, "timeout:too-early", d << " took " << took.count());
            if (took > most + l.ResponseLag() + SLACK) {
                h.Late("timeout:too-late", d + " took " + std::to_string(took.count()));
            }
            mon::Distinct("silence " + d);
        }
    }

    // ---------------------------------------------------------------- single bytes

    void Bytes(THistory& h)
    {
        TLine l;
        if (!MakeLine(h, l)) {
            return;
        }
        auto& r = h.R;
        auto all = r.Bytes(r.Range(3, 30));
        bool paused = r.Chance(50);
        std::thread t([&] {
            for (size_t i = 0; i < all.size();) {
                size_t n = std::min<size_t>(all.size() - i, 1 + i % 4);
                l.Peer.Send({all.begin() + i, all.begin() + i + n});
                i += n;
                if (paused) {
                    std::this_thread::sleep_for(milliseconds(i % 9));
                }
            }
        });
        std::vector<uint8_t> got;
        for (size_t i = 0; i < all.size(); ++i) {
            if (Guard(h, "ReadByte", [&] { got.push_back(l.P->ReadByte(milliseconds(400))); }) != TEnd::DATA) {
                h.Late("byte:timeout-although-data", h.Text.str() + " byte " + std::to_string(i));
                break;
            }
        }
        t.join();
        MON_EXPECT(std::equal(got.begin(), got.end(), all.begin()),
                   "byte:other-bytes",
                   h.Text.str() << " got " << mon::Hex(got) << " sent " << mon::Hex(all));
        mon::Count("single-bytes", got.size());
        mon::Distinct("bytes " + mon::Hex(all));
    }

    // ---------------------------------------------------------------- noise

    void Noise(THistory& h)
    {
        TLine l;
        if (!MakeLine(h, l)) {
            return;
        }
        auto& r = h.R;
        size_t taken = 0;
        for (int k = 0; k < 3; ++k) {
            int n = r.Of({0, 1, 10, 254, 255, 256, 600});
            if (n) {
                l.Peer.Send(r.Bytes(n));
                std::this_thread::sleep_for(milliseconds(40));
            }
            auto start = TClock::now();
            auto end = Guard(h, "SkipNoise", [&] { l.P->SkipNoise(); });
            auto took = Us(TClock::now() - start);
            auto d = h.Text.str() + " noise=" + std::to_string(n) + " took " + std::to_string(took.count());
            MON_EXPECT(end == TEnd::DATA, "noise:error", d);
            if (took > 10 * l.ByteTime() + SLACK) {
                h.Late("noise:slow", d);
            }
            taken += n;
            mon::Count("noise-skipped");
            TRead q;
            q.Size = 600;
            q.Rt = milliseconds(200);
            q.Ft = milliseconds(20);
            std::vector<uint8_t> msg = r.Bytes(r.Range(1, 40));
            l.Peer.Send(msg);
            std::vector<uint8_t> buf(600);
            TReadFrameResult res;
            end = Guard(h, "ReadFrame", [&] { res = l.P->ReadFrame(buf.data(), buf.size(), q.Rt, q.Ft); });
            buf.resize(res.Count);
            taken += msg.size();
            if (end != TEnd::DATA || buf != msg) {
                // the message may be split when the machine is busy
                h.Late("noise:answer-spoilt", d + " got " + mon::Hex(buf) + " expected " + mon::Hex(msg));
                break;
            }
            mon::Distinct("noise " + d.substr(0, 40) + mon::Hex(msg));
        }
    }

    // Bytes never stop coming
    void Flood(THistory& h)
    {
        TLine l;
        bool atOpen = h.R.Chance(50);
        if (!MakeLine(h, l, 40, false, !atOpen)) {
            return;
        }
        atOpen = atOpen && !l.Tcp;
        if (!l.P->IsOpen() && l.Tcp) {
            l.P->Open();
            l.Peer.Accept(3000);
        }
        std::atomic<bool> stop{false};
        std::thread t([&] {
            auto end = TClock::now() + seconds(9);
            if (!l.Tcp) {
                fcntl(l.Peer.Fd, F_SETFL, fcntl(l.Peer.Fd, F_GETFL) | O_NONBLOCK);
            }
            uint8_t b[3] = {0x55, 0xaa, 0x11};
            while (!stop && TClock::now() < end) {
                if (l.Tcp) {
                    pollfd p{l.Peer.Listen, POLLIN, 0};
                    if (poll(&p, 1, 0) > 0) {
                        l.Peer.Accept(0);
                        mon::Count("flood-reconnected");
                    }
                    send(l.Peer.Fd, b, sizeof b, MSG_DONTWAIT | MSG_NOSIGNAL);
                } else {
                    auto n = write(l.Peer.Fd, b, sizeof b);
                    (void)n;
                }
                std::this_thread::sleep_for(microseconds(400));
            }
        });
        std::this_thread::sleep_for(milliseconds(20));
        auto start = TClock::now();
        std::string what;
        TEnd end;
        if (atOpen) {
            end = Guard(h, "Open(flood)", [&] { l.P->Open(); }, &what);
        } else {
            end = Guard(h, "SkipNoise(flood)", [&] { l.P->SkipNoise(); }, &what);
        }
        auto took = Us(TClock::now() - start);
        stop = true;
        t.join();
        mon::Count("floods");
        mon::Max("flood-ms", took.count() / 1000);
        if (took > seconds(4)) {
            h.Late(atOpen ? "flood:open-does-not-end" : "flood:skip-does-not-end",
                   h.Text.str() + " took " + std::to_string(took.count()) + " " + what);
        }
        if (took > milliseconds(300)) {
            mon::Count("floods-judged");
        }
        mon::Distinct("flood " + Describe(l) + what + std::to_string((int)end));
        // afterwards the port works
        if (!l.Tcp) {
            Guard(h, "Close", [&] { l.P->Close(); });
            MON_EXPECT(!l.P->IsOpen(), "flood:not-closed", h.Text.str());
            end = Guard(h, "Open", [&] { l.P->Open(); }, &what);
            MON_EXPECT(end == TEnd::DATA && l.P->IsOpen(), "flood:no-open-afterwards", h.Text.str() << what);
        }
    }

    // ---------------------------------------------------------------- the line is lost

    void Lost(THistory& h)
    {
        TLine l;
        if (!MakeLine(h, l)) {
            return;
        }
        auto& r = h.R;
        int op = r.Below(5);
        bool during = r.Chance(50);
        bool reset = r.Chance(40);
        static const char* names[] = {"ReadFrame", "ReadByte", "SkipNoise", "Write", "partial"};
        h.Text << " lost " << (during ? "during " : "before ") << names[op] << (reset ? " reset" : "");
        std::vector<uint8_t> part = r.Bytes(r.Range(1, 8));
        if (op == 4) {
            l.Peer.Send(part);
        }
        std::thread t;
        if (during) {
            t = std::thread([&] {
                std::this_thread::sleep_for(milliseconds(r.Of({5, 30})));
                l.Peer.Hang(reset);
            });
        } else {
            l.Peer.Hang(reset);
            std::this_thread::sleep_for(milliseconds(20));
        }
        uint8_t buf[64];
        int errors = 0;
        for (int k = 0; k < 6; ++k) {
            TReadFrameResult res;
            uint8_t b = 0;
            auto start = TClock::now();
            std::string what;
            int now = k < 2 ? op : r.Below(4);
            auto end = Guard(
                h,
                names[now],
                [&] {
                    switch (now) {
                        case 0:
                        case 4:
                            res = l.P->ReadFrame(buf, sizeof buf, milliseconds(300), milliseconds(200));
                            break;
                        case 1:
                            b = l.P->ReadByte(milliseconds(300));
                            break;
                        case 2:
                            l.P->SkipNoise();
                            break;
                        case 3:
                            l.P->WriteBytes(buf, 8);
                            break;
                    }
                },
                &what);
            (void)b;
            auto took = Us(TClock::now() - start);
            auto d = h.Text.str() + " step " + std::to_string(k) + " " + names[now] + " -> " + std::to_string((int)end) + " " +
                     what + " took " + std::to_string(took.count());
            if (took > milliseconds(500) + l.ResponseLag() + l.FrameLag() + SLACK) {
                h.Late("lost:endless", d);
            }
            if (end == TEnd::PORT_ERROR) {
                ++errors;
            }
            if (end == TEnd::DATA && now != 2 && now != 3) {
                size_t have = op == 4 ? part.size() : 0;
                size_t got = now == 1 ? 1 : res.Count;
                // nothing, or what was really sent before
                bool ok = got == 0 || (now != 1 && got <= have && memcmp(buf, part.data(), got) == 0) || (now == 1 && have);
                MON_EXPECT(ok, "lost:data-from-nothing", d << " count " << got);
                if (op == 4 && now != 1) {
                    part.erase(part.begin(), part.begin() + std::min(got, part.size()));
                } else if (op == 4 && got) {
                    part.erase(part.begin());
                }
            }
            if (now == 2 && op == 4) {
                part.clear();
            }
        }
        if (t.joinable()) {
            t.join();
        }
        // In the worst case of TCP only reading tells that the line is lost
        MON_EXPECT(errors > 0, "lost:not-reported", h.Text.str());
        mon::Count("losses");
        mon::Distinct(h.Text.str());
        // and again with a new line
        if (l.P->IsOpen()) {
            Guard(h, "Close", [&] { l.P->Close(); });
        }
        MON_EXPECT(!l.P->IsOpen(), "lost:not-closed", h.Text.str());
        if (l.Tcp) {
            if (r.Chance(30)) {
                close(l.Peer.Listen);
                l.Peer.Listen = -1;
                auto end = Guard(h, "Open", [&] { l.P->Open(); });
                MON_EXPECT(end == TEnd::PORT_ERROR && !l.P->IsOpen(), "lost:open-without-listener", h.Text.str());
                mon::Count("refused-connections");
                return;
            }
            auto end = Guard(h, "Open", [&] { l.P->Open(); });
            if (end != TEnd::DATA || !l.Peer.Accept(3000)) {
                h.Late("lost:no-reconnection", h.Text.str());
                return;
            }
            size_t from = l.Peer.Sent.size();
            l.Peer.Send(r.Bytes(5));
            TRead q;
            q.Size = 5;
            q.Rt = milliseconds(300);
            q.Ft = milliseconds(50);
            ReadAndJudge(h, l, q, from);
            mon::Count("reconnections");
        } else {
            auto end = Guard(h, "Open", [&] { l.P->Open(); });
            // the pseudo terminal is gone
            MON_EXPECT(end == TEnd::PORT_ERROR && !l.P->IsOpen(), "lost:open-of-lost-line", h.Text.str());
        }
    }

    // ---------------------------------------------------------------- writing and pauses

    void Writing(THistory& h)
    {
        TLine l;
        if (!MakeLine(h, l, 30, true)) {
            return;
        }
        auto& r = h.R;
        for (int k = 0; k < 3; ++k) {
            int n = r.Of({1, 2, 8, 20});
            if (l.Tcp || l.Baud >= 4800) {
                n = r.Of({1, 8, 100, 256});
            }
            auto b = r.Bytes(n);
            if (n == 256) {
                for (int i = 0; i < 256; ++i) {
                    b[i] = i;
                }
            }
            std::vector<uint8_t> got;
            std::thread t([&] { got = l.Peer.Take(n, 8000); });
            auto start = TClock::now();
            auto end = Guard(h, "Write", [&] { l.P->WriteBytes(b); });
            auto stop = TClock::now();
            t.join();
            auto d = h.Text.str() + " write " + std::to_string(n) + " took " + std::to_string(Us(stop - start).count());
            MON_EXPECT(end == TEnd::DATA, "write:error", d);
            MON_EXPECT(got == b, "write:other-bytes", d << " got " << mon::Hex(got) << " of " << mon::Hex(b));
            int bits = l.Tcp ? 11 : 1 + l.Data + l.Stop + (l.Parity != 'N');
            auto need = microseconds(int64_t(bits) * n * 1000000 / (l.Tcp ? 9600 : l.Baud));
            if (!l.Tcp) {
                MON_EXPECT(Us(stop - start) + microseconds(2) >= need, "write:too-early", d);
                if (Us(stop - start) > need + SLACK) {
                    h.Late("write:too-late", d);
                }
            }
            auto calc = l.P->GetSendTimeBytes(n);
            MON_EXPECT(calc + microseconds(1) >= need && calc <= need + l.ByteTime() + microseconds(2),
                       "write:send-time",
                       d << " GetSendTimeBytes=" << calc.count() << " expected " << need.count());
            mon::Count("bytes-written", n);
            // a pause since the last interaction
            milliseconds pause(r.Of({0, 1, 5, 20}));
            if (r.Chance(50)) {
                std::this_thread::sleep_for(milliseconds(r.Of({1, 10, 30})));
            }
            auto called = TClock::now();
            Guard(h, "Sleep", [&] { l.P->SleepSinceLastInteraction(pause); });
            auto now = TClock::now();
            // the end of writing is known to be not before that
            auto lastAtLeast = l.Tcp ? start : start + need - microseconds(2);
            MON_EXPECT(Us(now - lastAtLeast) >= pause, "pause:too-short", d << " pause " << pause.count());
            if (now > std::max(stop + pause, called) + SLACK) {
                h.Late("pause:too-long", d + " pause " + std::to_string(pause.count()));
            }
            mon::Count("pauses");
            mon::Distinct("write " + Describe(l) + std::to_string(n) + "/" + std::to_string(pause.count()));
        }
    }

    // ---------------------------------------------------------------- line settings

    void CheckTermios(THistory& h, const termios& t, int baud, char parity, int data, int stop, const std::string& when)
    {
        std::ostringstream d;
        d << h.Text.str() << " " << when << " expected " << baud << " " << data << parity << stop << " c_cflag=" << std::hex
          << t.c_cflag << " c_iflag=" << t.c_iflag << " c_lflag=" << t.c_lflag << " c_oflag=" << t.c_oflag;
        mon::Count("settings-compared");
        MON_EXPECT(cfgetospeed(&t) == Speed(baud) && cfgetispeed(&t) == Speed(baud), "settings:baud", d.str());
        static const std::map<int, tcflag_t> cs = {{5, CS5}, {6, CS6}, {7, CS7}, {8, CS8}};
        MON_EXPECT((t.c_cflag & CSIZE) == cs.at(data), "settings:data-bits", d.str());
        MON_EXPECT(!(t.c_cflag & CSTOPB) == (stop == 1), "settings:stop-bits", d.str());
        MON_EXPECT(!(t.c_cflag & PARENB) == (parity == 'N'), "settings:parity", d.str());
        MON_EXPECT(parity == 'N' || !(t.c_cflag & PARODD) == (parity == 'E'), "settings:odd", d.str());
        MON_EXPECT(parity == 'N' || (t.c_iflag & INPCK), "settings:parity-check", d.str());
        MON_EXPECT((t.c_cflag & CREAD) && (t.c_cflag & CLOCAL), "settings:receiver", d.str());
        MON_EXPECT(!(t.c_lflag & (ICANON | ECHO | ISIG)) && !(t.c_iflag & (IXON | IXOFF | ICRNL | INLCR | IGNCR | ISTRIP)) &&
                       !(t.c_oflag & OPOST),
                   "settings:not-raw",
                   d.str());
    }

    void Settings(THistory& h)
    {
        TLine l;
        if (!MakeLine(h, l, 0, true, false)) {
            return;
        }
        auto& r = h.R;
        termios old{};
        tcgetattr(l.Peer.Keep, &old);
        old.c_lflag = ECHO | ICANON;
        cfsetospeed(&old, B1200);
        cfsetispeed(&old, B1200);
        __real_tcsetattr(l.Peer.Keep, TCSANOW, &old);
        tcgetattr(l.Peer.Keep, &old);
        int fd = -1;
        // descriptors are reused: what is requested in this history is found by the path
        auto find = [&]() {
            char link[64], name[128];
            for (int i = 3; i < 1024; ++i) {
                snprintf(link, sizeof link, "/proc/self/fd/%d", i);
                auto n = readlink(link, name, sizeof name - 1);
                if (n > 0 && std::string(name, n) == l.Peer.Path && i != l.Peer.Keep) {
                    return i;
                }
            }
            return -1;
        };
        auto last = [&](termios& t) {
            std::lock_guard<std::mutex> g(TermiosMutex);
            auto& v = Requested[fd];
            if (v.empty()) {
                return false;
            }
            t = v.back();
            return true;
        };
        for (int k = 0; k < 2; ++k) {
            if (Guard(h, "Open", [&] { l.P->Open(); }) != TEnd::DATA) {
                mon::Violation("settings:not-opened", h.Text.str());
                return;
            }
            fd = find();
            if (fd < 0) {
                mon::Count("no-descriptor");
                return;
            }
            termios t{};
            MON_EXPECT(last(t), "settings:nothing-set", h.Text.str());
            CheckTermios(h, t, l.Baud, l.Parity, l.Data, l.Stop, "opened");
            for (int i = 0; i < 3; ++i) {
                int baud = r.Pick(RATES), data = r.Of({5, 6, 7, 8}), stop = r.Of({1, 2});
                char parity = r.Of({'N', 'E', 'O'});
                bool guard = r.Chance(50);
                auto use = [&] {
                    CheckTermios(h, (last(t), t), baud, parity, data, stop, "changed");
                    int bits = 1 + data + stop + (parity != 'N');
                    auto need = microseconds(100LL * bits * 1000000 / baud);
                    auto calc = l.P->GetSendTimeBytes(100);
                    MON_EXPECT(calc + microseconds(1) >= need && calc <= need + microseconds(2),
                               "settings:send-time",
                               h.Text.str() << " " << calc.count() << " expected " << need.count());
                };
                std::string what;
                auto end = Guard(h, "Settings", [&] {
                    TSerialPortConnectionSettings s(baud, parity, data, stop);
                    if (guard) {
                        TSerialPortSettingsGuard g(l.Feature ? PPort(l.Feature) : l.Base, s);
                        use();
                    } else {
                        l.P->ApplySerialPortSettings(s);
                        use();
                        if (i != 1 || k == 1) {
                            l.P->ResetSerialPortSettings();
                        }
                    }
                }, &what);
                MON_EXPECT(end == TEnd::DATA, "settings:error", h.Text.str() << what << " " << baud << data << parity << stop);
                if (guard || i != 1 || k == 1) {
                    CheckTermios(h, (last(t), t), l.Baud, l.Parity, l.Data, l.Stop, "restored");
                }
                mon::Distinct("settings " + std::to_string(baud) + parity + std::to_string(data) + std::to_string(stop));
            }
            Guard(h, "Close", [&] { l.P->Close(); });
            termios now{};
            tcgetattr(l.Peer.Keep, &now);
            MON_EXPECT(now.c_lflag == old.c_lflag && cfgetospeed(&now) == cfgetospeed(&old) && now.c_oflag == old.c_oflag &&
                           now.c_iflag == old.c_iflag,
                       "settings:not-given-back",
                       h.Text.str());
        }
    }

    // ---------------------------------------------------------------- closed ports

    void Closed(THistory& h)
    {
        TLine l;
        if (!MakeLine(h, l, 50, false, false)) {
            return;
        }
        auto& r = h.R;
        bool was = r.Chance(50);
        if (was) {
            l.P->Open();
            if (l.Tcp) {
                l.Peer.Accept(3000);
            }
            MON_EXPECT(Guard(h, "Open", [&] { l.P->Open(); }) == TEnd::PORT_ERROR, "closed:opened-twice", h.Text.str());
            if (l.Tcp) {
                l.Peer.Send({1, 2, 3});
            }
            l.P->Close();
        }
        MON_EXPECT(!l.P->IsOpen(), "closed:open", h.Text.str());
        for (int k = 0; k < 5; ++k) {
            int op = r.Below(5);
            uint8_t buf[8] = {};
            TReadFrameResult res;
            auto start = TClock::now();
            std::string what;
            static const char* names[] = {"ReadFrame(closed)", "ReadByte(closed)", "SkipNoise(closed)", "Write(closed)", "Close(closed)"};
            auto end = Guard(
                h,
                names[op],
                [&] {
                    switch (op) {
                        case 0:
                            res = l.P->ReadFrame(buf, 8, milliseconds(50), milliseconds(20));
                            break;
                        case 1:
                            l.P->ReadByte(milliseconds(50));
                            break;
                        case 2:
                            l.P->SkipNoise();
                            break;
                        case 3:
                            l.P->WriteBytes(buf, 8);
                            break;
                        default:
                            l.P->Close();
                    }
                },
                &what);
            auto d = h.Text.str() + " " + names[op] + " " + what;
            if (op == 1) {
                MON_EXPECT(end == TEnd::PORT_ERROR, "closed:byte", d);
            }
            MON_EXPECT(res.Count == 0, "closed:data", d);
            if (TClock::now() - start > seconds(2)) {
                h.Late("closed:endless", d);
            }
            mon::Count("uses-of-closed-ports");
            mon::Distinct(d);
        }
        MON_EXPECT(Guard(h, "CheckPortOpen", [&] { l.P->CheckPortOpen(); }) == TEnd::PORT_ERROR, "closed:check", h.Text.str());
    }

    using TKind = std::pair<const char*, void (*)(THistory&)>;
    const TKind KINDS[] = {{"frames", Frames},   {"frames", Frames}, {"frames", Frames},     {"frames", Frames},
                           {"frames", Frames},   {"silence", Silence}, {"bytes", Bytes},     {"noise", Noise},
                           {"noise", Noise},     {"lost", Lost},     {"lost", Lost},         {"writing", Writing},
                           {"writing", Writing}, {"settings", Settings}, {"closed", Closed}, {"flood", Flood}};

    struct TSlot
    {
        std::mutex M;
        std::condition_variable Cv;
        int Running = 0;
    };

    void Case(mon::Rng& rng, uint64_t)
    {
        WBMQTT::TLogger::Mute = true;
        ::Debug.SetEnabled(rng.Chance(30));
        TSlot slot;
        struct TJob
        {
            std::shared_ptr<THistory> H;
            std::mutex M;
            bool Done = false;
            std::thread T;
            TClock::time_point Start = TClock::now();
        };
        std::vector<std::unique_ptr<TJob>> jobs;
        for (auto& k: KINDS) {
            auto seed = rng.Next();
            auto job = std::make_unique<TJob>();
            auto* j = job.get();
            j->T = std::thread([j, seed, k] {
                std::map<std::string, int> failures;
                std::string detail;
                for (int attempt = 0; attempt < 4; ++attempt) {
                    auto h = std::make_shared<THistory>(seed);
                    h->Kind = k.first;
                    h->Text << k.first << " ";
                    {
                        std::lock_guard<std::mutex> l(j->M);
                        j->H = h;
                    }
                    k.second(*h);
                    h->Peer = nullptr;
                    if (attempt == 0) {
                        mon::Count("histories");
                        mon::Sample(h->Text.str().substr(0, 400));
                    }
                    if (h->Soft.empty()) {
                        break;
                    }
                    mon::Count("repeated");
                    std::map<std::string, std::string> seen;
                    for (auto& s: h->Soft) {
                        seen[s.first] = s.second;
                    }
                    for (auto& s: seen) {
                        if (++failures[s.first] == 4) {
                            mon::Violation(s.first, s.second);
                        }
                    }
                    std::this_thread::sleep_for(milliseconds(100 * attempt));
                }
                std::lock_guard<std::mutex> l(j->M);
                j->Done = true;
            });
            jobs.push_back(std::move(job));
        }
        auto limit = TClock::now() + seconds(75);
        for (auto& j: jobs) {
            while (true) {
                {
                    std::lock_guard<std::mutex> l(j->M);
                    if (j->Done) {
                        break;
                    }
                    if (TClock::now() > limit) {
                        mon::Violation(std::string("endless:") + j->H->Op.load(), j->H->Text.str());
                        _exit(7);
                    }
                }
                std::this_thread::sleep_for(milliseconds(5));
            }
            j->T.join();
        }
    }

    MON_CHECK("P01", Case);
}
