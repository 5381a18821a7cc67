// R06: release index, images, their cache and the HTTP client.
#include <arpa/inet.h>
#include <atomic>
#include <fstream>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

#include "mon.h"
#include "rpc/rpc_fw_downloader.h"
#include "sim.h"
#include "sys.h"

using mon::Rng;
using namespace std::chrono_literals;

namespace
{
    typedef std::map<std::string, std::map<std::string, std::string>> TIndex;
    const std::string BASE = "https://fw-releases.wirenboard.com";
    const std::string FW_INDEX = BASE + "/fw/by-signature/release-versions.yaml";
    const std::string BOOT_INDEX = BASE + "/boot/by-signature/release-versions.yaml";

    const char NAME[] = "abcxyzMRGCVZ0123456789_-.";

    std::string Name(Rng& r, int lo, int hi)
    {
        std::string s;
        for (auto n = r.Range(lo, hi); n--;) {
            s += NAME[r.Below(sizeof(NAME) - 1)];
        }
        return s;
    }

    const std::vector<std::string> SUITES = {"stable", "testing", "unstable", "wb-2304", "stable2"};

    TIndex MakeIndex(Rng& r, const std::vector<std::string>& sigs)
    {
        TIndex res;
        for (auto& s: sigs) {
            if (r.Chance(20)) {
                continue;
            }
            auto& m = res[s];
            for (auto& suite: SUITES) {
                if (r.Chance(60)) {
                    m[suite] = "fw/by-signature/" + s + "/" + Name(r, 1, 6) + "/" + (r.Chance(90) ? std::to_string(r.Below(10)) + "." + std::to_string(r.Below(100)) + (r.Chance(30) ? "-rc" + std::to_string(r.Below(9)) : r.Chance(30) ? "+wb" + std::to_string(r.Below(9)) : "") : Name(r, 1, 9)) + (r.Chance(80) ? ".wbfw" : ".compfw");
                }
            }
        }
        return res;
    }

    // One of the many ways to write the index down
    std::string Render(Rng& r, const TIndex& index)
    {
        std::string eol = r.Chance(20) ? "\r\n" : "\n";
        std::string s;
        bool noise = r.Chance(60);
        auto extra = [&] {
            while (noise && r.Chance(15)) {
                switch (r.Below(4)) {
                    case 0:
                        s += eol;
                        break;
                    case 1:
                        s += "# " + Name(r, 0, 9) + ": " + Name(r, 0, 9) + eol;
                        break;
                    case 2:
                        s += std::string(r.Below(7), ' ') + eol;
                        break;
                    default:
                        s += std::string(r.Below(7), ' ') + "#    stable: x/y.wbfw" + eol;
                }
            }
        };
        auto tail = [&] { return noise && r.Chance(10) ? std::string(r.Range(1, 3), ' ') : std::string(); };
        if (r.Chance(30)) { // another section with the same names before
            s += "versions:" + tail() + eol;
            for (auto& p: index) {
                s += "  " + p.first + ":" + eol + "    stable: other/before.wbfw" + eol;
            }
        }
        extra();
        s += "releases:" + tail() + eol;
        size_t deep = r.Chance(70) ? 4 : r.Range(3, 8);
        for (auto& p: index) {
            extra();
            // a signature may come in two pieces
            bool again = p.second.size() > 1 && noise && r.Chance(10);
            size_t k = 0;
            s += std::string(2, ' ') + p.first + ":" + tail() + eol;
            for (auto& q: p.second) {
                extra();
                if (again && k == 1) {
                    s += "  " + p.first + ":" + eol;
                }
                ++k;
                s += std::string(deep, ' ') + q.first + ":" + std::string(noise && r.Chance(10) ? r.Range(1, 4) : 1, ' ') + q.second + tail() + eol;
            }
        }
        extra();
        if (r.Chance(30)) { // another section after
            s += "bootloaders:" + eol;
            for (auto& p: index) {
                s += "  " + p.first + ":" + eol + "    stable: other/after.wbfw" + eol;
            }
        }
        if (r.Chance(20) && s.size() >= eol.size() && s.substr(s.size() - eol.size()) == eol) {
            s.resize(s.size() - eol.size());
        }
        return s;
    }

    std::string Str(const TIndex& i)
    {
        std::string s;
        for (auto& p: i) {
            s += p.first + "{";
            for (auto& q: p.second) {
                s += q.first + "=" + q.second + " ";
            }
            s += "}";
        }
        return s;
    }

    // Signatures without any suite may be kept or left out: nothing can be asked about them
    TIndex Full(TIndex i)
    {
        for (auto it = i.begin(); it != i.end();) {
            it = it->second.empty() ? i.erase(it) : std::next(it);
        }
        return i;
    }

    std::vector<std::string> Sigs(Rng& r)
    {
        std::vector<std::string> res;
        for (auto n = r.Range(1, 8); n--;) {
            // also prefixes of one another
            res.push_back(!res.empty() && r.Chance(30) ? r.Pick(res) + Name(r, 1, 2) : Name(r, 1, 12));
        }
        return res;
    }

    void Indexes(Rng& r)
    {
        for (int k = 0; k < 20; ++k) {
            auto index = MakeIndex(r, Sigs(r));
            auto text = Render(r, index);
            auto parsed = ParseReleaseVersionsYaml(text);
            MON_EXPECT(Full(parsed) == Full(index), "index", mon::Quote(text) << " -> " << Str(parsed));
            mon::Count("indexes");
            mon::Distinct(text);
            if (k == 0) {
                mon::Sample(mon::Quote(text).substr(0, 250));
            }
            // damaged: whatever is reported must be written in the text
            auto bad = text;
            for (auto n = r.Range(1, 6); n-- && !bad.empty();) {
                auto pos = r.Below(bad.size());
                switch (r.Below(5)) {
                    case 0:
                        bad.resize(pos);
                        break;
                    case 1:
                        bad.insert(pos, 1, char(r.Next()));
                        break;
                    case 2:
                        bad.erase(pos, r.Range(1, 20));
                        break;
                    case 3:
                        bad[pos] = ": \n\t#\0"[r.Below(6)];
                        break;
                    default:
                        bad.insert(pos, bad.substr(r.Below(bad.size()), r.Range(1, 40)));
                }
            }
            for (auto& p: ParseReleaseVersionsYaml(bad)) {
                MON_EXPECT(p.first.empty() || bad.find(p.first + ":") != std::string::npos || bad.find(p.first + " ") != std::string::npos, "invented-signature", mon::Quote(bad) << " " << p.first);
                for (auto& q: p.second) {
                    MON_EXPECT(bad.find(q.second) != std::string::npos && bad.find(q.first) != std::string::npos, "invented-path", mon::Quote(bad) << " " << q.second);
                    mon::Count("damaged-index-entries");
                }
            }
            mon::Count("damaged-indexes");
        }
    }

    void Images(Rng& r)
    {
        for (int k = 0; k < 60; ++k) {
            auto bytes = r.Bytes(r.Chance(50) ? r.Below(70) : r.Below(3000));
            bool good = bytes.size() % 2 == 0 && bytes.size() >= 32;
            try {
                auto f = ParseWBFW(bytes);
                auto all = f.Info;
                all.insert(all.end(), f.Data.begin(), f.Data.end());
                MON_EXPECT(good, "bad-image-accepted", bytes.size());
                MON_EXPECT(f.Info.size() == 32 && all == bytes, "image", bytes.size());
                mon::Count("images");
            } catch (const std::exception& e) {
                MON_EXPECT(!good, "good-image-refused", bytes.size() << " " << e.what());
                mon::Count("refused-images");
            }
        }
    }

    void Versions(Rng& r)
    {
        for (int k = 0; k < 60; ++k) {
            auto dir = (r.Chance(90) ? BASE : "") + "/" + Name(r, 0, 5) + (r.Chance(50) ? "/" + Name(r, 1, 5) : "");
            auto version = Name(r, 0, 9);
            auto ext = r.Chance(70) ? (r.Chance(50) ? ".wbfw" : ".compfw") : r.Pick(std::vector<std::string>{"", ".bin", ".wbfw2", ".WBFW", "wbfw", ".wbf", ".compfw.sig"});
            auto url = dir + "/" + version + ext;
            auto file = version + ext;
            bool good = false;
            for (std::string e: {".wbfw", ".compfw"}) {
                if (file.size() > e.size() && file.substr(file.size() - e.size()) == e) {
                    good = true;
                    version = file.substr(0, file.size() - e.size());
                }
            }
            try {
                auto v = ParseFwVersionFromUrl(url);
                MON_EXPECT(good, "version-of-bad-url", url << " -> " << v);
                MON_EXPECT(v == version, "version", url << " -> " << v);
                mon::Count("versions");
            } catch (const std::exception&) {
                MON_EXPECT(!good, "no-version", url);
                mon::Count("refused-urls");
            }
        }
    }

    void Suites(Rng& r, const std::string& dir)
    {
        auto file = dir + "/wb-release";
        auto suite = Name(r, 1, 9);
        std::string text;
        std::string expected;
        auto add = [&](const std::string& l) { text += l + "\n"; };
        for (auto n = r.Below(5); n--;) {
            add(r.Pick(std::vector<std::string>{"RELEASE_NAME=wb-2304", "TARGET=bullseye", "", "#SUITE=no", "MYSUITE=no", "SUITE2=no", "suite=no", "garbage", "=no"}));
        }
        if (r.Chance(80)) {
            expected = suite;
            add("SUITE=" + suite);
            for (auto n = r.Below(3); n--;) {
                add(r.Pick(std::vector<std::string>{"REPO_PREFIX=no", "SUITE_OLD=no", ""}));
            }
        }
        if (r.Chance(30) && !text.empty()) {
            text.pop_back();
        }
        sys::WriteFile(file, text);
        auto got = ReadReleaseSuite(file);
        MON_EXPECT(got == expected, "suite", mon::Quote(text) << " -> " << mon::Quote(got));
        mon::Count("suites");
        MON_EXPECT(ReadReleaseSuite(dir + "/absent").empty(), "suite-of-absent-file", "");
    }

    // --- history of requests in virtual time

    double Seconds()
    {
        return std::chrono::duration<double>(sim::Now().time_since_epoch()).count();
    }

    struct TServer: IHttpClient
    {
        Rng R;
        struct TContent
        {
            std::string Text;
            TIndex Index;
            std::vector<uint8_t> Binary;
        };
        struct TFetch
        {
            TContent What;
            double At;
            bool Failed;
        };
        std::map<std::string, TContent> Now;
        std::map<std::string, std::vector<TFetch>> Fetches;
        int FailPercent = 0;
        size_t Total = 0;

        TServer(Rng& r): R(r.Next())
        {}

        const TContent& Serve(const std::string& url)
        {
            ++Total;
            double at = Seconds();
            if (R.Chance(30)) {
                sim::Advance(std::chrono::microseconds(R.Range(0, 20000000)));
            }
            auto it = Now.find(url);
            bool fail = R.Chance(FailPercent) || it == Now.end();
            Fetches[url].push_back({fail ? TContent() : it->second, at, fail});
            if (fail) {
                throw std::runtime_error("HTTP 404 downloading " + url);
            }
            return Fetches[url].back().What;
        }
        std::string GetText(const std::string& url) override
        {
            return Serve(url).Text;
        }
        std::vector<uint8_t> GetBinary(const std::string& url) override
        {
            return Serve(url).Binary;
        }
    };

    void History(Rng& r)
    {
        sim::Reset();
        auto server = std::make_shared<TServer>(r);
        TFwDownloader d(server);
        auto sigs = Sigs(r);
        std::vector<std::string> urls;
        for (auto n = r.Range(1, 4); n--;) {
            urls.push_back(BASE + "/fw/" + Name(r, 1, 5) + "/" + Name(r, 1, 5) + ".wbfw");
        }
        auto renew = [&](const std::string& url) {
            auto& c = server->Now[url];
            if (url == FW_INDEX || url == BOOT_INDEX) {
                c.Index = MakeIndex(r, sigs);
                c.Text = Render(r, c.Index);
                if (r.Chance(8)) { // something else instead of the index
                    c.Index.clear();
                    c.Text = r.Pick(std::vector<std::string>{"<html><body>Not found</body></html>", "releases:", "x", "\r\n\r\n", "release:\n  a:\n    stable: a/b.wbfw"});
                }
            } else {
                c.Binary = r.Bytes(r.Chance(80) ? 32 + 2 * r.Below(100) : r.Below(70));
            }
        };
        renew(FW_INDEX);
        renew(BOOT_INDEX);
        for (auto& u: urls) {
            if (r.Chance(90)) {
                renew(u);
            }
        }
        std::string story;
        for (auto n = r.Range(20, 80); n--;) {
            // time
            switch (r.Below(6)) {
                case 0:
                    sim::Advance(std::chrono::microseconds(r.Range(1, 60) * 1000000ll));
                    break;
                case 1:
                    sim::Advance(std::chrono::microseconds(r.Range(1, 35) * 60000000ll));
                    break;
                case 2:
                    sim::Advance(std::chrono::microseconds((r.Chance(50) ? 600 : r.Chance(50) ? 1800 : 7200) * 1000000ll + r.Range(-1000000, 1000000)));
                    break;
                case 3:
                    if (r.Chance(20)) {
                        sim::Advance(std::chrono::microseconds(r.Range(1, 10) * 3600000000ll));
                    }
                    break;
            }
            // contents
            if (r.Chance(30)) {
                renew(r.Chance(30) ? FW_INDEX : r.Chance(40) ? BOOT_INDEX : r.Pick(urls));
            }
            if (r.Chance(20)) {
                server->FailPercent = r.Chance(50) ? 0 : r.Range(10, 100);
            }
            if (r.Chance(5)) {
                server->Now.erase(r.Pick(urls));
            }
            int what = r.Below(3);
            auto url = what == 0 ? FW_INDEX : what == 1 ? BOOT_INDEX : r.Pick(urls);
            double ttl = what == 0 ? 600 : what == 1 ? 1800 : 7200;
            auto sig = r.Chance(95) ? r.Pick(sigs) : r.Chance(50) ? "" : Name(r, 1, 12);
            auto suite = r.Chance(95) ? r.Pick(SUITES) : r.Chance(50) ? "" : Name(r, 1, 6);
            double at = Seconds();
            auto had = server->Fetches[url].size();
            std::map<std::string, size_t> others;
            for (auto& f: server->Fetches) {
                others[f.first] = f.second.size();
            }
            bool thrown = false;
            TReleasedBinary got;
            TParsedWBFW image;
            std::string error;
            try {
                if (what == 2) {
                    image = d.DownloadAndParseWBFW(url);
                } else {
                    got = what ? d.GetReleasedBootloader(sig, suite) : d.GetReleasedFirmware(sig, suite);
                }
            } catch (const std::exception& e) {
                thrown = true;
                error = e.what();
            }
            auto& fetches = server->Fetches[url];
            bool fetched = fetches.size() > had;
            for (auto& f: server->Fetches) {
                MON_EXPECT(f.first == url || f.second.size() == others[f.first], "foreign-request", f.first << " when asked for " << url);
            }
            mon::Count("asked");
            mon::Count(fetched ? "fetched" : "not-fetched");
            // The states of the server the answer may come from: the fetch just made, or else a good one within the lifetime
            std::vector<const TServer::TContent*> from;
            if (fetched) {
                if (!fetches.back().Failed) {
                    from.push_back(&fetches.back().What);
                }
            } else {
                for (auto& f: fetches) {
                    if (!f.Failed && at - f.At <= ttl + 0.001) {
                        from.push_back(&f.What);
                    }
                }
                // the last of them only: an answer replaced by a newer one must not return
                if (from.size() > 1) {
                    from.erase(from.begin(), from.end() - 1);
                }
            }
            auto detail = [&] {
                std::stringstream s;
                s << (what == 2 ? url : (what ? "bootloader " : "firmware ") + sig + " " + suite) << " at " << at << (fetched ? " fetched" : " not fetched") << (thrown ? " error " + error : " -> " + got.Endpoint) << " " << story;
                return s.str();
            };
            bool ok = false;
            for (auto c: from) {
                if (what == 2) {
                    bool good = c->Binary.size() >= 32 && c->Binary.size() % 2 == 0;
                    auto all = image.Info;
                    all.insert(all.end(), image.Data.begin(), image.Data.end());
                    ok = ok || (thrown ? !good : good && all == c->Binary && image.Info.size() == 32);
                } else {
                    auto s = c->Index.find(sig);
                    auto p = s == c->Index.end() ? std::map<std::string, std::string>::const_iterator() : s->second.find(suite);
                    bool good = s != c->Index.end() && p != s->second.end() && !(what == 1 && sig.empty());
                    if (good) {
                        auto file = p->second.substr(p->second.rfind('/') + 1);
                        auto version = file.substr(0, file.rfind('.'));
                        ok = ok || !thrown && got.Endpoint == BASE + "/" + p->second && got.Version == version;
                    } else {
                        ok = ok || thrown;
                    }
                }
            }
            if (from.empty()) {
                // a bootloader without a signature needs no request
                ok = thrown && (fetched || what == 1 && sig.empty());
            }
            if (what == 1 && sig.empty()) {
                ok = thrown;
            }
            MON_EXPECT(ok, what == 2 ? "image-answer" : "index-answer", detail());
            MON_EXPECT(!thrown || !error.empty(), "no-message", detail());
            mon::Count(thrown ? "answers-error" : "answers-good");
            if (!thrown && !fetched) {
                mon::Count("answers-cached");
            }
            story += std::string(1, "fbi"[what]) + (fetched ? "F" : "") + (thrown ? "e" : "");
        }
        mon::Distinct(story);
    }

    // --- the HTTP client with a real server on the loopback

    struct THttpServer
    {
        int Fd;
        int Port;
        std::atomic<bool> Stop{false};
        std::thread Thread;
        std::map<std::string, std::pair<std::string, bool>> Answers; // path -> bytes, reset the connection at the end
        std::vector<std::string> Asked;

        THttpServer()
        {
            Fd = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (bind(Fd, (sockaddr*)&a, sizeof(a)) || listen(Fd, 16)) {
                abort();
            }
            socklen_t l = sizeof(a);
            getsockname(Fd, (sockaddr*)&a, &l);
            Port = ntohs(a.sin_port);
        }
        void Run()
        {
            Thread = std::thread([this] {
                while (!Stop) {
                    pollfd p{Fd, POLLIN, 0};
                    if (poll(&p, 1, 20) != 1) {
                        continue;
                    }
                    int c = accept(Fd, nullptr, nullptr);
                    std::string q;
                    char b[2048];
                    ssize_t n;
                    while (q.find("\r\n\r\n") == std::string::npos && (n = recv(c, b, sizeof(b), 0)) > 0) {
                        q.append(b, n);
                    }
                    auto path = q.substr(0, q.find(" HTTP/"));
                    path = path.substr(path.find(' ') + 1);
                    Asked.push_back(path);
                    auto it = Answers.find(path);
                    if (it != Answers.end()) {
                        auto& s = it->second.first;
                        for (size_t i = 0; i < s.size();) {
                            auto m = send(c, s.data() + i, std::min<size_t>(s.size() - i, 1000), MSG_NOSIGNAL);
                            if (m <= 0) {
                                break;
                            }
                            i += m;
                        }
                        if (it->second.second) {
                            linger l{1, 0};
                            setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
                        }
                    }
                    close(c);
                }
            });
        }
        ~THttpServer()
        {
            Stop = true;
            if (Thread.joinable()) {
                Thread.join();
            }
            close(Fd);
        }
    };

    void Http(Rng& r)
    {
        THttpServer s;
        auto base = "http://127.0.0.1:" + std::to_string(s.Port);
        struct TAsk
        {
            std::string Path;
            std::string Body;
            bool Good;
        };
        std::vector<TAsk> asks;
        for (int k = 0; k < 12; ++k) {
            auto path = "/" + Name(r, 1, 5) + std::to_string(k);
            auto bytes = r.Bytes(r.Chance(20) ? r.Below(3) : r.Below(20000));
            std::string body(bytes.begin(), bytes.end());
            if (r.Chance(40)) {
                body = std::string(r.Below(3), " \n\r\t"[r.Below(4)]) + Name(r, 0, 30) + (r.Chance(30) ? " \n" + Name(r, 1, 3) : "") + std::string(r.Below(3), " \n\r\t"[r.Below(4)]);
            }
            auto length = "Content-Length: " + std::to_string(body.size()) + "\r\n";
            auto close = std::string("Connection: close\r\n");
            std::string ok = "HTTP/1.1 200 OK\r\n";
            TAsk ask{path, body, true};
            switch (r.Below(9)) {
                case 0: { // chunked
                    std::string chunks;
                    for (size_t i = 0; i < body.size();) {
                        auto n = std::min<size_t>(body.size() - i, r.Range(1, 5000));
                        char h[20];
                        snprintf(h, sizeof(h), "%zx\r\n", n);
                        chunks += h + body.substr(i, n) + "\r\n";
                        i += n;
                    }
                    bool cut = r.Chance(30);
                    s.Answers[path] = {ok + close + "Transfer-Encoding: chunked\r\n\r\n" + chunks + (cut ? "" : "0\r\n\r\n"), false};
                    ask.Good = !cut;
                    break;
                }
                case 1: // cut
                    s.Answers[path] = {ok + close + length + "\r\n" + body.substr(0, r.Below(body.size() + 1)), r.Chance(50)};
                    ask.Good = s.Answers[path].first.size() == (ok + close + length + "\r\n" + body).size() && !s.Answers[path].second;
                    if (s.Answers[path].second) { // all bytes may or may not have got through
                        s.Answers[path].first = ok + close + length + "\r\n" + body.substr(0, body.size() / 2);
                        ask.Good = body.empty();
                        s.Answers[path].second = !body.empty();
                    }
                    break;
                case 2: { // error codes
                    auto code = r.Pick(std::vector<std::string>{"404 Not Found", "500 Oops", "403 No", "503 Busy", "410 Gone", "206 Partial Content", "204 No Content", "304 Not Modified"});
                    s.Answers[path] = {"HTTP/1.1 " + code + "\r\n" + close + (code[0] == '2' && code[2] == '4' || code[0] == '3' ? "\r\n" : length + "\r\n" + body), false};
                    ask.Good = false;
                    break;
                }
                case 3: // moved
                    s.Answers[path] = {std::string("HTTP/1.1 ") + (r.Chance(50) ? "301 Moved" : "302 Found") + "\r\n" + close + "Content-Length: 3\r\nLocation: " + (r.Chance(50) ? base : "") + path + "-new\r\n\r\nold", false};
                    if (r.Chance(80)) {
                        s.Answers[path + "-new"] = {ok + close + length + "\r\n" + body, false};
                    } else {
                        s.Answers[path + "-new"] = {"HTTP/1.1 404 Not Found\r\n" + close + length + "\r\n" + body, false};
                        ask.Good = false;
                    }
                    break;
                case 4: // no answer at all
                    ask.Good = false;
                    break;
                case 5: // without a length
                    s.Answers[path] = {ok + close + "\r\n" + body, false};
                    break;
                default:
                    s.Answers[path] = {ok + close + length + "\r\n" + body, false};
            }
            asks.push_back(ask);
        }
        s.Run();
        TCurlHttpClient client;
        for (auto& a: asks) {
            bool thrown = false;
            std::string got, error;
            bool text = r.Chance(50);
            auto want = a.Body;
            bool good = a.Good;
            if (text) {
                auto b = want.find_first_not_of(" \t\n\r");
                good = good && b != std::string::npos;
                want = b == std::string::npos ? "" : want.substr(b, want.find_last_not_of(" \t\n\r") - b + 1);
            }
            try {
                if (text) {
                    got = client.GetText(base + a.Path);
                } else {
                    auto b = client.GetBinary(base + a.Path);
                    got.assign(b.begin(), b.end());
                }
            } catch (const std::exception& e) {
                thrown = true;
                error = e.what();
            }
            auto detail = mon::Quote(s.Answers[a.Path].first.substr(0, 150)) + (thrown ? " error " + error : " -> " + std::to_string(got.size()) + " of " + std::to_string(want.size()));
            MON_EXPECT(thrown == !good, good ? "download-failed" : "bad-download-accepted", detail);
            MON_EXPECT(thrown || got == want, "downloaded-other-bytes", detail);
            MON_EXPECT(!thrown || !error.empty(), "no-message", detail);
            mon::Count(thrown ? "downloads-failed" : "downloads-good");
        }
        // nobody listens
        int port;
        {
            THttpServer gone;
            port = gone.Port;
        }
        try {
            client.GetBinary("http://127.0.0.1:" + std::to_string(port) + "/x");
            MON_EXPECT(false, "bad-download-accepted", "nobody listens");
        } catch (const std::exception&) {
            mon::Count("downloads-failed");
        }
    }

    void Case(Rng& r, uint64_t n)
    {
        setenv("no_proxy", "*", 1);
        Indexes(r);
        Images(r);
        Versions(r);
        Suites(r, mon::Scratch());
        for (int k = 0; k < 5; ++k) {
            History(r);
        }
        if (n % 4 == 0) {
            Http(r);
        }
    }
}

MON_CHECK("R06", Case);
