// D01, D02, D03: drivers of meters, sensors and motors with protocols other than Modbus
#include "drv_curtains.h"
#include "drv_iec.h"
#include "serial_client_device_access_handler.h"
#include "drv_meters.h"
#include "serial_client.h"
#include "sys.h"
#include <filesystem>

namespace drv
{
    const std::vector<std::string> Meters{"mercury230", "milur", "mercury200", "pulsar", "lls", "ivtm", "s2k", "uniel", "energomera_ce", "neva", "iec_mode_c", "energomera_mode_c", "energomera_fast"};
    const std::vector<std::string> Motors{"a_ok", "windeco", "dooya", "somfy"};

    PDrv Make(Rng& r, const std::string& p)
    {
        if (p == "mercury230") {
            return std::make_shared<TMercury230>(r);
        }
        if (p == "milur") {
            return std::make_shared<TMilur>(r);
        }
        if (p == "mercury200") {
            return std::make_shared<TMercury200>(r);
        }
        if (p == "pulsar") {
            return std::make_shared<TPulsar>(r);
        }
        if (p == "lls") {
            return std::make_shared<TLls>(r);
        }
        if (p == "ivtm") {
            return std::make_shared<TIvtm>(r);
        }
        if (p == "s2k") {
            return std::make_shared<TS2k>(r);
        }
        if (p == "uniel") {
            return std::make_shared<TUniel>(r);
        }
        if (p == "energomera_ce") {
            return std::make_shared<TEnergomeraCe>(r);
        }
        if (p == "neva") {
            return std::make_shared<TNeva>(r);
        }
        if (p == "iec_mode_c") {
            return std::make_shared<TIecModeC>(r);
        }
        if (p == "energomera_mode_c") {
            return std::make_shared<TEnergomeraModeC>(r);
        }
        if (p == "energomera_fast") {
            return std::make_shared<TEnergomeraFast>(r);
        }
        if (p == "a_ok") {
            return std::make_shared<TAok>(r);
        }
        if (p == "windeco") {
            return std::make_shared<TWinDeco>(r);
        }
        if (p == "dooya") {
            return std::make_shared<TDooya>(r);
        }
        return std::make_shared<TSomfy>(r);
    }

    enum class EResult
    {
        VALUE,
        ERROR,   // of the register
        SESSION, // the session was not opened
        BROKEN   // something else, reported
    };

    struct TBench
    {
        Rng& R;
        PDrv D;
        std::shared_ptr<TSimPort> Sim;
        PFeaturePort Port;
        PHandlerConfig Config;
        PSerialDevice Dev;
        std::string Value, What;
        TSerialClientDeviceAccessHandler Access{std::make_shared<TSerialClientEventsReader>(10)};

        TBench(Rng& r, const std::vector<std::string>& protocols): R(r)
        {
            sim::Reset();
            if (getenv("VLOG")) {
                WBMQTT::TLogger::Sink = [](const std::string& prefix, const std::string& text) { fprintf(stderr, "%s%s\n", prefix.c_str(), text.c_str()); };
                ::Debug.SetEnabled(true);
            }
            do {
                D = Make(r, r.Pick(protocols));
            } while (D->Chans.empty());
            D->Randomize();
            auto path = std::string("/dev/sim1");
            Sim = std::make_shared<TSimPort>(path, D->Baud);
            Sim->Wire = D;
            Sim->KeepFuture = true;
            Port = std::make_shared<TFeaturePort>(Sim, false);
            auto c = Fmt("{\"ports\":[{\"port_type\":\"serial\",\"path\":\"%s\",\"baud_rate\":%d,\"parity\":\"%s\",\"data_bits\":%d,\"stop_bits\":%d,\"devices\":[{", path.c_str(), D->Baud, R.Of<const char*>({"N", "E"}), 8, int(R.Range(1, 2)));
            auto t = "{\"device_type\":\"T\",\"title\":\"T\",\"device\":{\"name\":\"d\",\"id\":\"d\",\"protocol\":\"" + D->Protocol + "\"";
            if (R.Chance(30)) {
                t += Fmt(",\"frame_timeout_ms\":%d", int(R.Range(5, 50)));
            }
            t += ",\"channels\":[";
            for (size_t i = 0; i < D->Chans.size(); ++i) {
                t += (i ? ",{" : "{") + std::string("\"name\":\"") + D->Chans[i].Name + "\"," + D->Chans[i].Json + "}";
            }
            t += "]}}";
            auto dir = mon::Scratch() + "/templates";
            std::filesystem::remove_all(std::filesystem::path(dir));
            std::filesystem::create_directories(dir);
            sys::WriteFile(dir + "/config-t.json", t);
            auto templates = std::make_shared<TTemplateMap>(LoadConfigTemplatesSchema(mon::Repo() + "/wb-mqtt-serial-device-template.schema.json", sys::Static().Common), "");
            templates->AddTemplatesDir(dir);
            c += D->Device + ",\"id\":\"d\",\"device_type\":\"T\"}]}]}";
            try {
                Config = sys::Load(sys::Json(c), {{path, Port}}, templates);
            } catch (const std::exception& e) {
                mon::Violation("configuration:" + D->Protocol, std::string(e.what()) + ": " + c + " " + t);
                return;
            }
            auto d = Config->PortConfigs.at(0)->Devices.at(0);
            Dev = d->Device;
            for (auto& ch: D->Chans) {
                for (auto& x: d->Channels) {
                    if (x->GetName() == ch.Name) {
                        ch.Reg = x->Registers.at(0);
                    }
                }
                if (!ch.Reg) {
                    mon::Violation("no-register:" + D->Protocol, ch.Name + " of " + std::to_string(d->Channels.size()) + " " + c + " " + t);
                    Dev = nullptr;
                    return;
                }
            }
            mon::Count("protocol-" + D->Protocol);
            Sim->Open();
        }

        template<class F> EResult Guard(const char* what, F f)
        {
            D->Requests = 0;
            D->Log.clear();
            D->Rejected = D->Unclear = D->ServiceDamaged = false;
            D->Answers = D->DataAnswers = D->CleanData = D->Damaged = 0;
            auto t = Now();
            auto res = EResult::BROKEN;
            try {
                res = f();
            } catch (const TEndless&) {
                mon::Violation("endless:" + D->Protocol, Fmt("%d requests without an end, last answer %s", int(D->Requests), D->LastAnswer.c_str()));
            } catch (const TSerialDeviceException& e) {
                What = e.what();
                res = EResult::ERROR;
            } catch (const std::exception& e) {
                mon::Violation("exception:" + D->Protocol + ":" + what, std::string(typeid(e).name()) + " " + e.what() + ", answer " + D->LastAnswer);
            }
            mon::Max("longest-ms", uint64_t(std::chrono::duration_cast<milliseconds>(Now() - t).count()));
            if (Now() - t > 300s) {
                mon::Violation("long:" + D->Protocol, Fmt("%s took %d s", what, int(std::chrono::duration_cast<std::chrono::seconds>(Now() - t).count())));
            }
            return res;
        }

        EResult Session()
        {
            if (R.Chance(5)) {
                // as when another device of the port is polled
                Guard("session", [&] {
                    Access.PrepareToAccess(*Port, nullptr);
                    return EResult::VALUE;
                });
                mon::Count("device-switches");
            }
            return Guard("session", [&] {
                return Access.PrepareToAccess(*Port, Dev) ? EResult::VALUE : EResult::ERROR;
            });
        }

        EResult Read(TChan& c)
        {
            if (!Sim->IsOpen()) {
                Sim->Open();
            }
            auto s = Session();
            if (s == EResult::ERROR) {
                return EResult::SESSION;
            }
            if (s == EResult::BROKEN) {
                return s;
            }
            if (c.Reg->GetAvailable() == TRegisterAvailability::UNAVAILABLE) {
                c.Reg->SetAvailable(TRegisterAvailability::AVAILABLE);
            }
            c.Reg->SetError(TRegister::TError::ReadError);
            return Guard("reading", [&] {
                auto range = Dev->CreateRegisterRange();
                if (!range->Add(*Port, c.Reg, milliseconds(100000))) {
                    mon::Violation("range:" + D->Protocol, c.Name);
                    return EResult::BROKEN;
                }
                Dev->ReadRegisterRange(*Port, range);
                if (c.Reg->GetErrorState().test(TRegister::TError::ReadError)) {
                    return EResult::ERROR;
                }
                Value = ConvertFromRawValue(*c.Reg->GetConfig(), c.Reg->GetValue());
                return EResult::VALUE;
            });
        }

        EResult Write(TChan& c, uint64_t v)
        {
            if (!Sim->IsOpen()) {
                Sim->Open();
            }
            auto s = Session();
            if (s != EResult::VALUE) {
                return s == EResult::ERROR ? EResult::SESSION : s;
            }
            return Guard("writing", [&] {
                Dev->WriteRegister(*Port, c.Reg, v);
                return EResult::VALUE;
            });
        }

        static bool Same(const TExp& e, const std::string& v)
        {
            if (e.Error) {
                return false;
            }
            if (e.Text) {
                return v == e.S;
            }
            char* end;
            double x = strtod(v.c_str(), &end);
            return !v.empty() && !*end && (x == e.V || std::fabs(x - e.V) <= 1e-6 * std::fabs(e.V) + 1e-9);
        }
        static std::string Text(const TExp& e)
        {
            return e.Error ? "error" : e.Text ? e.S : Fmt("%.15g", e.V);
        }
        std::string Dialog() const
        {
            std::string s;
            for (size_t i = D->Log.size() > 3 ? D->Log.size() - 3 : 0; i < D->Log.size(); ++i) {
                s += mon::Hex(D->Log[i]) + " ";
            }
            return s + "-> " + D->LastAnswer;
        }

        // Reading of a device which answers well: right at once, or after a while when the session was lost
        bool Good(TChan& c, bool atOnce)
        {
            if (!c.Read) {
                return false;
            }
            auto exp = c.Exp();
            std::string last;
            for (int i = 0; i < 15; ++i) {
                auto res = Read(c);
                mon::Count("clean-reads");
                if (res == EResult::BROKEN) {
                    return false;
                }
                if (res == EResult::VALUE) {
                    if (!Same(exp, Value)) {
                        mon::Violation("wrong-value:" + D->Protocol, c.Json + " expected " + Text(exp) + ", got " + Value + ": " + Dialog());
                    }
                    mon::Count("values-compared");
                    mon::Sample(D->Protocol + " " + c.Json.substr(0, 60) + " " + Value + ": " + Dialog().substr(0, 150));
                    mon::Distinct(D->Protocol + c.Json.substr(0, 24) + Value);
                    return true;
                }
                if (exp.Error) {
                    mon::Count("errors-expected");
                    return false;
                }
                last = res == EResult::SESSION ? "session: " + What : "error";
                if (atOnce) {
                    mon::Violation("not-read:" + D->Protocol, c.Json + " expected " + Text(exp) + ", " + last + ": " + Dialog());
                    return false;
                }
                mon::Count("repeated-reads");
                sim::Advance(1500ms);
            }
            mon::Violation("not-recovered:" + D->Protocol, c.Json + " expected " + Text(exp) + ", " + last + ": " + Dialog());
            return false;
        }
        TChan& Any()
        {
            return R.Pick(D->Chans);
        }
    };

    bool OwnValue(TBench& b, const TChan& c) // the value does not come from the line
    {
        auto s = dynamic_cast<TS2k*>(b.D.get());
        return s && s->Remembered[c.Name];
    }

    void Clean(Rng& r, const std::vector<std::string>& protocols)
    {
        TBench b(r, protocols);
        if (!b.Dev) {
            return;
        }
        auto& d = *b.D;
        mon::Count("devices");
        bool good = true;
        for (int i = r.Range(15, 40); i > 0; --i) {
            auto& c = b.Any();
            if (r.Chance(40)) {
                d.Randomize();
            }
            if (r.Chance(8)) {
                d.Restart();
                mon::Count("restarts");
                good = false;
            }
            if (r.Chance(10)) {
                // the device answers with an error
                if (c.Read && !OwnValue(b, c)) {
                    d.Refuse = true;
                    auto res = b.Read(c);
                    d.Refuse = false;
                    if (res == EResult::VALUE && d.DataAnswers) {
                        mon::Violation("error-as-value:" + d.Protocol, c.Json + " got " + b.Value + ": " + b.Dialog());
                    }
                    mon::Count("refused-reads");
                    good = false;
                    b.Sim->DropRx();
                }
            } else if (c.GenWrite && r.Chance(50)) {
                if (c.Read && good && r.Chance(70)) {
                    b.Good(c, good);
                }
                auto v = c.GenWrite();
                auto frames = c.Frames(v);
                d.Refuse = r.Chance(10) && !c.NoAnswer;
                auto res = b.Write(c, v);
                bool refused = d.Refuse && d.Damaged;
                d.Refuse = false;
                if (res == EResult::BROKEN || res == EResult::SESSION) {
                    continue;
                }
                if (refused) {
                    auto angle = c.Name == "angle" && d.Protocol == "dooya"; // the answer is not used
                    if (res == EResult::VALUE && !angle) {
                        mon::Violation("refused-write-succeeded:" + d.Protocol, c.Json + " " + std::to_string(v) + ": " + b.Dialog());
                    }
                    mon::Count("refused-writes");
                    d.Randomize();
                    if (auto s = dynamic_cast<TS2k*>(&d)) {
                        for (auto& x: d.Chans) { // what the driver remembers has to become known again
                            if (s->Remembered[x.Name] && x.GenWrite) {
                                b.Write(x, 0);
                            }
                        }
                    }
                    good = false;
                    continue;
                }
                if (frames.empty()) {
                    // nothing can be sent yet
                    if (!d.Log.empty() || res == EResult::VALUE) {
                        mon::Violation("written-unread:" + d.Protocol, c.Json + " " + b.Dialog());
                    }
                    continue;
                }
                if (d.Log != frames) {
                    std::string e;
                    for (auto& f: frames) {
                        e += mon::Hex(f) + " ";
                    }
                    mon::Violation("write-frame:" + d.Protocol, c.Json + " value " + std::to_string(v) + " expected " + e + "got " + b.Dialog());
                }
                mon::Count("writes-compared");
                mon::Distinct(d.Protocol + c.Json.substr(0, 24) + std::to_string(v));
                if (res != EResult::VALUE) {
                    mon::Violation("not-written:" + d.Protocol, c.Json + " value " + std::to_string(v) + ": " + b.What + " " + b.Dialog());
                }
                if (c.Read && good) {
                    b.Good(c, true);
                }
            } else if (c.Read) {
                good = b.Good(c, good) || good;
            }
            if (r.Chance(20)) {
                sim::Advance(milliseconds(r.Range(1, 20000)));
            }
        }
    }

    void Hostile(Rng& r)
    {
        auto all = Meters;
        all.insert(all.end(), Motors.begin(), Motors.end());
        TBench b(r, all);
        if (!b.Dev) {
            return;
        }
        auto& d = *b.D;
        mon::Count("devices");
        d.Judge = false;
        bool leftover = false;
        bool unknown = false; // what the device remembers about itself
        for (int i = r.Range(20, 50); i > 0; --i) {
            auto& c = b.Any();
            if (r.Chance(20)) {
                d.Randomize();
            }
            if (r.Chance(5)) {
                d.Restart();
            }
            d.NeverSession = r.Chance(3);
            d.Damage = r.Chance(85) ? EDamage(r.Range(1, int(EDamage::COUNT) - 1)) : EDamage::NONE;
            d.DamageService = r.Chance(30);
            d.DamageOnce = r.Chance(40);
            auto damage = d.Damage;
            if (c.GenWrite && r.Chance(40)) {
                auto res = b.Write(c, c.GenWrite());
                unknown = true;
                mon::Count("hostile-writes");
                if (res == EResult::ERROR) {
                    mon::Count("hostile-writes-failed");
                }
            } else if (c.Read) {
                auto exp = c.Exp();
                auto res = b.Read(c);
                mon::Count("hostile-reads");
                if (res == EResult::VALUE) {
                    mon::Count("hostile-values");
                    bool judged = !d.Unclear && !leftover && !(OwnValue(b, c) && unknown);
                    if (judged && !d.CleanData && !OwnValue(b, c)) {
                        mon::Violation("accepted:" + d.Protocol + ":" + DamageName(damage), c.Json + " got " + b.Value + ": " + b.Dialog());
                    } else if (judged && !b.Same(exp, b.Value)) {
                        mon::Violation("wrong-value:" + d.Protocol + ":" + DamageName(damage), c.Json + " expected " + b.Text(exp) + ", got " + b.Value + ": " + b.Dialog());
                    }
                    mon::Count("hostile-values-judged", judged);
                } else if (res == EResult::ERROR) {
                    mon::Count("hostile-errors");
                }
                mon::Distinct(d.Protocol + DamageName(damage) + (d.DamageService ? "s" : "") + (d.DamageOnce ? "o" : "") + std::to_string(int(res)) + std::to_string(std::min<uint64_t>(d.Requests, 9)));
            }
            leftover = r.Chance(15);
            if (!leftover) {
                sim::Advance(2s);
                b.Sim->DropRx();
            }
        }
        d.NeverSession = false;
        d.Damage = EDamage::NONE;
        d.Judge = true;
        sim::Advance(5s);
        b.Sim->DropRx();
        for (auto& c: d.Chans) {
            if (!(unknown && OwnValue(b, c))) {
                b.Good(c, false);
                mon::Count("recoveries");
            }
        }
    }
}

MON_CHECK("D01", [](mon::Rng& r, uint64_t) { drv::Hostile(r); });
MON_CHECK("D02", [](mon::Rng& r, uint64_t) { drv::Clean(r, drv::Meters); });
MON_CHECK("D03", [](mon::Rng& r, uint64_t) { drv::Clean(r, drv::Motors); });
