// M01: what is published of Modbus registers equals the contents of the devices
#include "msys.h"

namespace
{
    using namespace msys;
    using namespace sim;

    void Case(Rng& r, uint64_t)
    {
        sim::Reset();
        TWorld w(r);
        TProfile p;
        p.Continuous = true;
        w.Baud = r.Of({1200, 9600, 9600, 19200, 38400, 115200});
        w.Tcp = r.Chance(15);
        w.MakeDevs(p);
        w.MaxUnchangedS = r.Of({-1, 0, 1, 5});
        w.FillMemory();
        w.OnPub = [&](const std::string& dev, const std::string& ctl, bool error, const std::string& text) {
            if (error) {
                if (!text.empty()) {
                    mon::Count("errors");
                }
                return;
            }
            w.CheckPublished(dev, ctl, text, "value");
        };
        w.Start();
        for (auto& d: w.Devs) {
            w.Slaves[d.Slave]->Fault = [&](const TModbusRequest&) {
                TAnswer a;
                a.Delay = milliseconds(r.Below(30));
                return a;
            };
        }
        uint64_t reads = 0;
        w.Answered.push_back([&](int, const TModbusRequest& q, const TBytes&, bool) { reads += q.IsRead(); });
        auto steps = r.Range(6, 20);
        for (int i = 0; i < steps; ++i) {
            w.Svc->RunFor(milliseconds(r.Range(100, 3000)));
            w.Mutate(r.Below(10));
            auto writes = r.Below(3);
            for (size_t k = 0; k < writes; ++k) {
                auto& d = r.Pick(w.Devs);
                if (d.Chans.empty()) {
                    continue;
                }
                auto& c = r.Pick(d.Chans);
                if (c.ReadOnly) {
                    continue;
                }
                std::string v;
                for (auto& x: c.Parts) {
                    v += (v.empty() ? "" : ";") + w.RandomText(x);
                }
                if (c.OnOff()) {
                    v = r.Of({"0", "1"});
                }
                mon::Count("writes");
                w.Svc->Write(d.Id, c.Name, v);
            }
        }
        mon::Count("requests", reads);
        mon::Count("histories");
        mon::Sample(w.Devs[0].Id + ": " + std::to_string(reads) + " reads, " + Describe(w.Devs[0]).substr(0, 200));
    }
    MON_CHECK("M01", Case);
}
