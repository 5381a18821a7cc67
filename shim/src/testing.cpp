#include "wblib/testing/fake_mqtt.h"

#include <algorithm>
#include <fstream>

namespace WBMQTT::Testing
{
    namespace
    {
        std::string DataDir = "test/";
        bool Skip(const std::string& l)
        {
            // Service traffic of libwbmqtt1 that the stand-in does not reproduce
            for (const char* p: {"Subscribe: ", "Unsubscribe", "(retain) -> ", "-> ", "stop: "}) {
                if (l.rfind(p, 0) == 0) {
                    return true;
                }
            }
            // Retained initial values restored by libwbmqtt1 and messages from others
            return l.find("/meta") != std::string::npos && l.find("/meta/error: ") == std::string::npos;
        }
    }

    std::string TLoggedFixture::GetDataFilePath(const std::string& rel)
    {
        return DataDir + rel;
    }

    void TLoggedFixture::SetExecutableName(const std::string& name)
    {
        (void)name;
        if (auto* d = getenv("WB_TEST_DATA")) {
            DataDir = d;
        }
    }

    void TLoggedFixture::Append(const std::string& line)
    {
        std::lock_guard<std::mutex> l(M);
        size_t pos = 0;
        while (true) {
            auto e = line.find('\n', pos);
            Lines.push_back(line.substr(pos, e == std::string::npos ? e : e - pos));
            if (e == std::string::npos) {
                break;
            }
            pos = e + 1;
        }
    }

    void TLoggedFixture::TearDown()
    {
        auto* info = ::testing::UnitTest::GetInstance()->current_test_info();
        std::string name = std::string(info->test_suite_name()) + "." + info->name();
        std::ifstream f(DataDir + name + ".dat");
        std::vector<std::string> exp, got;
        auto squash = [](std::string s) {
            while (!s.empty() && isspace((unsigned char)s.back())) {
                s.pop_back();
            }
            return s;
        };
        std::string s;
        while (std::getline(f, s)) {
            if (!Skip(s)) {
                exp.push_back(squash(s));
            }
        }
        for (auto& l: Lines) {
            if (!Skip(l)) {
                got.push_back(squash(l));
            }
        }
        auto noempty = [](std::vector<std::string>& v) {
            v.erase(std::remove_if(v.begin(), v.end(), [](auto& x) { return x.empty(); }), v.end());
        };
        noempty(exp);
        noempty(got);
        if (Mode == E_Unordered) {
            std::sort(exp.begin(), exp.end());
            std::sort(got.begin(), got.end());
            exp.erase(std::unique(exp.begin(), exp.end()), exp.end());
            got.erase(std::unique(got.begin(), got.end()), got.end());
        }
        if (exp != got) {
            std::ofstream o("/tmp/wbout/" + name + ".out");
            for (auto& l: got) {
                o << l << "\n";
            }
            std::ofstream o2("/tmp/wbout/" + name + ".exp");
            for (auto& l: exp) {
                o2 << l << "\n";
            }
            ADD_FAILURE() << "log of " << name << " differs";
        }
    }

    TFuture<void> TFakeMqttClient::Publish(const TMqttMessage& m)
    {
        Broker.Fixture.Emit() << "Publish: " << m.Topic << ": '" << m.Payload << "' (QoS " << int(m.Qos)
                              << (m.Retained ? ", retained)" : ")");
        Broker.Deliver(m);
        return Ready();
    }

    void TFakeMqttClient::Subscribe(TMqttMessageHandler handler, const std::string& topic)
    {
        std::lock_guard<std::recursive_mutex> l(Broker.M);
        Broker.Subs.emplace_back(topic, handler);
    }

    void TFakeMqttClient::Stop()
    {}

    PFakeMqttClient TFakeMqttBroker::MakeClient(const std::string& name)
    {
        return std::make_shared<TFakeMqttClient>(*this, name);
    }

    void TFakeMqttBroker::Publish(const std::string&, const std::vector<TMqttMessage>& msgs)
    {
        for (auto& m: msgs) {
            Fixture.Emit() << "Publish: " << m.Topic << ": '" << m.Payload << "' (QoS " << int(m.Qos)
                           << (m.Retained ? ", retained)" : ")");
            for (auto& s: Subs) {
                s.second(m);
            }
            Deliver(m);
        }
    }

    void TFakeMqttBroker::Deliver(const TMqttMessage& m)
    {
        std::lock_guard<std::recursive_mutex> l(M);
        for (auto& w: Waits) {
            if (w.first == m.Topic && !w.second.IsFulfilled()) {
                w.second.Complete(m);
            }
        }
    }

    TFuture<TMqttMessage> TFakeMqttBroker::WaitForPublish(const std::string& topic)
    {
        std::lock_guard<std::recursive_mutex> l(M);
        Waits.emplace_back(topic, TPromise<TMqttMessage>());
        return Waits.back().second.GetFuture();
    }

    PFakeMqttBroker NewFakeMqttBroker(TLoggedFixture& f)
    {
        return std::make_shared<TFakeMqttBroker>(f);
    }
}
