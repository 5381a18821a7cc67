#pragma once
#include "testlog.h"
namespace WBMQTT::Testing
{
    class TFakeMqttBroker;
    class TFakeMqttClient: public TMqttClient
    {
    public:
        TFakeMqttClient(TFakeMqttBroker& b, std::string n): Broker(b), Name(std::move(n))
        {}
        TFuture<void> Publish(const TMqttMessage& m) override;
        void Subscribe(TMqttMessageHandler handler, const std::string& topic) override;
        void Stop() override;

    private:
        TFakeMqttBroker& Broker;
        std::string Name;
    };
    using PFakeMqttClient = std::shared_ptr<TFakeMqttClient>;
    class TFakeMqttBroker
    {
    public:
        explicit TFakeMqttBroker(TLoggedFixture& f): Fixture(f)
        {}
        PFakeMqttClient MakeClient(const std::string& name);
        void Publish(const std::string& client, const std::vector<TMqttMessage>& msgs);
        TFuture<TMqttMessage> WaitForPublish(const std::string& topic);
        std::vector<std::pair<std::string, TMqttMessageHandler>> Subs;
        std::vector<std::pair<std::string, TPromise<TMqttMessage>>> Waits;
        std::recursive_mutex M;
        TLoggedFixture& Fixture;
        void Deliver(const TMqttMessage& m);
    };
    using PFakeMqttBroker = std::shared_ptr<TFakeMqttBroker>;
    PFakeMqttBroker NewFakeMqttBroker(TLoggedFixture& f);
}
