#pragma once
#include <functional>
#include <klepsydra/sdk/publisher.h>
#include <klepsydra/sdk/subscriber.h>
namespace kpsr {
template<class S, class T> class EventTransformForwarder
{
public:
    EventTransformForwarder(const std::function<void(const S &, T &)> &transformFunction,
                            Publisher<T> *publisher)
        : forwarderListenerFunction([this](const S &event) { onEventReceived(event); })
        , _transformFunction(transformFunction)
        , _publisher(publisher)
    {}
    EventTransformForwarder(const EventTransformForwarder &) = delete;
    void onEventReceived(const S &event)
    {
        _publisher->processAndPublish([this, &event](T &t) { _transformFunction(event, t); });
    }
    std::function<void(const S &)> forwarderListenerFunction;

private:
    std::function<void(const S &, T &)> _transformFunction;
    Publisher<T> *_publisher;
};
} // namespace kpsr
