// A stand-in for cppzmq (absent here): publish/subscribe sockets within one process, with the parts of
// its interface the ZMQ module uses. Messages of several frames are delivered whole or not at all, in
// order, to every subscriber socket connected to the endpoint with a matching subscription.
#pragma once
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <vector>

#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_SUBSCRIBE 6
#define ZMQ_UNSUBSCRIBE 7
#define ZMQ_POLLIN 1
typedef struct zmq_pollitem_t
{
    void *socket;
    int fd;
    short events;
    short revents;
} zmq_pollitem_t;

namespace zmq {
class error_t : public std::exception
{
public:
    const char *what() const noexcept override { return "zmq error"; }
};
enum class send_flags { none = 0, dontwait = 1, sndmore = 2 };
enum class recv_flags { none = 0, dontwait = 1 };
struct const_buffer
{
    const void *p;
    size_t n;
    const_buffer(const void *p, size_t n)
        : p(p)
        , n(n)
    {}
    const void *data() const { return p; }
    size_t size() const { return n; }
};
inline const_buffer buffer(const void *p, size_t n)
{
    return const_buffer(p, n);
}
inline const_buffer buffer(const std::string &s)
{
    return const_buffer(s.data(), s.size());
}
class message_t
{
public:
    message_t() {}
    explicit message_t(size_t n)
        : _d(n, '\0')
    {}
    message_t(const void *p, size_t n)
        : _d((const char *) p, n)
    {}
    void *data() { return &_d[0]; }
    const void *data() const { return _d.data(); }
    size_t size() const { return _d.size(); }
    bool empty() const { return _d.empty(); }
    bool more() const { return _more; }
    std::string to_string() const { return _d; }
    std::string _d;
    bool _more = false;
};
typedef std::vector<std::string> frames_t;
struct core_t // what is behind a socket
{
    int type;
    std::set<std::string> urls;
    std::multiset<std::string> topics;
    std::deque<std::pair<std::string, bool>> in; // frames, and whether more follow
    frames_t out;                                // frames of the message being sent
    bool polled = false;                         // a thread waits for messages
    bool wants(const std::string &t) const
    {
        for (auto &x : topics)
            if (t.compare(0, x.size(), x) == 0)
                return true;
        return false;
    }
};
class context_t
{
public:
    explicit context_t(int = 1)
        : n(std::make_shared<net_t>())
    {}
    context_t(const context_t &) = delete;
    struct net_t
    {
        std::mutex m;
        std::condition_variable cv;
        std::set<core_t *> sockets;
    };
    std::shared_ptr<net_t> n;
};
class socket_t
{
public:
    socket_t(context_t &c, int type)
        : n(c.n)
        , k(new core_t)
    {
        k->type = type;
        std::lock_guard<std::mutex> g(n->m);
        n->sockets.insert(k.get());
    }
    socket_t(const socket_t &) = delete;
    ~socket_t()
    {
        std::lock_guard<std::mutex> g(n->m);
        n->sockets.erase(k.get());
    }
    void bind(const std::string &u) { connect(u); }
    void connect(const std::string &u)
    {
        std::lock_guard<std::mutex> g(n->m);
        k->urls.insert(u);
    }
    void setsockopt(int o, const void *p, size_t s)
    {
        std::lock_guard<std::mutex> g(n->m);
        std::string t((const char *) p, s);
        if (o == ZMQ_SUBSCRIBE)
            k->topics.insert(t);
        else if (o == ZMQ_UNSUBSCRIBE) {
            auto it = k->topics.find(t);
            if (it != k->topics.end())
                k->topics.erase(it);
        }
    }
    std::optional<size_t> send(const_buffer b, send_flags f = send_flags::none) { return put(b.p, b.n, f); }
    std::optional<size_t> send(message_t &m, send_flags f)
    {
        auto r = put(m.data(), m.size(), f);
        m._d.clear();
        return r;
    }
    std::optional<size_t> send(message_t &&m, send_flags f = send_flags::none) { return put(m.data(), m.size(), f); }
    bool send(message_t &m, int f = 0)
    {
        return (bool) send(m, (send_flags) f);
    }
    std::optional<size_t> recv(message_t &m, recv_flags f)
    {
        std::unique_lock<std::mutex> g(n->m);
        if (f == recv_flags::dontwait && k->in.empty())
            return {};
        while (k->in.empty())
            n->cv.wait(g);
        m._d = k->in.front().first;
        m._more = k->in.front().second;
        k->in.pop_front();
        return m.size();
    }
    bool recv(message_t *m, int f = 0) { return (bool) recv(*m, (recv_flags) f); }
    bool recv(message_t &m) { return (bool) recv(m, recv_flags::none); }
    operator void *() { return this; }
    void *handle() { return this; }

    // for the harness: nothing to read and the reader waits for messages
    bool calm()
    {
        std::lock_guard<std::mutex> g(n->m);
        return k->in.empty() && k->polled;
    }
    std::shared_ptr<context_t::net_t> n;
    std::unique_ptr<core_t> k;

private:
    std::optional<size_t> put(const void *p, size_t s, send_flags f)
    {
        std::lock_guard<std::mutex> g(n->m);
        k->out.push_back(std::string((const char *) p, s));
        if (f == send_flags::sndmore)
            return s;
        for (core_t *o : n->sockets) {
            if (o->type != ZMQ_SUB || !o->wants(k->out[0]))
                continue;
            bool joined = false;
            for (auto &u : k->urls)
                joined |= o->urls.count(u) > 0;
            if (joined)
                for (size_t i = 0; i < k->out.size(); i++)
                    o->in.push_back({k->out[i], i + 1 < k->out.size()});
        }
        k->out.clear();
        n->cv.notify_all();
        return s;
    }
};
typedef zmq_pollitem_t pollitem_t;
inline int poll(pollitem_t *items, size_t count, long timeout = -1)
{
    if (!count)
        return 0;
    socket_t &s = *static_cast<socket_t *>(items[0].socket); // one socket is enough here
    std::unique_lock<std::mutex> g(s.n->m);
    auto ready = [&] { return !s.k->in.empty(); };
    s.k->polled = true;
    if (timeout < 0)
        s.n->cv.wait(g, ready);
    else
        s.n->cv.wait_for(g, std::chrono::milliseconds(timeout), ready);
    s.k->polled = false;
    items[0].revents = ready() ? items[0].events & ZMQ_POLLIN : 0;
    return ready() ? 1 : 0;
}
inline int poll(pollitem_t *items, size_t count, std::chrono::milliseconds t)
{
    return poll(items, count, (long) t.count());
}
inline int poll(std::vector<pollitem_t> &items, std::chrono::milliseconds t)
{
    return poll(items.data(), items.size(), (long) t.count());
}
} // namespace zmq
