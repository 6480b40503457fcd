// Instantiates the networking templates; never executed.
#include <coro/coro.hpp>
#include <chrono>
#include <span>
#include <string>
using namespace std::chrono_literals;
using sched = coro::scheduler;
using C = coro::net::tcp::client;
using T = coro::net::tls::client;
using U = coro::net::udp::peer;
coro::task<void> drv_tcp(C& c, std::string& s, const std::string& cs, std::vector<std::byte>& b, coro::poll_stop_token tok)
{
    (void)co_await c.read_some(s, 1ms);
    (void)co_await c.read_exact(s, 1ms);
    (void)co_await c.write_some(cs, 1ms);
    (void)co_await c.write_all(cs, 1ms);
    (void)co_await c.read_some(b);
    (void)co_await c.read_exact(b);
    (void)co_await c.write_some(b);
    (void)co_await c.write_all(b);
    (void)tok;
}
coro::task<void> drv_tls(T& c, std::string& s, const std::string& cs)
{
    (void)co_await c.recv(s, 1ms);
    (void)co_await c.send(cs, 1ms);
}
coro::task<void> drv_udp(U& u, std::string& s, const std::string& cs, coro::net::socket_address a)
{
    (void)co_await u.read_from(s, 1ms);
    (void)co_await u.write_to(a, cs, 1ms);
}
template class coro::net::dns::resolver<sched>;
