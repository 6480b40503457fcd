// Instantiates tasks, combinators and executors; never executed.
#include <coro/coro.hpp>
#include <chrono>
#include <string>
using namespace std::chrono_literals;
namespace drv { struct value { value(); value(const value&); value(value&&) noexcept; value& operator=(const value&); value& operator=(value&&) noexcept; ~value(); int x; };
coro::task<void> tv(); coro::task<value> tx(); coro::task<value&> tr(); coro::task<const int> tc();
coro::task<void>& tvr();
}
using namespace drv;
using pool = coro::thread_pool;
using sched = coro::scheduler;
template class coro::task<void>;
template class coro::task<value>;
template class coro::task<value&>;
template struct coro::detail::promise<value>;
template struct coro::detail::promise<value&>;
template class coro::generator<value>;
template class coro::detail::generator_promise<value>;
template class coro::detail::generator_iterator<value>;
template class coro::detail::sync_wait_task<value>;
template class coro::detail::sync_wait_task<value&>;
template class coro::detail::sync_wait_task_promise<value>;
template class coro::detail::sync_wait_task_promise<value&>;
template class coro::detail::when_all_task<value>;
template class coro::detail::when_all_task_promise<value>;
template class coro::detail::when_all_ready_awaitable<std::tuple<coro::detail::when_all_task<void>, coro::detail::when_all_task<value>>>;
template class coro::detail::when_all_ready_awaitable<std::vector<coro::detail::when_all_task<value>>>;
coro::task<void> drv_tasks()
{
    value v = co_await tx();
    value& r = co_await tr();
    co_await tv();
    auto t = tx(); auto& v2 = co_await t; (void)v2;
    (void)v; (void)r;
    auto vv = co_await coro::invoke([](int) -> coro::task<value> { co_return co_await tx(); }, 1);
    (void)vv;
}
template class coro::generator<value&>;
template class coro::detail::generator_promise<value&>;
template class coro::detail::generator_iterator<value&>;
template class coro::generator<const value>;
template class coro::detail::generator_iterator<const value>;
coro::generator<value> drv_gen() { co_yield value{}; value v{}; co_yield v; }
coro::generator<value&> drv_gen_ref() { value v{}; co_yield v; }
coro::generator<const value> drv_gen_const() { const value v{}; co_yield v; }
bool drv_gen_cmp(coro::generator<value>& g)
{
    auto it = g.begin(); auto e = g.end(); it++; ++it; (void)it->x; (void)*it;
    return operator==(it, e) && operator==(e, it) && operator!=(it, e) && operator!=(e, it);
}
void drv_gen_use() { for (auto& v : drv_gen()) (void)v; }
coro::task<void> drv_when()
{
    auto t1 = co_await coro::when_all(tv(), tx());
    std::vector<coro::task<value>> vs; std::vector<coro::task<void>> vv;
    auto t2 = co_await coro::when_all(std::move(vs));
    auto t3 = co_await coro::when_all(std::move(vv));
    auto w = coro::when_all(tv(), tx()); auto& t4 = co_await w;
    std::vector<coro::task<value>> vs2; std::vector<coro::task<void>> vv2;
    auto w2 = coro::when_all(std::move(vs2)); auto& t5 = co_await w2;
    (void)t4; (void)t5;
    std::stop_source ss;
    auto a1 = co_await coro::when_any(ss, tv(), tx());
    auto a2 = co_await coro::when_any(tv(), tx());
    std::vector<coro::task<value>> va, va2; std::vector<coro::task<void>> vb, vb2;
    auto a3 = co_await coro::when_any(ss, std::move(va));
    auto a4 = co_await coro::when_any(std::move(va2));
    co_await coro::when_any(ss, std::move(vb));
    co_await coro::when_any(std::move(vb2));
}
void drv_sync_wait()
{
    coro::sync_wait(tv());
    auto v = coro::sync_wait(tx());
    auto& r = coro::sync_wait(tr());
    (void)v; (void)r;
}
template auto coro::thread_pool::schedule<value>(coro::task<value>) -> coro::task<value>;
template auto coro::thread_pool::schedule<void>(coro::task<void>) -> coro::task<void>;
template auto coro::thread_pool::resume<std::vector<std::coroutine_handle<>>>(const std::vector<std::coroutine_handle<>>&) noexcept -> std::size_t;
template auto coro::scheduler::resume<std::vector<std::coroutine_handle<>>>(const std::vector<std::coroutine_handle<>>&) noexcept -> std::size_t;
template auto coro::scheduler::schedule<value>(coro::task<value>) -> coro::task<value>;
template auto coro::scheduler::schedule<void>(coro::task<void>) -> coro::task<void>;
coro::task<void> drv_sched(sched& s, std::stop_source ss)
{
    (void)co_await s.schedule(tx(), 10ms);
    (void)co_await s.schedule(tv(), 10ms);
    (void)co_await s.schedule(ss, tx(), 10ms);
    (void)co_await s.schedule(ss, tv(), 10ms);
    co_await s.schedule_after(10ms);
    co_await s.yield_for(10us);
    co_await s.schedule();
    co_await s.yield();
}
