// Instantiates the class templates of the library so that the front end generates every member; never executed.
#include <coro/coro.hpp>
#include <chrono>
#include <string>
using namespace std::chrono_literals;
namespace drv { struct value { value(); value(const value&); value(value&&) noexcept; value& operator=(const value&); value& operator=(value&&) noexcept; ~value(); int x; };
                struct throwing_value { throwing_value(); throwing_value(const throwing_value&); throwing_value(throwing_value&&); throwing_value& operator=(const throwing_value&); throwing_value& operator=(throwing_value&&); ~throwing_value(); int x; }; }
using pool = coro::thread_pool;
using sched = coro::scheduler;
template class coro::semaphore<7>;
template class coro::detail::acquire_operation<7>;
template class coro::ring_buffer<drv::value, 5>;
template class coro::queue<drv::value>;
template class coro::shared_mutex<pool>;
template struct coro::detail::shared_lock_operation<pool>;
template class coro::task_group<pool>;
template coro::task_group<pool>::task_group(pool*, std::vector<coro::task<void>>);
template coro::task_group<pool>::task_group(std::unique_ptr<pool>&, std::vector<coro::task<void>>);
template auto coro::ring_buffer<drv::value, 5>::shutdown_drain<pool>(std::unique_ptr<pool>&) -> coro::task<void>;
template auto coro::queue<drv::value>::shutdown_drain<pool>(std::unique_ptr<pool>&) -> coro::task<void>;
template auto coro::queue<drv::value>::emplace<const drv::value&>(const drv::value&) -> coro::task<coro::queue_produce_result>;
template auto coro::event::set<pool>(std::unique_ptr<pool>&, coro::resume_order_policy) noexcept -> void;
template auto coro::latch::count_down<pool>(std::unique_ptr<pool>&, std::int64_t) noexcept -> void;
template auto coro::condition_variable::notify_one<pool>(std::unique_ptr<pool>&) -> void;
template auto coro::condition_variable::notify_all<pool>(std::unique_ptr<pool>&) -> void;
template struct coro::detail::lock_operation<coro::scoped_lock>;
template struct coro::detail::lock_operation<void>;
coro::task<void> drv_cv(coro::condition_variable& cv, std::unique_ptr<sched>& s, coro::scoped_lock& lk, std::stop_token t)
{
    (void)co_await cv.wait_for(s, lk, 10ms);
    (void)co_await cv.wait_for(s, lk, 10ms, [] { return true; });
    (void)co_await cv.wait_for(s, lk, t, 10ms, [] { return true; });
    (void)co_await cv.wait_until(s, lk, std::chrono::steady_clock::now());
    (void)co_await cv.wait_until(s, lk, std::chrono::steady_clock::now(), [] { return true; });
    (void)co_await cv.wait_until(s, lk, t, std::chrono::steady_clock::now(), [] { return true; });
    co_await cv.wait(lk);
    co_await cv.wait(lk, [] { return true; });
    (void)co_await cv.wait(lk, t, [] { return true; });
}
coro::task<void> drv_sync(coro::event& e, coro::mutex& m, coro::latch& l)
{
    co_await e;
    auto lk = co_await m.scoped_lock();
    co_await l;
    (void)co_await m.lock();
}
