F, H = "src/condition_variable.cpp", "include/coro/condition_variable.hpp"
PUSH = "    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));\n"
WP = "auto condition_variable::awaiter_with_predicate::"
ST = "auto condition_variable::awaiter_with_predicate_stop_token::"
HK = "    // Re-enqueue prior to unlocking, otherwise a notify issued by the next lock owner would be lost.\n"
MUTANTS = [
    ("cv-unlock-first", "C05", [(F, "    m_awaiting_coroutine = awaiting_coroutine;\n" + PUSH + "    m_lock.m_mutex->unlock();\n    return true;\n}\n\nauto condition_variable::awaiter::on", "    m_awaiting_coroutine = awaiting_coroutine;\n    m_lock.m_mutex->unlock();\n" + PUSH + "    return true;\n}\n\nauto condition_variable::awaiter::on")], "bad"),
    ("cv-handle-late", "C05", [(F, "    m_awaiting_coroutine = awaiting_coroutine;\n" + PUSH + "    m_lock.m_mutex->unlock();\n    return true;\n}\n\nauto condition_variable::awaiter::on", PUSH + "    m_awaiting_coroutine = awaiting_coroutine;\n    m_lock.m_mutex->unlock();\n    return true;\n}\n\nauto condition_variable::awaiter::on")], "bad"),
    ("cv-nolock", "C05", [(F, "    co_await m_lock.m_mutex->lock();\n    m_awaiting_coroutine.resume();", "    m_awaiting_coroutine.resume();")], "bad"),
    ("cv-pred-unlocked", "C05", [(F, "    co_await waiter_mutex->lock();\n    if (m_predicate())\n", "    const bool ready = m_predicate();\n    co_await waiter_mutex->lock();\n    if (ready)\n")], "bad"),
    ("cv-stop-ignored", "C05", [(F, "    if (m_predicate_result || m_stop_token.stop_requested())\n", "    if (m_predicate_result)\n")], "bad"),
    ("cv-requeue-late", "C05", [(F, HK + PUSH + "    waiter_mutex->unlock();\n    co_return notify_status_t::not_ready;\n}\n\n#ifndef", "    waiter_mutex->unlock();\n" + PUSH + "    co_return notify_status_t::not_ready;\n}\n\n#ifndef")], "bad"),
    ("cv-one-nopopmx", "C05", [(F, "            std::scoped_lock lk{m_pop_mutex};\n            waiter =", "            waiter =")], "bad"),
    ("cv-one-dead", "C05", [(F, "                // This is an awaiter_with_wait_hook that timed out, try the next awaiter.\n                break;", "                co_return;")], "bad"),
    ("cv-one-again", "C05", [(F, "                // The waiter has re-enqueued itself since the predicate isn't ready, the notify has been satisfied.\n                co_return;", "                break;")], "bad"),
    ("cv-all-next", "C05", [(F, "        awaiter_base* next = waiter->m_next;\n", ""), (F, "        waiter = next;\n", "        waiter = waiter->m_next;\n")], "bad"),
    ("cv-all-one", "C05", [(F, "        waiter = next;\n", "        waiter = nullptr;\n        (void)next;\n")], "bad"),
    ("cv-hook-norelease", "C05", [(F, "        event_lock.unlock();\n        m_data.m_notify_callback.set();\n        co_return notify_status_t::awaiter_dead;", "        co_return notify_status_t::awaiter_dead;")], "bad"),
    ("cv-hook-noclaim", "C05", [(F, "    if (!m_data.m_predicate.has_value())\n    {\n        m_data.m_awaiter_completed.exchange(true, std::memory_order::release);\n", "    if (!m_data.m_predicate.has_value())\n    {\n")], "bad"),
    ("cv-hook-locked-set", "C05", [(F, "        event_lock.unlock();\n        m_data.m_notify_callback.set();\n        co_return notify_status_t::ready;\n    }\n\n    m_data", "        m_data.m_notify_callback.set();\n        event_lock.unlock();\n        co_return notify_status_t::ready;\n    }\n\n    m_data")], "bad"),
    ("cv-hook-check-early", "C05", [(F, "    auto event_lock = co_await m_data.m_event_mutex.scoped_lock();\n\n    // See if this awaiter is a real notify or if it has timed out already.\n    if (m_data.m_awaiter_completed.load(std::memory_order::acquire))\n    {", "    const bool gone = m_data.m_awaiter_completed.load(std::memory_order::acquire);\n    auto event_lock = co_await m_data.m_event_mutex.scoped_lock();\n\n    if (gone)\n    {")], "bad"),
    ("cv-timeout-noclaim", "C05", [(H, "            bool expected{false};\n            if (data.m_awaiter_completed.compare_exchange_strong(\n                    expected, true, std::memory_order::release, std::memory_order::relaxed))\n", "            if (!data.m_awaiter_completed.load(std::memory_order::acquire))\n")], "bad"),
    ("cv-timeout-nolock", "C05", [(H, "                co_await m_lock.m_mutex->lock();\n", "")], "bad"),
    ("cv-timeout-nopred", "C05", [(H, "data.m_predicate.has_value() ? data.m_predicate.value()() : true;", "!data.m_predicate.has_value();")], "bad"),
    ("cv-cb-always", "C05", [(H, "            if (data.m_notified)\n", "")], "bad"),
    ("cv-cb-status", "C05", [(H, "            if (data.m_notified)\n", "            if (m_status.value() == std::cv_status::no_timeout)\n")], "bad"),
    ("cv-ctl-this", "C05", [(H, "make_timeout_task(data, executor, wait_for)", "make_timeout_task(data, m_executor.get(), wait_for)")], "bad"),
    ("cv-ctl-unlock-first", "C05", [(H, "            detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));\n            m_lock.m_mutex->unlock(); // Unlock", "            m_lock.m_mutex->unlock();\n            detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));\n            // Unlock")], "bad"),
    ("cv-waituntil-nopred", "C05", [(H, "            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for),\n            std::move(predicate)};\n    }\n\n    template<concepts::io_executor io_executor_type, class clock_type, class duration_type>\n    auto wait_until(\n        std::unique_ptr<io_executor_type>&                       executor,\n        coro::scoped_lock&                                       lock,\n        std::stop_token ", "            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for)};\n    }\n\n    template<concepts::io_executor io_executor_type, class clock_type, class duration_type>\n    auto wait_until(\n        std::unique_ptr<io_executor_type>&                       executor,\n        coro::scoped_lock&                                       lock,\n        std::stop_token ")], "bad"),
    ("cv-guard-moved", "C05", [(F, PUSH + "    m_lock.m_mutex->unlock();\n    return true;\n}\n\nauto condition_variable::awaiter::on", PUSH + "    m_lock.unlock();\n    return true;\n}\n\nauto condition_variable::awaiter::on")], "bad"),
    # behaviour preserving
    ("cv-ok-if", "C05", [(F, "        switch (co_await waiter->on_notify())\n        {\n            case notify_status_t::ready:\n                // The predicate was ready and the awaiter is resumed.\n                co_return;\n            case notify_status_t::not_ready:\n                // The waiter has re-enqueued itself since the predicate isn't ready, the notify has been satisfied.\n                co_return;\n            case notify_status_t::awaiter_dead:\n                // This is an awaiter_with_wait_hook that timed out, try the next awaiter.\n                break;\n        }\n", "        const auto outcome = co_await waiter->on_notify();\n        if (outcome != notify_status_t::awaiter_dead)\n        {\n            co_return;\n        }\n")], "ok"),
    ("cv-ok-all", "C05", [(F, "    auto* waiter = pop_all_awaiters();\n\n    while (waiter != nullptr)\n    {\n        // Need to grab next before notifying since the notifier will self destruct after completing.\n        awaiter_base* next = waiter->m_next;\n", "    for (awaiter_base *waiter = pop_all_awaiters(), *next = nullptr; waiter != nullptr; waiter = next)\n    {\n        next = waiter->m_next;\n"), (F, "        waiter = next;\n", "")], "ok"),
    ("cv-ok-sus", "C05", [(F, "    m_awaiting_coroutine = awaiting_coroutine;\n" + PUSH + "    m_lock.m_mutex->unlock();\n    return true;\n}\n\nauto condition_variable::awaiter::on", "    auto& cv = m_condition_variable;\n    auto* mtx = m_lock.m_mutex;\n    m_awaiting_coroutine = awaiting_coroutine;\n    coro::detail::awaiter_list_push(cv.m_awaiters, static_cast<awaiter_base*>(this));\n    mtx->unlock();\n    return true;\n}\n\nauto condition_variable::awaiter::on")], "ok"),
    ("cv-ok-pred", "C05", [(F, "    if (m_predicate())\n    {\n        m_awaiting_coroutine.resume();\n        co_return notify_status_t::ready;\n    }\n\n" + HK + PUSH + "    waiter_mutex->unlock();\n    co_return notify_status_t::not_ready;", "    const bool ready = m_predicate();\n    if (!ready)\n    {\n" + PUSH + "        waiter_mutex->unlock();\n        co_return notify_status_t::not_ready;\n    }\n    auto handle = m_awaiting_coroutine;\n    handle.resume();\n    co_return notify_status_t::ready;")], "ok"),
    ("cv-ok-hook", "C05", [(F, "    m_data.m_predicate_result = m_data.m_predicate.value()();\n", "    auto& predicate = *m_data.m_predicate;\n    const bool result = predicate();\n    m_data.m_predicate_result = result;\n")], "ok"),
    ("cv-ok-hookload", "C05", [(F, "    auto event_lock = co_await m_data.m_event_mutex.scoped_lock();\n", "    auto& data = m_data;\n    auto event_lock = co_await data.m_event_mutex.scoped_lock();\n"), (F, "    m_data.m_predicate_result = m_data.m_predicate.value()();\n", "    data.m_predicate_result = data.m_predicate.value()();\n")], "ok"),
    ("cv-ok-timeout", "C05", [(H, "            bool expected{false};\n            if (data.m_awaiter_completed.compare_exchange_strong(\n                    expected, true, std::memory_order::release, std::memory_order::relaxed))\n            {\n", "            const bool notified = data.m_awaiter_completed.exchange(true, std::memory_order::acq_rel);\n            if (!notified)\n            {\n")], "ok"),
]
