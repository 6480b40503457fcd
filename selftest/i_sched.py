C, H = "src/scheduler.cpp", "include/coro/scheduler.hpp"
ADD = "                s.m_size.fetch_add(1, std::memory_order::release);\n"
PUSHL = "                detail::awaiter_list_push(s.m_scheduled_ops, this);\n"
TAKE = "    auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops);\n"
CLEAR = "    m_schedule_pipe_triggered.exchange(false, std::memory_order::release);\n"
MUTANTS = [
    ("sc-count-late", "C15", [(H, ADD, ""), (H, PUSHL, PUSHL + ADD)], "bad"),
    ("sc-no-count", "C15", [(H, ADD, "")], "bad"),
    ("sc-late-touch", "C15", [(H, "                auto& s = m_scheduler;\n", ""), (H, ADD, ADD.replace("s.m_size", "m_scheduler.m_size")), (H, PUSHL, PUSHL.replace("s.m_sch", "m_scheduler.m_sch")), (H, "                if (s.m_schedule_pipe_triggered", "                auto& s = m_scheduler;\n                if (s.m_schedule_pipe_triggered")], "bad"),
    ("sc-handle-late", "C15", [(H, "                m_awaiting_coroutine = awaiting_coroutine;\n", ""), (H, PUSHL, PUSHL + "                m_awaiting_coroutine = awaiting_coroutine;\n")], "bad"),
    ("sc-no-wake", "C15", [(H, "                    ssize_t       written = s.m_schedule_pipe.write(&control, sizeof(control));", "                    ssize_t       written = sizeof(control);")], "bad"),
    ("sc-wake-shut", "C15", [(H, "                    ssize_t       written = s.m_schedule_pipe.write(&control, sizeof(control));", "                    ssize_t       written = s.m_schedule_pipe.write(&control, 0);")], "bad"),
    ("sc-pool-true", "C15", [(H, "                return m_scheduler.m_thread_pool->resume(awaiting_coroutine);", "                m_scheduler.m_thread_pool->resume(awaiting_coroutine);\n                return true;")], "bad"),
    ("sc-ret-false", "C15", [(H, "                return true;\n            }\n            else", "                return s.m_size.load() != 1;\n            }\n            else")], "bad"),
    ("sc-op-leak", "C15", [(C, "        schedule_op->m_allocated = true;\n", "")], "bad"),
    ("sc-resume-done", "C15", [(C, "    if (handle == nullptr || handle.done())", "    if (handle == nullptr)")], "bad"),
    ("sc-resume-noshut", "C15", [(C, "    if (m_shutdown_requested.load(std::memory_order::acquire))\n    {\n        return false;\n    }\n\n    if (m_opts", "    if (m_opts")], "bad"),
    ("sc-drain-clear-late", "C15", [(C, CLEAR, ""), (C, TAKE, TAKE + CLEAR)], "bad"),
    ("sc-drain-clear-early", "C15", [(C, CLEAR, ""), (C, "    while (true)\n    {\n        constexpr std::size_t       READ_COUNT{4};", CLEAR + "    while (true)\n    {\n        constexpr std::size_t       READ_COUNT{4};")], "bad"),
    ("sc-drain-skip", "C15", [(C, "            ops = next;\n", "            ops = next != nullptr && next->m_allocated && !next->m_awaiting_coroutine ? next->m_next : next;\n")], "bad"),
    ("sc-drain-uaf", "C15", [(C, "            auto* next = ops->m_next;\n            m_handles", "            m_handles"), (C, "            ops = next;\n", "            ops = ops->m_next;\n")], "bad"),
    ("sc-drain-leak", "C15", [(C, "            if (ops->m_allocated)\n            {\n                delete ops;", "            if (ops->m_allocated && next == nullptr)\n            {\n                delete ops;")], "bad"),
    ("sc-drain-freeall", "C15", [(C, "            if (ops->m_allocated)\n            {\n                delete ops;\n            }", "            delete ops;")], "bad"),
    ("sc-loop-sub-early", "C15", [(C, "            std::size_t resumed{0};\n            for", "            m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);\n            for"), (C, "                handle.resume();\n                ++resumed;\n            }\n            if (resumed > 0)\n            {\n                m_size.fetch_sub(resumed, std::memory_order::release);\n            }\n", "                handle.resume();\n            }\n")], "bad"),
    ("sc-loop-one", "C15", [(C, "m_size.fetch_sub(resumed, std::memory_order::release);", "m_size.fetch_sub(1, std::memory_order::release);")], "bad"),
    ("sc-loop-noclear", "C15", [(C, "            m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);\n        }\n\n        m_handles_to_resume.clear();", "            m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);\n            m_handles_to_resume.clear();\n        }\n")], "bad"),
    ("sc-loop-pool-ignored", "C15", [(C, "            if (m_thread_pool->resume(m_handles_to_resume) == 0)\n            {", "            m_thread_pool->resume(m_handles_to_resume);\n            if (false)\n            {")], "bad"),
    ("sc-loop-clear-first", "C15", [(C, "            m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);\n        }\n\n        m_handles_to_resume.clear();", "            m_handles_to_resume.clear();\n            m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);\n        }\n        m_handles_to_resume.clear();")], "bad"),
    ("sc-loop-break", "C15", [(C, "                handle.resume();\n                ++resumed;\n", "                handle.resume();\n                ++resumed;\n                if (m_shutdown_requested.load(std::memory_order::relaxed)) { break; }\n")], "bad"),
    ("sc-dispatch-swap", "C15", [(C, "        if (handle_ptr == m_timer_ptr)", "        if (handle_ptr == m_shutdown_ptr)"), (C, "        else if (handle_ptr == m_shutdown_ptr) [[unlikely]]", "        else if (handle_ptr == m_timer_ptr) [[unlikely]]")], "bad"),
    ("sc-dispatch-break", "C15", [(C, "            // Nothing to do, just needed to wake-up and smell the flowers\n", "            break;\n")], "bad"),
    ("sc-run-or", "C15", [(C, "while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)", "while (!m_shutdown_requested.load(std::memory_order::acquire) || m_size.load(std::memory_order::acquire) > 0)")], "bad"),
    ("sc-run-order", "C15", [(C, "while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)", "while (size() > 0 || !m_shutdown_requested.load(std::memory_order::acquire))")], "bad"),
    ("sc-manual-noreset", "C15", [(C, "        process_events_execute(timeout);\n        m_io_processing.exchange(false, std::memory_order::release);\n", "        process_events_execute(timeout);\n        if (timeout.count() == 0) { m_io_processing.exchange(false, std::memory_order::release); }\n")], "bad"),
    ("sc-manual-load", "C15", [(C, "    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))\n    {", "    if (m_io_processing.load() == expected)\n    {\n        m_io_processing.store(true);")], "bad"),
    ("sc-thread-notbusy", "C15", [(C, "    m_io_processing.exchange(true, std::memory_order::release);\n", "")], "bad"),
    ("sc-shut-nojoin", "C15", [(C, "        if (m_io_thread.joinable())\n        {\n            m_io_thread.join();\n        }\n\n        if (m_thread_pool", "        if (m_thread_pool"), (C, "    if (m_io_thread.joinable())\n    {\n        m_io_thread.join();\n    }\n\n    m_shutdown_pipe.close();\n    m_schedule_pipe.close();\n", "    m_shutdown_pipe.close();\n    m_schedule_pipe.close();\n    if (m_io_thread.joinable())\n    {\n        m_io_thread.join();\n    }\n")], "bad"),
    ("sc-shut-pipe", "C15", [(C, "m_shutdown_pipe.write(&value, sizeof(value))", "m_schedule_pipe.write(&value, sizeof(value))")], "bad"),
    ("sc-ctor-ignored", "C15", [(C, "    if (!m_io_notifier.watch(m_schedule_pipe.read_fd(), coro::poll_op::read, const_cast<void*>(m_schedule_ptr), true))\n    {\n        throw", "    if (!m_io_notifier.watch(m_schedule_pipe.read_fd(), coro::poll_op::read, const_cast<void*>(m_schedule_ptr), true) && m_opts.thread_strategy == thread_strategy_t::spawn)\n    {\n        throw")], "bad"),
    ("sc-ctor-once", "C15", [(C, "const_cast<void*>(m_schedule_ptr), true)", "const_cast<void*>(m_schedule_ptr), false)")], "bad"),
    ("sc-ctor-ptr", "C15", [(C, "const_cast<void*>(m_schedule_ptr), true)", "const_cast<void*>(m_shutdown_ptr), true)")], "bad"),
    ("sc-spawn-leak", "C15", [(C, "        wrapper_task.handle().destroy();\n", "")], "bad"),
    ("sc-spawn-ignore", "C15", [(C, "    const bool started   = group_ptr->start(std::move(task));", "    group_ptr->start(std::move(task));\n    const bool started = true;")], "bad"),
    ("sc-size-nopool", "C15", [(H, "            return m_size.load(std::memory_order::acquire) + m_thread_pool->size();", "            return m_size.load(std::memory_order::acquire);")], "bad"),
    ("sc-range-count", "C15", [(H, "                ++invalid_handles;\n            }\n        }\n\n        return size - invalid_handles;\n    }\n\n    /**\n     * @return The number of tasks waiting in the task queue", "                invalid_handles = 1;\n            }\n        }\n\n        return size - invalid_handles;\n    }\n\n    /**\n     * @return The number of tasks waiting in the task queue")], "bad"),
    ("sc-timed-nostop", "C15", [(H, "co_await when_any(std::move(stop_source), std::move(task), make_timeout_task(timeout_ms));", "co_await when_any(std::move(task), make_timeout_task(timeout_ms));")], "bad"),
    ("sc-with-nohop", "C15", [(H, "        co_await schedule();\n        co_return co_await task;", "        if (m_opts.execution_strategy == execution_strategy_t::process_tasks_inline) { co_await schedule(); }\n        co_return co_await task;")], "bad"),
    # behaviour kept
    ("sc-ok-enum", "C15", [(H, "            if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)", "            if (m_scheduler.m_opts.execution_strategy != execution_strategy_t::process_tasks_on_thread_pool)")], "ok"),
    ("sc-ok-xchg", "C15", [(H, "                bool expected{false};\n                if (s.m_schedule_pipe_triggered.compare_exchange_strong(\n                        expected, true, std::memory_order::release, std::memory_order::relaxed))", "                if (!s.m_schedule_pipe_triggered.exchange(true, std::memory_order::acq_rel))")], "ok"),
    ("sc-ok-drain-next", "C15", [(C, "            auto* next = ops->m_next;\n            m_handles_to_resume.emplace_back(ops->m_awaiting_coroutine);\n", "            m_handles_to_resume.push_back(ops->m_awaiting_coroutine);\n            schedule_operation* const next = ops->m_next;\n")], "ok"),
    ("sc-ok-drain-for", "C15", [(C, "    if (ops != nullptr)\n    {\n        ops = detail::awaiter_list_reverse(ops);\n\n        while (ops != nullptr)\n        {\n            auto* next = ops->m_next;\n", "    {\n        for (ops = detail::awaiter_list_reverse(ops); ops != nullptr;)\n        {\n            auto* next = ops->m_next;\n")], "ok"),
    ("sc-ok-loop-size", "C15", [(C, "            std::size_t resumed{0};\n            for", "            for"), (C, "                handle.resume();\n                ++resumed;\n            }\n            if (resumed > 0)\n            {\n                m_size.fetch_sub(resumed, std::memory_order::release);\n            }\n", "                handle.resume();\n            }\n            m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);\n")], "ok"),
    ("sc-ok-loop-index", "C15", [(C, "            for (auto& handle : m_handles_to_resume)\n            {\n                handle.resume();\n                ++resumed;\n            }", "            for (std::size_t i = 0; i < m_handles_to_resume.size(); ++i)\n            {\n                m_handles_to_resume[i].resume();\n                ++resumed;\n            }")], "ok"),
    ("sc-ok-dispatch", "C15", [(C, "        if (handle_ptr == m_timer_ptr)\n        {\n            // Process all events that have timed out.\n            process_timeout_execute();\n        }\n        else if (handle_ptr == m_schedule_ptr)\n        {\n            // Process scheduled coroutines.\n            process_scheduled_execute_inline();\n        }\n        else if", "        if (handle_ptr == m_schedule_ptr)\n        {\n            process_scheduled_execute_inline();\n            continue;\n        }\n        if (handle_ptr == m_timer_ptr)\n        {\n            process_timeout_execute();\n        }\n        else if")], "ok"),
    ("sc-ok-run", "C15", [(C, "    while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)\n    {\n        process_events_execute(m_default_timeout);\n    }", "    while (true)\n    {\n        if (is_shutdown() && empty())\n        {\n            break;\n        }\n        process_events_execute(m_default_timeout);\n    }")], "ok"),
    ("sc-ok-helper", "C15", [(C, "        // Signal the event loop to stop asap.\n        const constexpr int value{1};\n        ssize_t             written = m_shutdown_pipe.write(&value, sizeof(value));\n", "        auto wake = [this]() -> ssize_t { const int value{1}; return m_shutdown_pipe.write(&value, sizeof(value)); };\n        constexpr int value{1};\n        ssize_t written = wake();\n")], "ok"),
    ("sc-ok-pool-ptr", "C15", [(C, "        if (m_thread_pool != nullptr)\n        {\n            m_thread_pool->shutdown();", "        if (auto* p = m_thread_pool.get(); p)\n        {\n            p->shutdown();")], "ok"),
]
