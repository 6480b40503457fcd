T, H = "src/thread_pool.cpp", "include/coro/thread_pool.hpp"
PUSH = "        m_queue.emplace_back(handle);\n        m_wait_cv.notify_one();\n"
CHK = "        if (m_shutdown_requested.load(std::memory_order::acquire))\n        {\n            return false;\n        }\n        m_queue.emplace_back"
MUTANTS = [
    ("tp-no-recheck", "C14", [(T, CHK, "        m_queue.emplace_back")], "bad"),
    ("tp-refuse-count", "C14", [(T, "    if (!schedule_impl(handle))\n    {\n        m_size.fetch_sub(1, std::memory_order::release);\n        return false;", "    if (!schedule_impl(handle))\n    {\n        return false;")], "bad"),
    ("tp-shut-count", "C14", [(T, "    if (m_shutdown_requested.load(std::memory_order::acquire))\n    {\n        m_size.fetch_sub(1, std::memory_order::release);\n        return false;", "    if (m_shutdown_requested.load(std::memory_order::acquire))\n    {\n        return false;")], "bad"),
    ("tp-no-notify", "C14", [(T, PUSH, "        m_queue.emplace_back(handle);\n        if (m_queue.size() == 1) { m_wait_cv.notify_one(); }\n")], "bad"),
    ("tp-count-late", "C14", [(T, "    m_size.fetch_add(1, std::memory_order::release);\n    if (m_shutdown_requested.load(std::memory_order::acquire))\n    {\n        m_size.fetch_sub(1, std::memory_order::release);\n        return false;\n    }\n\n    if (!schedule_impl(handle))\n    {\n        m_size.fetch_sub(1, std::memory_order::release);\n        return false;\n    }\n    return true;",
                      "    if (!schedule_impl(handle))\n    {\n        return false;\n    }\n    m_size.fetch_add(1, std::memory_order::release);\n    return true;")], "bad"),
    ("tp-sched-count-after", "C14", [(T, "    m_size.fetch_add(1, std::memory_order::release);\n    if (!m_shutdown_requested.load(std::memory_order::acquire))\n    {\n        return", "    if (!m_shutdown_requested.load(std::memory_order::acquire))\n    {\n        m_size.fetch_add(1, std::memory_order::release);\n        return"), (T, "        m_size.fetch_sub(1, std::memory_order::release);\n        throw", "        throw")], "bad"),
    ("tp-sched-throw-keep", "C14", [(T, "        m_size.fetch_sub(1, std::memory_order::release);\n        throw", "        throw")], "bad"),
    ("tp-suspend-true", "C14", [(T, "        m_thread_pool.m_size.fetch_sub(1, std::memory_order::release);\n        return false;", "        m_thread_pool.m_size.fetch_sub(1, std::memory_order::release);\n        return true;")], "bad"),
    ("tp-suspend-keep", "C14", [(T, "        m_thread_pool.m_size.fetch_sub(1, std::memory_order::release);\n        return false;", "        return false;")], "bad"),
    ("tp-spawn-leak", "C14", [(T, "        wrapper_task.handle().destroy();\n", "")], "bad"),
    ("tp-spawn-double", "C14", [(T, "        return false;\n    }\n    return true;\n}\n\nauto thread_pool::spawn_joinable", "        return false;\n    }\n    m_size.fetch_sub(1, std::memory_order::release);\n    return true;\n}\n\nauto thread_pool::spawn_joinable")], "bad"),
    ("tp-spawn-hook-late", "C14", [(T, "    wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });\n", ""), (T, "        return false;\n    }\n    return true;\n}\n\nauto thread_pool::spawn_joinable", "        return false;\n    }\n    wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });\n    return true;\n}\n\nauto thread_pool::spawn_joinable")], "bad"),
    ("tp-join-ignored", "C14", [(T, "    const bool started   = group_ptr->start(std::move(task));", "    group_ptr->start(std::move(task));\n    const bool started = true;")], "bad"),
    ("tp-notify-unlocked", "C14", [(T, "            std::unique_lock<std::mutex> lk{m_wait_mutex};\n            m_wait_cv.notify_all();", "            m_wait_cv.notify_all();")], "bad"),
    ("tp-notify-one", "C14", [(T, "m_wait_cv.notify_all();", "m_wait_cv.notify_one();")], "bad"),
    ("tp-join-break", "C14", [(T, "                thread.join();\n", "                thread.join();\n                break;\n")], "bad"),
    ("tp-shut-store", "C14", [(T, "    if (m_shutdown_requested.exchange(true, std::memory_order::acq_rel) == false)", "    if (!m_shutdown_requested.load())"), (T, "            std::unique_lock<std::mutex> lk{m_wait_mutex};\n            m_wait_cv.notify_all();", "            std::unique_lock<std::mutex> lk{m_wait_mutex};\n            m_shutdown_requested.store(true);\n            m_wait_cv.notify_all();")], "bad"),
    ("tp-exec-no-drain", "C14", [(T, "    while (m_size.load(std::memory_order::acquire) > 0)", "    while (m_size.load(std::memory_order::acquire) > 1)")], "bad"),
    ("tp-exec-locked", "C14", [(T, "        lk.unlock();\n\n        // Release", "        // Release")], "bad"),
    ("tp-exec-sub-early", "C14", [(T, "        handle.resume();\n        m_size.fetch_sub(1, std::memory_order::release);", "        m_size.fetch_sub(1, std::memory_order::release);\n        handle.resume();")], "bad"),
    ("tp-exec-sub-relaxed", "C14", [(T, "        handle.resume();\n        m_size.fetch_sub(1, std::memory_order::release);", "        handle.resume();\n        m_size.fetch_sub(1, std::memory_order::relaxed);")], "bad"),
    ("tp-exec-wait-pred", "C14", [(T, "return !m_queue.empty() || m_shutdown_requested.load(std::memory_order::acquire);", "return !m_queue.empty();")], "bad"),
    ("tp-exec-pop-dropped", "C14", [(T, "        auto handle = m_queue.front();\n        m_queue.pop_front();\n        lk.unlock();", "        auto handle = m_queue.front();\n        m_queue.pop_front();\n        lk.unlock();\n        if (handle.done()) { continue; }")], "bad"),
    ("tp-range-shut", "C14", [(H, "                m_size.fetch_sub(std::size(handles), std::memory_order::release);\n                return 0;", "                return 0;")], "bad"),
    ("tp-range-nulls", "C14", [(H, "        if (null_handles > 0)", "        if (null_handles > 1)")], "bad"),
    ("tp-range-nolock-check", "C14", [(H, "            std::scoped_lock lk{m_wait_mutex};\n            if (m_shutdown_requested.load(std::memory_order::acquire))\n            {\n                m_size.fetch_sub(std::size(handles), std::memory_order::release);\n                return 0;\n            }\n", "            if (m_shutdown_requested.load(std::memory_order::acquire))\n            {\n                m_size.fetch_sub(std::size(handles), std::memory_order::release);\n                return 0;\n            }\n            std::scoped_lock lk{m_wait_mutex};\n")], "bad"),
    ("tp-range-notify", "C14", [(H, "            for (uint64_t i = 0; i < total; ++i)", "            for (uint64_t i = 1; i < total; ++i)")], "bad"),
    ("tp-range-break", "C14", [(H, "                    ++null_handles;\n", "                    ++null_handles;\n                    break;\n")], "bad"),
    ("tp-make-few", "C14", [(T, "for (uint32_t i = 0; i < tp->m_opts.thread_count; ++i)", "for (uint32_t i = 1; i < tp->m_opts.thread_count; i += 2)")], "bad"),
    ("tp-size-relaxed", "C14", [(H, "return m_size.load(std::memory_order::acquire);", "return m_size.load(std::memory_order::relaxed);")], "bad"),
    ("tp-queue-size", "C14", [(H, "        std::scoped_lock lk{m_wait_mutex};\n        return m_queue.size();", "        return m_queue.size();")], "bad"),
    ("tp-dtor", "C14", [(T, "thread_pool::~thread_pool()\n{\n    shutdown();", "thread_pool::~thread_pool()\n{\n    for (auto& t : m_threads) { t.detach(); }")], "bad"),
    ("tp-with-order", "C14", [(H, "        co_await schedule();\n        co_return co_await task;", "        if constexpr (std::is_void_v<return_type>) { co_await task; co_await schedule(); co_return; } else { auto r = co_await task; co_await schedule(); co_return r; }")], "bad"),
    # behaviour kept
    ("tp-ok-guard", "C14", [(T, "        std::scoped_lock lk{m_wait_mutex};\n        // Exec", "        std::lock_guard<std::mutex> lk{m_wait_mutex};\n        // Exec")], "ok"),
    ("tp-ok-notify-after", "C14", [(T, "        m_queue.emplace_back(handle);\n        m_wait_cv.notify_one();\n    }\n", "        m_queue.push_back(handle);\n    }\n    m_wait_cv.notify_one();\n")], "ok"),
    ("tp-ok-while", "C14", [(T, "        m_wait_cv.wait(lk, [&]() { return !m_queue.empty() || m_shutdown_requested.load(std::memory_order::acquire); });", "        while (m_queue.empty() && !m_shutdown_requested.load(std::memory_order::acquire))\n        {\n            m_wait_cv.wait(lk);\n        }")], "ok"),
    ("tp-ok-drain-unified", "C14", [(T, "    while (m_size.load(std::memory_order::acquire) > 0)\n", "    for (;;)\n")], "ok"),
    ("tp-ok-shut-cas", "C14", [(T, "    if (m_shutdown_requested.exchange(true, std::memory_order::acq_rel) == false)", "    bool expected = false;\n    if (m_shutdown_requested.compare_exchange_strong(expected, true))")], "ok"),
    ("tp-ok-shut-early", "C14", [(T, "        for (auto& thread : m_threads)\n        {\n            if (thread.joinable())\n            {\n                thread.join();\n            }\n        }", "        for (std::size_t k = 0; k < m_threads.size(); ++k)\n        {\n            if (!m_threads[k].joinable())\n            {\n                continue;\n            }\n            m_threads[k].join();\n        }")], "ok"),
    ("tp-ok-range-index", "C14", [(H, "        if (null_handles > 0)\n        {\n            m_size.fetch_sub(null_handles, std::memory_order::release);\n        }\n", "        m_size.fetch_sub(null_handles, std::memory_order::release);\n")], "ok"),
    ("tp-ok-helper", "C14", [(T, "    if (m_shutdown_requested.load(std::memory_order::acquire))\n    {\n        m_size.fetch_sub(1, std::memory_order::release);\n        return false;\n    }\n\n    if (!schedule_impl(handle))\n    {\n        m_size.fetch_sub(1, std::memory_order::release);\n        return false;\n    }\n    return true;", "    const bool ok = !m_shutdown_requested.load(std::memory_order::acquire) && schedule_impl(handle);\n    if (!ok)\n    {\n        m_size.fetch_sub(1, std::memory_order::release);\n    }\n    return ok;")], "ok"),
]
