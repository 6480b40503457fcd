G, S, SW, SWC, GE, A = "include/coro/task_group.hpp", "src/detail/task_self_deleting.cpp", "include/coro/sync_wait.hpp", "src/sync_wait.cpp", "include/coro/generator.hpp", "include/coro/when_any.hpp"
START = "        m_on_empty_event.reset();\n        m_size.fetch_add(1, std::memory_order::release);\n"
MUTANTS = [
    # ---- C13
    ("tg-add-late", "C13", [(G, "        m_size.fetch_add(1, std::memory_order::release);\n", ""), (G, "            count_down();\n            return false;\n        }\n        return true;", "            return false;\n        }\n        m_size.fetch_add(1, std::memory_order::release);\n        return true;")], "bad"),
    ("tg-refuse-keep", "C13", [(G, "            count_down();\n            return false;", "            return false;")], "bad"),
    ("tg-refuse-leak", "C13", [(G, "            wrapper_task.handle().destroy();\n", "")], "bad"),
    ("tg-refuse-true", "C13", [(G, "            count_down();\n            return false;", "            count_down();\n            return true;")], "bad"),
    ("tg-refuse-sub", "C13", [(G, "            count_down();\n            return false;", "            m_size.fetch_sub(1);\n            return false;")], "bad"),
    ("tg-reset-late", "C13", [(G, START, "        m_size.fetch_add(1, std::memory_order::release);\n"), (G, "            return false;\n        }\n        return true;", "            return false;\n        }\n        m_on_empty_event.reset();\n        return true;")], "bad"),
    ("tg-hook-late", "C13", [(G, "        wrapper_task.promise().user_final_suspend([this]() -> void { count_down(); });\n", ""), (G, "            return false;\n        }\n        return true;", "            return false;\n        }\n        wrapper_task.promise().user_final_suspend([this]() -> void { count_down(); });\n        return true;")], "bad"),
    ("tg-le", "C13", [(G, "std::memory_order::acq_rel) == 1)", "std::memory_order::acq_rel) <= 2)")], "bad"),
    ("tg-relaxed", "C13", [(G, "std::memory_order::acq_rel) == 1)", "std::memory_order::release) == 1)")], "bad"),
    ("tg-size-after", "C13", [(G, "            m_on_empty_event.set();\n", "            m_on_empty_event.set();\n            m_size.store(0);\n")], "bad"),
    ("tg-dtor-once", "C13", [(G, "while (!empty() || !m_on_empty_event.is_set())", "if (!empty())")], "bad"),
    ("tg-dtor-or", "C13", [(G, "while (!empty() || !m_on_empty_event.is_set())", "while (!empty() && !m_on_empty_event.is_set())")], "bad"),
    ("tg-event-unset", "C13", [(G, "m_on_empty_event{true}", "m_on_empty_event{false}")], "bad"),
    ("tg-null", "C13", [(G, "        : task_group(executor.get())\n    { }", "        : m_executor(executor.get())\n    { }")], "bad"),
    ("tg-inline", "C13", [(G, "        if (!m_executor->resume(wrapper_task.handle()))", "        if (m_size == 1) { wrapper_task.resume(); return true; }\n        if (!m_executor->resume(wrapper_task.handle()))")], "bad"),
    ("sd-eager", "C13", [(S, "auto promise_self_deleting::initial_suspend() -> std::suspend_always\n{\n    return std::suspend_always{};", "auto promise_self_deleting::initial_suspend() -> std::suspend_never\n{\n    return std::suspend_never{};"), ("include/coro/detail/task_self_deleting.hpp", "auto initial_suspend() -> std::suspend_always;", "auto initial_suspend() -> std::suspend_never;")], "bad"),
    ("sd-nohook", "C13", [(S, "        m_user_final_suspend();\n", "        auto f = std::move(m_user_final_suspend);\n        if (!std::uncaught_exceptions()) m_user_final_suspend = nullptr;\n")], "bad"),
    ("sd-rethrow", "C13", [(S, "    // The user cannot access the promise anyway, ignore the exception.", "    throw;")], "bad"),
    ("tg-ok-branch", "C13", [(G, "        if (!m_executor->resume(wrapper_task.handle()))\n        {", "        const bool started = m_executor->resume(wrapper_task.handle());\n        if (started == false)\n        {")], "ok"),
    ("tg-ok-invert", "C13", [(G, "        if (!m_executor->resume(wrapper_task.handle()))\n        {\n            // The executor did not take it, so it will never run and delete itself.\n            wrapper_task.handle().destroy();\n            count_down();\n            return false;\n        }\n        return true;", "        auto h = wrapper_task.handle();\n        if (m_executor->resume(h))\n        {\n            return true;\n        }\n        h.destroy();\n        count_down();\n        return false;")], "ok"),
    ("tg-ok-order", "C13", [(G, START, "        m_size.fetch_add(1, std::memory_order::acq_rel);\n        m_on_empty_event.reset();\n")], "ok"),
    ("tg-ok-inline-cd", "C13", [(G, "[this]() -> void { count_down(); }", "[this]() -> void { const auto before = m_size.fetch_sub(1, std::memory_order::acq_rel); if (before != 1) { return; } m_on_empty_event.set(); }")], "ok"),
    ("tg-ok-dtor", "C13", [(G, "        while (!empty() || !m_on_empty_event.is_set())\n        {", "        for (;;)\n        {\n            if (m_on_empty_event.is_set() && size() == 0)\n            {\n                break;\n            }")], "ok"),
    ("tg-ok-empty", "C13", [(G, "{ return size() == 0; }", "{ return !(m_size.load(std::memory_order::acquire) > 0); }")], "ok"),
    ("sd-ok-hook", "C13", [(S, "    if (m_user_final_suspend != nullptr)\n", "    if (m_user_final_suspend)\n")], "ok"),
]
