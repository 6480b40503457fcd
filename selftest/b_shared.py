F = "include/coro/shared_mutex.hpp"
MUTANTS = [
    ("shm-writer-starve", "C03", [(F, "else if (m_state == state::locked_shared && m_exclusive_waiters == 0)", "else if (m_state == state::locked_shared)")], "bad"),
    ("shm-users-order", "C03", [(F, "            m_state = state::locked_shared;\n            ++m_shared_users;\n", "            m_state = state::locked_shared;\n")], "bad"),
    ("shm-tail", "C03", [(F, "                m_head_waiter.store(nullptr, std::memory_order::release);\n                m_tail_waiter.store(nullptr, std::memory_order::release);\n            }\n            else\n            {\n                // Advance", "                m_head_waiter.store(nullptr, std::memory_order::release);\n            }\n            else\n            {\n                // Advance")], "bad"),
    ("shm-tail2", "C03", [(F, "                    m_head_waiter.store(nullptr, std::memory_order::release);\n                    m_tail_waiter.store(nullptr, std::memory_order::release);\n", "                    m_head_waiter.store(nullptr, std::memory_order::release);\n")], "bad"),
    ("shm-exw-missing", "C03", [(F, "            m_exclusive_waiters.fetch_sub(1, std::memory_order::release);\n", "")], "bad"),
    ("shm-exw-missing2", "C03", [(F, "            ++m_shared_mutex.m_exclusive_waiters;\n", "            ++m_shared_mutex.m_shared_users;\n")], "bad"),
    ("shm-users0", "C03", [(F, "                m_shared_users.fetch_add(1, std::memory_order::release);\n", "")], "bad"),
    ("shm-wake-excl", "C03", [(F, "if (to_resume == nullptr || to_resume->m_exclusive)", "if (to_resume == nullptr)")], "bad"),
    ("shm-wake-one", "C03", [(F, "                m_executor->resume(to_resume->m_awaiting_coroutine);\n", "                m_executor->resume(to_resume->m_awaiting_coroutine);\n                break;\n")], "bad"),
    ("shm-unlock-late", "C03", [(F, "            lk.unlock();\n            head_waiter->m_awaiting_coroutine.resume();", "            head_waiter->m_awaiting_coroutine.resume();")], "bad"),
    ("shm-dec2", "C03", [(F, "        if (users == 1)", "        if (users <= 2)")], "bad"),
    ("shm-noset", "C03", [(F, "            else\n            {\n                m_state = state::unlocked;\n            }\n        }\n\n        co_return;", "        }\n\n        co_return;")], "bad"),
    ("shm-handle-late", "C03", [(F, "        m_awaiting_coroutine = awaiting_coroutine;\n        m_shared_mutex.m_mutex.unlock();\n", "        m_shared_mutex.m_mutex.unlock();\n        m_awaiting_coroutine = awaiting_coroutine;\n")], "bad"),
    ("shm-mode", "C03", [(F, "        co_await detail::shared_lock_operation<executor_type>{*this, true};\n        co_return;", "        co_await detail::shared_lock_operation<executor_type>{*this, false};\n        co_return;")], "bad"),
    ("shm-try-nolock", "C03", [(F, "        if (m_mutex.try_lock())\n        {\n            coro::scoped_lock lk{m_mutex};\n            return try_lock_locked();\n        }\n        return false;", "        return try_lock_locked();")], "bad"),
    ("shm-ready-leak", "C03", [(F, "            if (m_shared_mutex.try_lock_locked())\n            {\n                m_shared_mutex.m_mutex.unlock();\n                return true;", "            if (m_shared_mutex.try_lock_locked())\n            {\n                return true;")], "bad"),
    ("shm-ok-reorder", "C03", [(F, "            m_exclusive_waiters.fetch_sub(1, std::memory_order::release);\n", ""), (F, "            m_state.store(state::locked_exclusive, std::memory_order::release);\n", "            m_exclusive_waiters.fetch_sub(1, std::memory_order::release);\n            m_state.store(state::locked_exclusive, std::memory_order::release);\n")], "ok"),
    ("shm-ok-adv", "C03", [(F, "                if (to_resume->m_next == nullptr)\n                {\n                    m_head_waiter.store(nullptr, std::memory_order::release);\n                    m_tail_waiter.store(nullptr, std::memory_order::release);\n                }\n                else\n                {\n                    m_head_waiter.store(to_resume->m_next, std::memory_order::release);\n                }\n",
                            "                auto* next = to_resume->m_next;\n                m_head_waiter.store(next, std::memory_order::release);\n                if (next == nullptr)\n                {\n                    m_tail_waiter.store(nullptr, std::memory_order::release);\n                }\n")], "ok"),
    ("shm-ok-for", "C03", [(F, "            while (true)\n            {\n                auto* to_resume = m_head_waiter.load(std::memory_order::acquire);\n                if (to_resume == nullptr || to_resume->m_exclusive)\n                {\n                    break;\n                }\n", "            for (auto* to_resume = m_head_waiter.load(); to_resume != nullptr && !to_resume->m_exclusive; to_resume = m_head_waiter.load())\n            {\n")], "ok"),
    ("shm-ok-helper", "C03", [(F, "        co_await m_mutex.lock();\n        co_await detail::shared_lock_operation<executor_type>{*this, true};\n        co_return;", "        co_await acquire(true);\n        co_return;"), (F, "    auto try_lock_shared_locked() -> bool\n", "    auto acquire(bool ex) -> coro::task<void>\n    {\n        co_await m_mutex.lock();\n        co_await detail::shared_lock_operation<executor_type>{*this, ex};\n    }\n\n    auto try_lock_shared_locked() -> bool\n")], "ok"),
    ("shm-ok-suspend", "C03", [(F, "        m_awaiting_coroutine = awaiting_coroutine;\n        m_shared_mutex.m_mutex.unlock();", "        m_shared_mutex.m_mutex.unlock();"), (F, "        auto* tail_waiter = m_shared", "        m_awaiting_coroutine = awaiting_coroutine;\n        auto* tail_waiter = m_shared")], "ok"),
    ("shm-ok-pushhelper", "C03", [(F, "        if (tail_waiter == nullptr)\n        {\n            m_shared_mutex.m_head_waiter = this;\n            m_shared_mutex.m_tail_waiter = this;\n        }\n        else\n        {\n            tail_waiter->m_next = this;\n            m_shared_mutex.m_tail_waiter         = this;\n        }", "        if (tail_waiter != nullptr)\n        {\n            tail_waiter->m_next = this;\n        }\n        else\n        {\n            m_shared_mutex.m_head_waiter = this;\n        }\n        m_shared_mutex.m_tail_waiter.store(this);")], "ok"),
]
