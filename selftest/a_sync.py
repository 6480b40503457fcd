M, S = "src/mutex.cpp", "include/coro/semaphore.hpp"
MH = "include/coro/mutex.hpp"
MUTANTS = [
    ("mutex-next-hoisted", "C01", [(M, "            m_next = static_cast<lock_operation_base*>(current);\n", ""),
                                   (M, "    do\n    {\n        // While trying", "    m_next = current == unlocked_value ? nullptr : static_cast<lock_operation_base*>(current);\n    do\n    {\n        // While trying")], "bad"),
    ("mutex-handle-late", "C01", [(M, "    m_awaiting_coroutine = awaiting_coroutine;\n    auto& state", "    auto& state"),
                                  (M, "                // We've successfully added ourself to the waiter queue.\n", "                m_awaiting_coroutine = awaiting_coroutine;\n")], "bad"),
    ("mutex-return-true-acquired", "C01", [(M, "                m_awaiting_coroutine = nullptr;\n                return false;", "                m_awaiting_coroutine = nullptr;\n                return true;")], "bad"),
    ("mutex-unlock-relaxed", "C01", [(M, "const_cast<void*>(unlocked_value()),\n                std::memory_order::acq_rel,", "const_cast<void*>(unlocked_value()),\n                std::memory_order::relaxed,")], "bad"),
    ("mutex-unlock-twice", "C01", [(M, "            waiter->m_awaiting_coroutine.resume();\n", "            waiter->m_awaiting_coroutine.resume();\n            m_state.store(const_cast<void*>(unlocked_value()));\n")], "bad"),
    ("mutex-unlock-skip", "C01", [(M, "            waiter->m_awaiting_coroutine.resume();\n            return;", "            if (waiter->m_next == nullptr) { waiter->m_awaiting_coroutine.resume(); }\n            return;")], "bad"),
    ("guard-unlock-keeps", "C01", [(M, "        m_mutex = nullptr;\n", "")], "bad"),
    ("guard-move-keeps", "C01", [(MH, "        : m_mutex(std::exchange(other.m_mutex, nullptr)) {}", "        : m_mutex(other.m_mutex) {}")], "bad"),
    ("mutex-ok-refactor", "C01", [(M, "        // Sanity check that the mutex isn't already unlocked.\n        if (current == const_cast<void*>(unlocked_value()))\n        {\n            throw std::runtime_error{\"coro::mutex is already unlocked\"};\n        }\n\n        // There are no",
                                   "        if (current != nullptr && current == const_cast<void*>(unlocked_value()))\n        {\n            throw std::runtime_error{\"coro::mutex is already unlocked\"};\n        }\n\n        // There are no")], "ok"),
    ("mutex-ok-seqcst", "C01", [(M, "expected, nullptr, std::memory_order::acq_rel, std::memory_order::relaxed)", "expected, nullptr)")], "ok"),
    ("sem-check-outside", "C02", [(S, "        // Check again now that we've set up the coroutine frame, the state could have changed.\n        if (await_ready())\n        {\n            return false;\n        }\n", "")], "bad-or-ok"),
    ("sem-max-off", "C02", [(S, "if (value() == max())", "if (value() == max() - 1)")], "bad"),
    ("sem-release-locked-resume", "C02", [(S, "            m_mutex.unlock();\n            waiter->m_awaiting_coroutine.resume();", "            waiter->m_awaiting_coroutine.resume();\n            m_mutex.unlock();")], "bad"),
    ("sem-expected-neg", "C02", [(S, "if (expected <= 0)", "if (expected < 0)")], "bad"),
    ("sem-double-give", "C02", [(S, "            waiter->m_awaiting_coroutine.resume();\n        }\n        else", "            m_counter.fetch_add(1, std::memory_order::release);\n            waiter->m_awaiting_coroutine.resume();\n        }\n        else")], "bad"),
    ("sem-shutdown-next", "C02", [(S, "                auto* next = waiter->m_next;\n                waiter->m_awaiting_coroutine.resume();\n                waiter = next;", "                waiter->m_awaiting_coroutine.resume();\n                waiter = waiter->m_next;")], "bad"),
    ("sem-shutdown-nolock", "C02", [(S, "        auto lock = co_await m_mutex.scoped_lock();\n        bool expected{false};", "        bool expected{false};"), (S, "            lock.unlock();\n            while", "            while")], "bad"),
    ("sem-full-noop-unlock", "C02", [(S, "        if (value() == max())\n        {\n            m_mutex.unlock();\n            co_return;", "        if (value() == max())\n        {\n            co_return;")], "bad"),
    ("sem-ok-helper", "C02", [(S, "        // Do not resume or increment resources past the max_value.\n        if (value() == max())", "        const bool full = !(value() < max());\n        if (full)")], "ok"),
    ("sem-ok-for", "C02", [(S, "            while (waiter != nullptr)\n            {\n                auto* next = waiter->m_next;\n                waiter->m_awaiting_coroutine.resume();\n                waiter = next;\n            }",
                               "            for (auto* it = waiter; it;)\n            {\n                auto h = it->m_awaiting_coroutine;\n                it = it->m_next;\n                h.resume();\n            }")], "ok"),
    ("sem-ok-helperfn", "C02", [(S, "            while (waiter != nullptr)\n            {\n                auto* next = waiter->m_next;\n                waiter->m_awaiting_coroutine.resume();\n                waiter = next;\n            }",
                               "            resume_all(waiter);"),
                                (S, "private:\n    friend class detail::acquire_operation<max_value>;", "private:\n    static void resume_all(detail::acquire_operation<max_value>* waiter)\n    {\n        do\n        {\n            if (waiter == nullptr) return;\n            auto* w = std::exchange(waiter, waiter->m_next);\n            w->m_awaiting_coroutine.resume();\n        } while (true);\n    }\n    friend class detail::acquire_operation<max_value>;")], "ok"),
]
