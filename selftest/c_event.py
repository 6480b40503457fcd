F, H, L, A = "src/event.cpp", "include/coro/event.hpp", "include/coro/latch.hpp", "include/coro/detail/awaiter_list.hpp"
W = "            auto* next = waiters->m_next;\n            waiters->m_awaiting_coroutine.resume();\n            waiters = next;\n"
MUTANTS = [
    ("ev-next-after", "C04", [(F, W, "            waiters->m_awaiting_coroutine.resume();\n            waiters = waiters->m_next;\n")], "bad"),
    ("ev-policy-swap", "C04", [(F, "policy == resume_order_policy::fifo", "policy != resume_order_policy::fifo")], "bad"),
    ("ev-policy-swap2", "C04", [(H, "policy == resume_order_policy::fifo", "policy == resume_order_policy::lifo")], "bad"),
    ("ev-set-rel", "C04", [(F, "m_state.exchange(this, std::memory_order::acq_rel)", "m_state.exchange(this, std::memory_order::release)")], "bad"),
    ("ev-reset-store", "C04", [(F, "    m_state.compare_exchange_strong(old_value, nullptr, std::memory_order::acquire);", "    if (m_state.load() == old_value) { m_state.store(nullptr, std::memory_order::release); }")], "bad"),
    ("ev-reset-weak", "C04", [(F, "m_state.compare_exchange_strong(old_value", "m_state.compare_exchange_weak(old_value")], "bad"),
    ("ev-reset-xchg", "C04", [(F, "    m_state.compare_exchange_strong(old_value, nullptr, std::memory_order::acquire);", "    m_state.exchange(nullptr);")], "bad"),
    ("ev-suspend-norecheck", "C04", [(F, "        if (old_value == set_state)\n        {\n            return false;\n        }\n", "")], "bad"),
    ("ev-suspend-hoist", "C04", [(F, "        if (old_value == set_state)\n        {\n            return false;\n        }\n\n        m_next", "        m_next"), (F, "    do\n    {\n", "    if (old_value == set_state)\n    {\n        return false;\n    }\n    do\n    {\n")], "bad"),
    ("ev-next-once", "C04", [(F, "        m_next = static_cast<awaiter*>(old_value);\n", ""), (F, "    do\n    {\n", "    m_next = old_value == set_state ? nullptr : static_cast<awaiter*>(old_value);\n    do\n    {\n")], "bad"),
    ("ev-handle-late", "C04", [(F, "    m_awaiting_coroutine = awaiting_coroutine;\n\n", ""), (F, "    return true;\n}\n\nauto event::reset", "    m_awaiting_coroutine = awaiting_coroutine;\n    return true;\n}\n\nauto event::reset")], "bad"),
    ("ev-reverse-drop", "C04", [(A, "    awaiter_type* prev = nullptr;\n    awaiter_type* next = nullptr;", "    awaiter_type* prev = nullptr;\n    awaiter_type* next = nullptr;\n    curr = curr->m_next;")], "bad"),
    ("ev-reverse-last", "C04", [(A, "    while (curr != nullptr)\n", "    while (curr->m_next != nullptr)\n")], "bad"),
    ("ev-set-cond", "C04", [(H, "        void* old_value = m_state.exchange(this, std::memory_order::acq_rel);", "        void* old_value = m_state.load(std::memory_order::acquire);\n        if (old_value == nullptr) return;\n        m_state.store(this);")], "bad"),
    ("latch-lt", "C04", [(L, "m_count.fetch_sub(n, std::memory_order::acq_rel) <= n)\n        {\n            m_event.set();", "m_count.fetch_sub(n, std::memory_order::acq_rel) == n)\n        {\n            m_event.set();")], "bad"),
    ("latch-reload", "C04", [(L, "        if (m_count.fetch_sub(n, std::memory_order::acq_rel) <= n)\n        {\n            m_event.set(executor);", "        m_count.fetch_sub(n, std::memory_order::acq_rel);\n        if (m_count.load() == 0)\n        {\n            m_event.set(executor);")], "bad"),
    ("latch-one", "C04", [(L, "        if (m_count.fetch_sub(n, std::memory_order::acq_rel) <= n)\n        {\n            m_event.set();", "        if (m_count.fetch_sub(1, std::memory_order::acq_rel) <= n)\n        {\n            m_event.set();")], "bad"),
    ("latch-ctor", "C04", [(L, "m_event(count <= 0)", "m_event(count < 0)")], "bad"),
    ("latch-ready", "C04", [(L, "return m_event.is_set(); }", "return m_count.load(std::memory_order::acquire) == 0; }")], "bad"),
    ("ev-ok-walk", "C04", [(F, "        auto* waiters = static_cast<awaiter*>(old_value);\n        while (waiters != nullptr)\n        {\n" + W + "        }", "        for (auto* w = static_cast<awaiter*>(old_value); w != nullptr;)\n        {\n            auto h = w->m_awaiting_coroutine;\n            w = w->m_next;\n            h.resume();\n        }")], "ok"),
    ("ev-ok-early", "C04", [(F, "    if (old_value != this)\n    {\n", "    if (old_value == this)\n    {\n        return;\n    }\n    {\n")], "ok"),
    ("ev-ok-helper", "C04", [(F, "        auto* waiters = static_cast<awaiter*>(old_value);\n        while (waiters != nullptr)\n        {\n" + W + "        }", "        walk(static_cast<awaiter*>(old_value));"), (F, "auto event::set(", "static auto walk(event::awaiter* waiters) -> void\n{\n    while (waiters != nullptr)\n    {\n        auto* next = waiters->m_next;\n        waiters->m_awaiting_coroutine.resume();\n        waiters = next;\n    }\n}\n\nauto event::set(")], "ok"),
    ("ev-ok-reverse", "C04", [(A, "    while (curr != nullptr)\n    {\n        next         = curr->m_next;\n        curr->m_next = prev;\n        prev         = curr;\n        curr         = next;\n    }\n", "    for (; curr != nullptr; curr = next)\n    {\n        next         = curr->m_next;\n        curr->m_next = prev;\n        prev         = curr;\n    }\n"), (A, "    if (curr == nullptr || curr->m_next == nullptr)\n    {\n        return curr;\n    }\n\n", "")], "ok"),
    ("ev-ok-suspend", "C04", [(F, "    do\n    {\n        // Resume immediately if already in the set state.\n        if (old_value == set_state)\n        {\n            return false;\n        }\n\n        m_next = static_cast<awaiter*>(old_value);\n    } while (!m_event.m_state.compare_exchange_weak(\n        old_value, this, std::memory_order::release, std::memory_order::acquire));\n\n    return true;", "    while (old_value != set_state)\n    {\n        m_next = static_cast<awaiter*>(old_value);\n        if (m_event.m_state.compare_exchange_weak(\n        old_value, this, std::memory_order::release, std::memory_order::acquire))\n        {\n            return true;\n        }\n    }\n\n    return false;")], "ok"),
    ("ev-ok-reset", "C04", [(F, "    void* old_value = this;\n    m_state.compare_exchange_strong(old_value, nullptr, std::memory_order::acquire);", "    if (is_set())\n    {\n        void* old_value = this;\n        m_state.compare_exchange_strong(old_value, nullptr, std::memory_order::acq_rel);\n    }")], "ok"),
    ("latch-ok", "C04", [(L, "        if (m_count.fetch_sub(n, std::memory_order::acq_rel) <= n)\n        {\n            m_event.set();", "        const auto previous = m_count.fetch_sub(n, std::memory_order::acq_rel);\n        const bool reached = !(previous > n);\n        if (reached)\n        {\n            m_event.set();")], "ok"),
    ("latch-ok2", "C04", [(L, "        if (m_count.fetch_sub(n, std::memory_order::acq_rel) <= n)\n        {\n            m_event.set();", "        const auto left = m_count.fetch_sub(n, std::memory_order::acq_rel) - n;\n        if (left <= 0)\n        {\n            m_event.set();")], "ok"),
]
