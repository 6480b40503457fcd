R, Q = "include/coro/ring_buffer.hpp", "include/coro/queue.hpp"
PST = "                auto slot = m_rb.m_front.fetch_add(1, std::memory_order::acq_rel) % num_elements;\n                m_rb.m_elements[slot] = std::move(m_e);\n                m_rb.m_used.fetch_add(1, std::memory_order::release);\n                mutex.unlock();\n"
CTK = "                auto slot = m_rb.m_back.fetch_add(1, std::memory_order::acq_rel) % num_elements;\n                m_e = std::move(m_rb.m_elements[slot]);\n                m_rb.m_elements[slot] = std::nullopt;\n                m_rb.m_used.fetch_sub(1, std::memory_order::release);\n                mutex.unlock();\n"
TP = "                    auto slot = m_front.fetch_add(1, std::memory_order::acq_rel) % num_elements;\n                    m_elements[slot] = std::move(op->m_e);\n                    m_used.fetch_add(1, std::memory_order::release);\n\n                    lk.unlock();\n                    op->m_awaiting_coroutine.resume();\n                    continue;\n"
TC = "                    m_used.fetch_sub(1, std::memory_order::release);\n                    lk.unlock();\n\n                    op->m_awaiting_coroutine.resume();\n                    continue;\n"
MUTANTS = [
    ("rb-bound", "C06", [(R, "m_rb.m_used.load(std::memory_order::acquire) < num_elements", "m_rb.m_used.load(std::memory_order::acquire) <= num_elements")], "bad"),
    ("rb-swap-counters", "C06", [(R, "auto slot = m_rb.m_back.fetch_add", "auto slot = m_rb.m_front.fetch_add")], "bad"),
    ("rb-unlock-early", "C06", [(R, PST, PST.replace("                mutex.unlock();\n", "").replace("                m_rb.m_used", "                mutex.unlock();\n                m_rb.m_used"))], "bad"),
    ("rb-no-used-dec", "C06", [(R, CTK, CTK.replace("                m_rb.m_used.fetch_sub(1, std::memory_order::release);\n", ""))], "bad"),
    ("rb-drain-accepts", "C06", [(R, "            if (m_rb.m_running_state.load(std::memory_order::acquire) != running_state_t::running)\n", "            if (m_rb.m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)\n")], "bad"),
    ("rb-consume-drain-stops", "C06", [(R, "            if (m_rb.m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)\n            {\n                m_result", "            if (m_rb.m_running_state.load(std::memory_order::acquire) != running_state_t::running)\n            {\n                m_result")], "bad"),
    ("rb-no-wake-prod", "C06", [(R, "        auto result = co_await consume_operation{*this};\n        co_await try_resume_producers();\n", "        auto result = co_await consume_operation{*this};\n")], "bad"),
    ("rb-wake-on-fail", "C06", [(R, "        auto result = co_await produce_operation{*this, std::move(e)};\n        co_await try_resume_consumers();\n", "        auto result = co_await produce_operation{*this, std::move(e)};\n        if (result == ring_buffer_result::produce::stopped)\n            co_await try_resume_consumers();\n")], "bad"),
    ("rb-resume-locked", "C06", [(R, TP, TP.replace("                    lk.unlock();\n", ""))], "bad"),
    ("rb-resume-one", "C06", [(R, TP, TP.replace("continue;", "co_return;"))], "bad"),
    ("rb-pop-then-check", "C06", [(R, "            if (m_used.load(std::memory_order::acquire) > 0)\n            {\n                auto* op = detail::awaiter_list_pop(m_consume_waiters);\n                if (op != nullptr)\n", "            {\n                auto* op = detail::awaiter_list_pop(m_consume_waiters);\n                if (op != nullptr && m_used.load(std::memory_order::acquire) > 0)\n")], "bad"),
    ("rb-suspend-unlock-first", "C06", [(R, "            m_next = m_rb.m_produce_waiters.exchange(this, std::memory_order::acq_rel);\n            m_rb.m_mutex.unlock();\n", "            auto& rb = m_rb;\n            rb.m_mutex.unlock();\n            m_next = rb.m_produce_waiters.exchange(this, std::memory_order::acq_rel);\n")], "bad"),
    ("rb-notify-noresult", "C06", [(R, "            consume_waiters->m_result = ring_buffer_result::consume::notified;\n", "")], "bad"),
    ("rb-notify-next-late", "C06", [(R, "            auto* next = produce_waiters->m_next;\n            produce_waiters->m_result = ring_buffer_result::produce::notified;\n            produce_waiters->m_awaiting_coroutine.resume();\n            produce_waiters = next;\n", "            produce_waiters->m_result = ring_buffer_result::produce::notified;\n            produce_waiters->m_awaiting_coroutine.resume();\n            produce_waiters = produce_waiters->m_next;\n")], "bad"),
    ("rb-shutdown-noconsumers", "C06", [(R, "        while (consume_waiters != nullptr)\n        {\n            auto* next = consume_waiters->m_next;\n            consume_waiters->m_result = ring_buffer_result::consume::stopped;", "        while (consume_waiters != nullptr && produce_waiters != nullptr)\n        {\n            auto* next = consume_waiters->m_next;\n            consume_waiters->m_result = ring_buffer_result::consume::stopped;")], "bad"),
    ("rb-shutdown-drainonly", "C06", [(R, "        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)\n", "        expected = running_state_t::running;\n        if (!m_running_state.compare_exchange_strong(expected, running_state_t::stopped, std::memory_order::acq_rel))\n")], "bad"),
    ("rb-drain-noproducers", "C06", [(R, "        auto* produce_waiters = m_produce_waiters.exchange(nullptr, std::memory_order::acq_rel);\n        lk.unlock();\n\n        while (produce_waiters != nullptr)\n        {\n            auto* next = produce_waiters->m_next;\n            produce_waiters->m_result = ring_buffer_result::produce::stopped;\n            produce_waiters->m_awaiting_coroutine.resume();\n            produce_waiters = next;\n        }\n\n        while (!empty()", "        lk.unlock();\n\n        while (!empty()")], "bad"),
    ("rb-drain-noshutdown", "C06", [(R, "        co_await shutdown();\n        co_return;\n    }\n\n    /**", "        co_return;\n    }\n\n    /**")], "bad"),
    ("rb-drain-nowait", "C06", [(R, "        while (!empty() && m_running_state", "        if (!empty() && m_running_state")], "bad"),
    ("rb-result-flip", "C06", [(R, "            if (m_e.has_value())\n            {\n                return expected<element, ring_buffer_result::consume>(std::move(m_e).value());\n            }\n", "            if (m_e.has_value() && m_result != ring_buffer_result::consume::stopped)\n            {\n                return expected<element, ring_buffer_result::consume>(std::move(m_e).value());\n            }\n")], "bad"),
    ("rb-ok-helper", "C06", [(R, PST, "                store(m_rb, m_e);\n                mutex.unlock();\n"), (R, "        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool\n        {\n            m_awaiting_coroutine = awaiting_coroutine;\n            m_next = m_rb.m_produce", "        static void store(ring_buffer& rb, std::optional<element>& e)\n        {\n            auto slot = rb.m_front.fetch_add(1, std::memory_order::acq_rel) % num_elements;\n            rb.m_elements[slot] = std::move(e);\n            rb.m_used.fetch_add(1, std::memory_order::release);\n        }\n\n        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool\n        {\n            m_awaiting_coroutine = awaiting_coroutine;\n            m_next = m_rb.m_produce")], "ok"),
    ("rb-ok-invert", "C06", [(R, "            if (m_rb.m_used.load(std::memory_order::acquire) > 0)\n            {\n" + CTK + "                return true;\n            }\n\n            return false; // ring buffer is empty, suspend.\n", "            if (m_rb.empty())\n            {\n                return false;\n            }\n" + CTK + "            return true;\n")], "ok"),
    ("rb-ok-for", "C06", [(R, "        while (produce_waiters != nullptr)\n        {\n            auto* next = produce_waiters->m_next;\n            produce_waiters->m_result = ring_buffer_result::produce::notified;\n            produce_waiters->m_awaiting_coroutine.resume();\n            produce_waiters = next;\n        }\n", "        for (produce_operation* next = nullptr; produce_waiters != nullptr; produce_waiters = next)\n        {\n            next = produce_waiters->m_next;\n            produce_waiters->m_result = ring_buffer_result::produce::notified;\n            auto h = produce_waiters->m_awaiting_coroutine;\n            h.resume();\n        }\n")], "ok"),
    ("rb-ok-full", "C06", [(R, "            if (m_used.load(std::memory_order::acquire) < num_elements)\n            {\n                auto* op = detail::awaiter_list_pop(m_produce_waiters);\n                if (op != nullptr)\n                {\n" + TP + "                }\n            }\n            co_return;\n", "            if (full())\n            {\n                co_return;\n            }\n            auto* op = detail::awaiter_list_pop(m_produce_waiters);\n            if (op == nullptr)\n            {\n                co_return;\n            }\n" + TP.replace("continue;\n", "\n"))], "ok"),
    ("q-push-nolock", "C07", [(Q, "    auto push(element_type&& element) -> coro::task<queue_produce_result>\n    {\n        auto lock = co_await m_mutex.scoped_lock();\n\n        if (m_running_state.load(std::memory_order::acquire) != running_state_t::running)\n        {\n            co_return queue_produce_result::stopped;\n        }\n", "    auto push(element_type&& element) -> coro::task<queue_produce_result>\n    {\n        if (m_running_state.load(std::memory_order::acquire) != running_state_t::running)\n        {\n            co_return queue_produce_result::stopped;\n        }\n        auto lock = co_await m_mutex.scoped_lock();\n")], "bad"),
    ("q-resume-locked", "C07", [(Q, "            waiter->m_element = std::move(element);\n            m_waiters         = waiter->m_next;\n            lock.unlock();\n", "            waiter->m_element = std::move(element);\n            m_waiters         = waiter->m_next;\n")], "bad"),
    ("q-both", "C07", [(Q, "            waiter->m_awaiting_coroutine.resume();\n        }\n        else\n        {\n            m_elements.push(std::move(element));\n        }\n", "            waiter->m_awaiting_coroutine.resume();\n            co_return queue_produce_result::produced;\n        }\n        if (m_elements.size() < 1000000)\n        {\n            m_elements.push(std::move(element));\n        }\n")], "bad"),
    ("q-drain-accept", "C07", [(Q, "        if (m_running_state.load(std::memory_order::acquire) != running_state_t::running)\n        {\n            co_return queue_produce_result::stopped;\n        }\n\n        // assert", "        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)\n        {\n            co_return queue_produce_result::stopped;\n        }\n\n        // assert")], "bad"),
    ("q-next-late", "C07", [(Q, "            m_waiters         = waiter->m_next;\n            lock.unlock();\n\n            waiter->m_awaiting_coroutine.resume();\n        }\n        else\n        {\n            m_elements.push(element);", "            auto h = waiter->m_awaiting_coroutine;\n            lock.unlock();\n            m_waiters = waiter->m_next;\n            h.resume();\n        }\n        else\n        {\n            m_elements.push(element);")], "bad"),
    ("q-pop-noremove", "C07", [(Q, "                m_queue.m_elements.pop();\n                m_queue.m_mutex.unlock();\n", "                m_queue.m_mutex.unlock();\n                m_queue.m_elements.pop();\n")], "bad"),
    ("q-sus-unlock-first", "C07", [(Q, "            m_queue.m_waiters    = this;\n            m_awaiting_coroutine = awaiting_coroutine;\n            m_queue.m_mutex.unlock();\n", "            m_queue.m_waiters    = this;\n            m_queue.m_mutex.unlock();\n            m_awaiting_coroutine = awaiting_coroutine;\n")], "bad"),
    ("q-try-reason", "C07", [(Q, "return unexpected<queue_consume_result>(queue_consume_result::empty);", "return unexpected<queue_consume_result>(queue_consume_result::stopped);")], "bad"),
    ("q-try-drop", "C07", [(Q, "            m_elements.pop();\n            return value;\n", "            return value;\n")], "bad"),
    ("q-shut-next", "C07", [(Q, "            auto* next = waiters->m_next;\n            waiters->m_awaiting_coroutine.resume();\n            waiters = next;\n", "            waiters->m_awaiting_coroutine.resume();\n            waiters = waiters->m_next;\n")], "bad"),
    ("q-shut-keep", "C07", [(Q, "        m_waiters = nullptr;\n        lk.unlock();\n", "        lk.unlock();\n")], "bad"),
    ("q-shut-late", "C07", [(Q, "        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)\n        {\n            co_return;\n        }\n\n        auto* waiters = m_waiters;\n        m_waiters = nullptr;\n        lk.unlock();\n", "        auto* waiters = m_waiters;\n        m_waiters = nullptr;\n        lk.unlock();\n        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)\n        {\n            co_return;\n        }\n")], "bad"),
    ("q-drain-noshutdown", "C07", [(Q, "        co_return co_await shutdown();\n", "        m_running_state.store(running_state_t::stopped);\n        co_return;\n")], "bad"),
    ("q-emplace-twice", "C07", [(Q, "            m_waiters = waiter->m_next;\n            lock.unlock();\n\n            waiter->m_awaiting_coroutine.resume();\n        }\n        else\n        {\n            m_elements.emplace(std::forward<args_type>(args)...);", "            m_waiters = waiter->m_next;\n            lock.unlock();\n\n            waiter->m_awaiting_coroutine.resume();\n        }\n        {\n            m_elements.emplace(std::forward<args_type>(args)...);")], "bad"),
    ("q-ok-push", "C07", [(Q, "        if (m_waiters != nullptr)\n        {\n            // Transfer the element directly to the awaiter, if this throws the awaiter must still be waiting.\n            auto* waiter      = m_waiters;\n            waiter->m_element = element;\n            m_waiters         = waiter->m_next;\n            lock.unlock();\n\n            waiter->m_awaiting_coroutine.resume();\n        }\n        else\n        {\n            m_elements.push(element);\n        }\n", "        awaiter* const waiter = m_waiters;\n        if (waiter == nullptr)\n        {\n            m_elements.push(element);\n            co_return queue_produce_result::produced;\n        }\n        waiter->m_element.emplace(element);\n        m_waiters = waiter->m_next;\n        auto handle = waiter->m_awaiting_coroutine;\n        lock.unlock();\n        handle.resume();\n")], "ok"),
    ("q-ok-shut", "C07", [(Q, "        auto* waiters = m_waiters;\n        m_waiters = nullptr;\n        lk.unlock();\n        while (waiters != nullptr)\n        {\n            auto* next = waiters->m_next;\n            waiters->m_awaiting_coroutine.resume();\n            waiters = next;\n        }\n", "        auto* current = std::exchange(m_waiters, nullptr);\n        lk.unlock();\n        for (awaiter* next; current != nullptr; current = next)\n        {\n            next = current->m_next;\n            current->m_awaiting_coroutine.resume();\n        }\n")], "ok"),
    ("q-ok-ready", "C07", [(Q, "            // If we have items return it.\n            if (!m_queue.empty())\n            {\n", "            // If we have items return it.\n            if (m_queue.m_elements.empty())\n            {\n                return false;\n            }\n            {\n")], "ok"),
]
