T, W = "include/coro/task.hpp", "include/coro/when_all.hpp"
MUTANTS = [
    # ---- C08
    ("t-move-keep", "C08", [(T, "task(task&& other) noexcept : m_coroutine(std::exchange(other.m_coroutine, nullptr)) {}", "task(task&& other) noexcept : m_coroutine(other.m_coroutine) {}")], "bad"),
    ("t-assign-leak", "C08", [(T, "            if (m_coroutine != nullptr)\n            {\n                m_coroutine.destroy();\n            }\n\n            m_coroutine = std::exchange(other.m_coroutine, nullptr);", "            if (m_coroutine != nullptr && m_coroutine.done())\n            {\n                m_coroutine.destroy();\n            }\n\n            m_coroutine = std::exchange(other.m_coroutine, nullptr);")], "bad"),
    ("t-assign-self", "C08", [(T, "        if (std::addressof(other) != this)\n        {\n            if (m_coroutine != nullptr)", "        {\n            if (m_coroutine != nullptr)")], "bad"),
    ("t-dtor-done", "C08", [(T, "    ~task()\n    {\n        if (m_coroutine != nullptr)", "    ~task()\n    {\n        if (m_coroutine != nullptr && !m_coroutine.done())")], "bad"),
    ("t-destroy-keep", "C08", [(T, "            m_coroutine.destroy();\n            m_coroutine = nullptr;\n            return true;", "            m_coroutine.destroy();\n            return true;")], "bad"),
    ("t-eager", "C08", [(T, "auto initial_suspend() noexcept { return std::suspend_always{}; }", "auto initial_suspend() noexcept { return std::suspend_never{}; }")], "bad"),
    ("t-resume-twice", "C08", [(T, "        if (!m_coroutine.done())\n        {\n            m_coroutine.resume();\n        }\n        return !m_coroutine.done();", "        m_coroutine.resume();\n        return !m_coroutine.done();")], "bad"),
    ("t-ready", "C08", [(T, "auto await_ready() const noexcept -> bool { return !m_coroutine || m_coroutine.done(); }", "auto await_ready() const noexcept -> bool { return !m_coroutine; }")], "bad"),
    ("t-cont-late", "C08", [(T, "            m_coroutine.promise().continuation(awaiting_coroutine);\n            return m_coroutine;", "            auto& p = m_coroutine.promise();\n            m_coroutine.resume();\n            p.continuation(awaiting_coroutine);\n            return std::noop_coroutine();")], "bad"),
    ("t-cont-drop", "C08", [(T, "            if (promise.m_continuation != nullptr)\n            {\n                return promise.m_continuation;", "            if (promise.m_continuation != nullptr && !promise.m_continuation.done())\n            {\n                return std::noop_coroutine();")], "bad"),
    ("t-exc-void-drop", "C08", [(T, "        if (m_exception_ptr)\n        {\n            std::rethrow_exception(m_exception_ptr);\n        }", "        if (m_exception_ptr && m_continuation)\n        {\n            std::rethrow_exception(m_exception_ptr);\n        }")], "bad"),
    ("t-exc-lost", "C08", [(T, "auto unhandled_exception() noexcept -> void { m_exception_ptr = std::current_exception(); }", "auto unhandled_exception() noexcept -> void { if (m_continuation) m_exception_ptr = std::current_exception(); }")], "bad"),
    ("t-result-unset", "C08", [(T, "        else if (std::holds_alternative<std::exception_ptr>(m_storage))\n        {\n            std::rethrow_exception(std::get<std::exception_ptr>(m_storage));\n        }\n        else\n        {\n            throw std::runtime_error{\"The return value was never set, did you execute the coroutine?\"};\n        }\n    }\n\n    auto result() const&", "        else\n        {\n            throw std::runtime_error{\"The return value was never set, did you execute the coroutine?\"};\n        }\n    }\n\n    auto result() const&")], "bad"),
    ("t-ok-is_ready", "C08", [(T, "auto await_ready() const noexcept -> bool { return !m_coroutine || m_coroutine.done(); }", "auto await_ready() const noexcept -> bool\n        {\n            if (m_coroutine)\n            {\n                return m_coroutine.done();\n            }\n            return true;\n        }")], "ok"),
    ("t-ok-final", "C08", [(T, "            if (promise.m_continuation != nullptr)\n            {\n                return promise.m_continuation;\n            }\n            else\n            {\n                return std::noop_coroutine();\n            }", "            auto next = promise.m_continuation;\n            return next ? next : std::noop_coroutine();")], "ok"),
    ("t-ok-assign", "C08", [(T, "        if (std::addressof(other) != this)\n        {\n            if (m_coroutine != nullptr)\n            {\n                m_coroutine.destroy();\n            }\n\n            m_coroutine = std::exchange(other.m_coroutine, nullptr);\n        }\n\n        return *this;", "        if (this == &other)\n        {\n            return *this;\n        }\n        destroy();\n        m_coroutine = other.m_coroutine;\n        other.m_coroutine = nullptr;\n        return *this;")], "ok"),
    ("t-ok-assign2", "C08", [(T, "        if (std::addressof(other) != this)\n        {\n            if (m_coroutine != nullptr)\n            {\n                m_coroutine.destroy();\n            }\n\n            m_coroutine = std::exchange(other.m_coroutine, nullptr);\n        }\n", "        task tmp(std::move(other));\n        std::swap(m_coroutine, tmp.m_coroutine);\n")], "ok"),
    ("t-ok-dtor", "C08", [(T, "    ~task()\n    {\n        if (m_coroutine != nullptr)\n        {\n            m_coroutine.destroy();\n        }\n    }", "    ~task() { destroy(); }")], "ok"),
    ("t-ok-resume", "C08", [(T, "        if (!m_coroutine.done())\n        {\n            m_coroutine.resume();\n        }\n        return !m_coroutine.done();", "        if (m_coroutine.done())\n        {\n            return false;\n        }\n        m_coroutine.resume();\n        return !m_coroutine.done();")], "ok"),
    ("t-ok-result", "C08", [(T, "        if (m_exception_ptr)\n        {\n            std::rethrow_exception(m_exception_ptr);\n        }", "        if (m_exception_ptr == nullptr)\n        {\n            return;\n        }\n        std::rethrow_exception(m_exception_ptr);")], "ok"),
    ("t-ok-result2", "C08", [(T, "        else if (std::holds_alternative<std::exception_ptr>(m_storage))\n        {\n            std::rethrow_exception(std::get<std::exception_ptr>(m_storage));\n        }\n        else\n        {\n            throw std::runtime_error{\"The return value was never set, did you execute the coroutine?\"};\n        }\n    }\n\n    auto result() const&", "        if (auto* ep = std::get_if<std::exception_ptr>(&m_storage))\n        {\n            std::rethrow_exception(*ep);\n        }\n        throw std::runtime_error{\"The return value was never set, did you execute the coroutine?\"};\n    }\n\n    auto result() const&")], "ok"),
    # ---- C09
    ("wa-latch-noplus", "C09", [(W, "m_count(count + 1)", "m_count(count)"), (W, "acq_rel) > 1;", "acq_rel) > 0;")], "bad"),
    ("wa-latch-relaxed", "C09", [(W, "        if (m_count.fetch_sub(1, std::memory_order::acq_rel) == 1)", "        if (m_count.fetch_sub(1, std::memory_order::release) == 1)")], "bad"),
    ("wa-latch-hnd-late", "C09", [(W, "        m_awaiting_coroutine = awaiting_coroutine;\n        return m_count.fetch_sub(1, std::memory_order::acq_rel) > 1;", "        auto r = m_count.fetch_sub(1, std::memory_order::acq_rel) > 1;\n        m_awaiting_coroutine = awaiting_coroutine;\n        return r;")], "bad"),
    ("wa-latch-ge", "C09", [(W, "acq_rel) > 1;", "acq_rel) >= 1;")], "bad"),
    ("wa-latch-2", "C09", [(W, "acq_rel) == 1)", "acq_rel) <= 2)")], "bad"),
    ("wa-size-moved", "C09", [(W, "        : m_latch(std::size(tasks)),\n          m_tasks(std::forward<task_container_type>(tasks))\n    {\n    }", "        : m_latch(0),\n          m_tasks(std::forward<task_container_type>(tasks))\n    {\n        m_latch = when_all_latch(std::size(tasks));\n    }")], "bad"),
    ("wa-start-break", "C09", [(W, "        for (auto& task : m_tasks)\n        {\n            task.start(m_latch);\n        }", "        for (auto& task : m_tasks)\n        {\n            task.start(m_latch);\n            if (m_latch.is_ready())\n            {\n                break;\n            }\n        }")], "bad"),
    ("wa-start-await-first", "C09", [(W, "        for (auto& task : m_tasks)\n        {\n            task.start(m_latch);\n        }\n\n        return m_latch.try_await(awaiting_coroutine);", "        auto r = m_latch.try_await(awaiting_coroutine);\n        for (auto& task : m_tasks)\n        {\n            task.start(m_latch);\n        }\n\n        return r;")], "bad"),
    ("wa-start-latch-late", "C09", [(W, "        m_latch = &latch;\n        coroutine_handle_type::from_promise(*this).resume();\n    }\n\n    auto result() & ", "        coroutine_handle_type::from_promise(*this).resume();\n        m_latch = &latch;\n    }\n\n    auto result() & ")], "bad"),
    ("wa-tuple-one", "C09", [(W, "((tasks.start(m_latch)), ...)", "((std::forward<decltype(tasks)>(tasks), ...)).start(m_latch)")], "bad"),
    ("wa-exc-drop", "C09", [(W, "        if (m_exception_ptr)\n        {\n            std::rethrow_exception(m_exception_ptr);\n        }\n        return std::move(*m_return_value);", "        return std::move(*m_return_value);")], "bad"),
    ("wa-exc-nokeep", "C09", [(W, "auto unhandled_exception() noexcept -> void { m_exception_ptr = std::current_exception(); }", "auto unhandled_exception() noexcept -> void { if (m_latch == nullptr) m_exception_ptr = std::current_exception(); }")], "bad"),
    ("wa-vec-skip", "C09", [(W, "        output_tasks.emplace_back(detail::make_when_all_task(std::move(a)));", "        if (output_tasks.size() < 64)\n            output_tasks.emplace_back(detail::make_when_all_task(std::move(a)));")], "bad"),
    ("wa-vec-front", "C09", [(W, "    for (auto&& a : awaitables)\n    {\n        output_tasks.emplace_back(detail::make_when_all_task(std::move(a)));\n    }", "    for (auto it = std::rbegin(awaitables); it != std::rend(awaitables); ++it)\n    {\n        output_tasks.emplace_back(detail::make_when_all_task(std::move(*it)));\n    }")], "bad"),
    ("wa-move-handle", "C09", [(W, "        : m_coroutine(std::exchange(other.m_coroutine, coroutine_handle_type{}))\n    {\n    }\n\n    auto operator=(const when_all_task&) -> when_all_task& = delete;\n    auto operator=(when_all_task&&) -> when_all_task&      = delete;\n\n    ~when_all_task()\n    {\n        if (m_coroutine != nullptr)\n        {\n            m_coroutine.destroy();\n        }\n    }\n\n    auto return_value() & ", "        : m_coroutine(other.m_coroutine)\n    {\n    }\n\n    auto operator=(const when_all_task&) -> when_all_task& = delete;\n    auto operator=(when_all_task&&) -> when_all_task&      = delete;\n\n    ~when_all_task()\n    {\n        if (m_coroutine != nullptr)\n        {\n            m_coroutine.destroy();\n        }\n    }\n\n    auto return_value() & ")], "bad"),
    ("wa-notify-ready", "C09", [(W, "            auto await_ready() const noexcept -> bool { return false; }\n            auto await_suspend(coroutine_handle_type coroutine) const noexcept -> void\n            {\n                coroutine.promise().m_latch->notify_awaitable_completed();\n            }\n            auto await_resume() const noexcept {}", "            auto await_ready() const noexcept -> bool { return true; }\n            auto await_suspend(coroutine_handle_type coroutine) const noexcept -> void\n            {\n                coroutine.promise().m_latch->notify_awaitable_completed();\n            }\n            auto await_resume() const noexcept {}")], "bad"),
    ("wa-ok-index", "C09", [(W, "        for (auto& task : m_tasks)\n        {\n            task.start(m_latch);\n        }", "        for (std::size_t i = 0; i < m_tasks.size(); ++i)\n        {\n            m_tasks[i].start(m_latch);\n        }")], "ok"),
    ("wa-ok-iter", "C09", [(W, "        for (auto& task : m_tasks)\n        {\n            task.start(m_latch);\n        }", "        auto it = m_tasks.begin();\n        while (it != m_tasks.end())\n        {\n            it->start(m_latch);\n            ++it;\n        }")], "ok"),
    ("wa-ok-latch", "C09", [(W, "        return m_count.fetch_sub(1, std::memory_order::acq_rel) > 1;", "        auto before = m_count.fetch_sub(1, std::memory_order::acq_rel);\n        return before != 1;")], "ok"),
    ("wa-ok-latch2", "C09", [(W, "        if (m_count.fetch_sub(1, std::memory_order::acq_rel) == 1)\n        {\n            m_awaiting_coroutine.resume();\n        }", "        auto left = m_count.fetch_sub(1, std::memory_order::acq_rel) - 1;\n        if (left > 0)\n        {\n            return;\n        }\n        m_awaiting_coroutine.resume();")], "ok"),
    ("wa-ok-range", "C09", [(W, "    for (auto&& a : awaitables)\n    {\n        output_tasks.emplace_back(detail::make_when_all_task(std::move(a)));\n    }", "    for (auto it = std::begin(awaitables); it != std::end(awaitables); ++it)\n    {\n        auto wrapped = detail::make_when_all_task(std::move(*it));\n        output_tasks.push_back(std::move(wrapped));\n    }")], "ok"),
    ("wa-ok-result", "C09", [(W, "        if (m_exception_ptr)\n        {\n            std::rethrow_exception(m_exception_ptr);\n        }\n        return std::move(*m_return_value);", "        return std::move(this->result());")], "ok"),
    ("wa-ok-foreach", "C09", [(W, "        for (auto& task : m_tasks)\n        {\n            task.start(m_latch);\n        }", "        std::for_each(m_tasks.begin(), m_tasks.end(), [this](auto& task) { task.start(m_latch); });"), (W, "#include <atomic>\n", "#include <algorithm>\n#include <atomic>\n")], "ok"),
]
