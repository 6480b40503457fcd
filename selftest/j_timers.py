C = "src/scheduler.cpp"
N = "src/detail/io_notifier_epoll.cpp"
T = "src/detail/timer_handle.cpp"
FIRSTPOP = "                m_timed_events.erase(first);\n                poll_infos.emplace_back(pi);\n"
AMT = "        auto amount = tp - now;\n"
UPD = "    // Update the time to the next smallest time point, re-take the current now time\n    // since updating and resuming tasks could shift the time.\n    std::scoped_lock lk{m_timed_events_mutex};\n    update_timeout(clock::now());\n"
WHILE = """        while (!m_timed_events.empty())
        {
            auto first    = m_timed_events.begin();
            auto [tp, pi] = *first;

            if (tp <= now)
            {
                m_timed_events.erase(first);
                poll_infos.emplace_back(pi);
            }
            else
            {
                break;
            }
        }
"""
FORL = """        for (auto it = m_timed_events.begin(); it != m_timed_events.end();)
        {
            if (now < it->first)
            {
                break;
            }
            poll_infos.push_back(it->second);
            it = m_timed_events.erase(it);
        }
"""
CLAMP = "        if (nanoseconds <= 0ns)\n        {\n            nanoseconds = 1ns;\n        }\n"
MUTANTS = [
    ("tm-erase-key", "C16", [(C, "                m_timed_events.erase(first);\n", "                m_timed_events.erase(tp);\n")], "bad"),
    ("tm-erase-all-due", "C16", [(C, FIRSTPOP, "                poll_infos.emplace_back(pi);\n                m_timed_events.clear();\n")], "bad"),
    ("tm-rearm-last", "C16", [(C, "        auto& [tp, pi] = *m_timed_events.begin();\n", "        auto& [tp, pi] = *m_timed_events.rbegin();\n")], "bad"),
    ("tm-no-rearm-remove", "C16", [(C, "        if (is_first)\n        {\n            update_timeout(clock::now());\n        }", "        if (is_first && m_timed_events.empty())\n        {\n            update_timeout(clock::now());\n        }")], "bad"),
    ("tm-rearm-remove-stale", "C16", [(C, "        auto             is_first = (m_timed_events.begin() == pos);\n\n        m_timed_events.erase(pos);", "        auto             is_first = m_timed_events.size() == 1;\n\n        m_timed_events.erase(pos);")], "bad"),
    ("tm-add-onlysingle", "C16", [(C, "    if (pos == m_timed_events.begin())", "    if (m_timed_events.size() == 1)")], "bad"),
    ("tm-add-last", "C16", [(C, "    if (pos == m_timed_events.begin())", "    if (pos == std::prev(m_timed_events.end()))")], "bad"),
    ("tm-fire-norearm", "C16", [(C, UPD, "    if (poll_infos.empty())\n    {\n        return;\n    }\n" + UPD)], "bad"),
    ("tm-fire-rearm-unlocked", "C16", [(C, UPD, "    update_timeout(clock::now());\n")], "bad"),
    ("tm-fire-due-flip", "C16", [(C, "            if (tp <= now)", "            if (tp >= now)")], "bad"),
    ("tm-fire-early", "C16", [(C, "            if (tp <= now)", "            if (tp <= now + 1ms)")], "bad"),
    ("tm-fire-drop", "C16", [(C, FIRSTPOP, "                m_timed_events.erase(first);\n                if (!pi->m_processed || poll_infos.empty())\n                {\n                    poll_infos.emplace_back(pi);\n                }\n")], "bad"),
    ("tm-fire-double", "C16", [(C, FIRSTPOP, "                poll_infos.emplace_back(pi);\n                if (poll_infos.size() < 16)\n                {\n                    m_timed_events.erase(first);\n                }\n")], "bad"),
    ("tm-upd-disarm", "C16", [(C, "    if (!m_timed_events.empty())\n    {\n        auto& [tp, pi]", "    if (m_timed_events.size() > 1)\n    {\n        auto& [tp, pi]")], "bad"),
    ("tm-upd-amount", "C16", [(C, AMT, "        auto amount = now - tp;\n")], "bad"),
    ("tm-upd-skip-past", "C16", [(C, AMT, AMT + "        if (amount <= 0ms)\n        {\n            return;\n        }\n")], "bad"),
    ("tm-for-amount", "C16", [(C, "        add_timer_token(clock::now() + amount, pi);", "        add_timer_token(clock::now(), pi);")], "bad"),
    ("tm-for-half", "C16", [(C, "        add_timer_token(clock::now() + amount, pi);", "        add_timer_token(clock::now() + std::chrono::duration_cast<std::chrono::milliseconds>(amount), pi);")], "bad"),
    ("tm-for-skip-short", "C16", [(C, "    if (amount <= 0ms)\n    {\n        co_await schedule();", "    if (amount < 1ms)\n    {\n        co_await schedule();")], "bad"),
    ("tm-until-now", "C16", [(C, "    if (time <= now)", "    if (time <= now + std::chrono::milliseconds{1})")], "bad"),
    ("tm-until-nocount", "C16 C15", [(C, "        m_size.fetch_add(1, std::memory_order::release);\n\n        detail::poll_info pi{};\n        add_timer_token(time, pi);", "        detail::poll_info pi{};\n        add_timer_token(time, pi);")], "bad"),
    ("tm-until-count-late", "C16 C15", [(C, "        m_size.fetch_add(1, std::memory_order::release);\n\n        detail::poll_info pi{};\n        add_timer_token(time, pi);", "        detail::poll_info pi{};\n        add_timer_token(time, pi);\n        m_size.fetch_add(1, std::memory_order::release);")], "bad"),
    ("tm-until-countboth", "C16 C15", [(C, "    auto now = clock::now();\n\n    // If the requested", "    auto now = clock::now();\n    m_size.fetch_add(1, std::memory_order::release);\n\n    // If the requested"), (C, "        m_size.fetch_add(1, std::memory_order::release);\n\n        detail::poll_info pi{};\n        add_timer_token(time, pi);", "        detail::poll_info pi{};\n        add_timer_token(time, pi);")], "bad"),
    ("tm-set-noclamp", "C16", [(N, CLAMP, "")], "bad"),
    ("tm-set-clamp-always", "C16", [(N, CLAMP, "        nanoseconds = 1ns;\n")], "bad"),
    ("tm-set-clamp-neg", "C16", [(N, "        if (nanoseconds <= 0ns)", "        if (nanoseconds < 0ns)")], "bad"),
    ("tm-set-secs-only", "C16", [(N, "    duration -= seconds;\n", "    duration -= seconds;\n    if (seconds > 0s)\n    {\n        duration = 0ns;\n    }\n")], "bad"),
    ("tm-set-ms", "C16", [(N, "    auto nanoseconds = std::chrono::duration_cast<std::chrono::nanoseconds>(duration);", "    auto nanoseconds = std::chrono::nanoseconds{std::chrono::duration_cast<std::chrono::milliseconds>(duration)};")], "bad"),
    ("tm-set-abs", "C16", [(N, "    ts.it_value.tv_nsec = nanoseconds.count();\n    return ::timerfd_settime(timer.get_fd(), 0,", "    ts.it_value.tv_nsec = nanoseconds.count();\n    return ::timerfd_settime(timer.get_fd(), TFD_TIMER_ABSTIME,")], "bad"),
    ("tm-set-sec1", "C16", [(N, "    if (seconds <= 0s)\n", "    if (seconds <= 1s)\n")], "bad"),
    ("tm-unset-1ns", "C16", [(N, "    ts.it_value.tv_nsec = 0;\n", "    ts.it_value.tv_nsec = 1;\n")], "bad"),
    ("tm-reg-once", "C16", [(T, "const_cast<void*>(m_timer_handle_ptr), true)", "const_cast<void*>(m_timer_handle_ptr), false)")], "bad"),
    ("tm-reg-leak", "C16", [(T, "        if (m_fd != -1)\n        {\n            ::close(m_fd);\n        }\n", "")], "bad"),
    ("tm-reg-ignored", "C16", [(T, "m_fd == -1 || !notifier.watch", "m_fd == -1 && !notifier.watch")], "bad"),
    ("tm-pos-invalid", "C16", [(C, "        auto             is_first = (m_timed_events.begin() == pos);\n\n        m_timed_events.erase(pos);", "        auto             is_first = (m_timed_events.begin() == pos);\n\n        m_timed_events.erase(m_timed_events.find(pos->first));")], "bad"),

    ("tm-ok-notless", "C16", [(C, "            if (tp <= now)", "            if (!(now < tp))")], "ok"),
    ("tm-ok-forloop", "C16", [(C, WHILE, FORL)], "ok"),
    ("tm-ok-always-upd", "C16", [(C, "    if (pos == m_timed_events.begin())\n    {\n        update_timeout(clock::now());\n    }", "    update_timeout(clock::now());"), (C, "        if (is_first)\n        {\n            update_timeout(clock::now());\n        }", "        (void)is_first;\n        update_timeout(clock::now());")], "ok"),
    ("tm-ok-inline-upd", "C16", [(C, "    std::scoped_lock lk{m_timed_events_mutex};\n    update_timeout(clock::now());\n}", "    std::scoped_lock lk{m_timed_events_mutex};\n    if (m_timed_events.begin() == m_timed_events.end())\n    {\n        m_io_notifier.unwatch_timer(m_timer);\n        return;\n    }\n    m_io_notifier.watch_timer(m_timer, m_timed_events.begin()->first - clock::now());\n}")], "ok"),
    ("tm-ok-arrow", "C16", [(C, "        auto& [tp, pi] = *m_timed_events.begin();\n\n" + AMT, "        auto       next   = m_timed_events.begin();\n        const auto amount = next->first - now;\n")], "ok"),
    ("tm-ok-until-flip", "C16", [(C, "    if (time <= now)\n    {\n        co_await schedule();\n    }\n    else\n    {\n        m_size.fetch_add(1, std::memory_order::release);\n\n        detail::poll_info pi{};\n        add_timer_token(time, pi);\n        co_await pi;\n    }\n", "    if (time > now)\n    {\n        detail::poll_info pi{};\n        m_size.fetch_add(1, std::memory_order::release);\n        add_timer_token(time, pi);\n        co_await pi;\n        co_return;\n    }\n    co_await schedule();\n")], "ok"),
    ("tm-ok-until-since", "C16", [(C, "    if (time <= now)", "    if (time - now <= 0ns)")], "ok"),
    ("tm-ok-for-until", "C16", [(C, "        m_size.fetch_add(1, std::memory_order::release);\n\n        // Yielding does not require setting the timer position on the poll info since\n        // it doesn't have a corresponding 'event' that can trigger, it always waits for\n        // the timeout to occur before resuming.\n\n        detail::poll_info pi{};\n        add_timer_token(clock::now() + amount, pi);\n        co_await pi;\n", "        co_await yield_until(clock::now() + amount);\n")], "ok"),
    ("tm-ok-for-max", "C16", [(N, CLAMP, "        nanoseconds = std::max(nanoseconds, std::chrono::nanoseconds{1});\n"), (N, "#include <", "#include <algorithm>\n#include <")], "ok"),
    ("tm-ok-set-early", "C16", [(N, "    auto seconds = std::chrono::duration_cast<std::chrono::seconds>(duration);\n    duration -= seconds;", "    if (duration < 1ns)\n    {\n        duration = 1ns;\n    }\n    auto seconds = std::chrono::duration_cast<std::chrono::seconds>(duration);\n    duration -= seconds;")], "ok"),
    ("tm-ok-set-mod", "C16", [(N, "    auto nanoseconds = std::chrono::duration_cast<std::chrono::nanoseconds>(duration);", "    const auto rest        = duration;\n    auto       nanoseconds = rest;")], "ok"),
    ("tm-ok-erase-ret", "C16", [(C, "    auto             pos = m_timed_events.emplace(tp, &pi);", "    auto             pos = m_timed_events.insert({tp, &pi});")], "ok"),
    ("tm-ok-reg-split", "C16", [(T, "    if (m_fd == -1 || !notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true))\n    {\n        if (m_fd != -1)\n        {\n            ::close(m_fd);\n        }\n", "    if (m_fd < 0)\n    {\n        throw std::runtime_error{\"no timer\"};\n    }\n    const bool ok = notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);\n    if (!ok)\n    {\n        ::close(m_fd);\n")], "ok"),
]
