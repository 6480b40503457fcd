C = "src/scheduler.cpp"
N = "src/detail/io_notifier_epoll.cpp"
P = "include/coro/detail/poll_info.hpp"
O = "include/coro/poll.hpp"
SPIN = """        auto awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);
        while (awaiting_coroutine == nullptr)
        {
            awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);
        }
"""
UNW = "        // Given a valid fd always remove it from epoll so the next poll can blindly EPOLL_CTL_ADD.\n        if (pi->m_fd != -1)\n        {\n            m_io_notifier.unwatch(*pi);\n        }\n"
RMT = "        // Since this event triggered, remove its corresponding timeout if it has one.\n        if (pi->m_timer_pos.has_value())\n        {\n            remove_timer_token(pi->m_timer_pos.value());\n        }\n"
FAIL = "        m_size.fetch_sub(1, std::memory_order::release);\n        co_return poll_status::error;\n"
ARM = "    if (timeout_requested)\n    {\n        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);\n    }\n"
WATCHIF = "    if (!m_io_notifier.watch(pi))\n    {\n        // Nothing would ever resume this coroutine, there is no event and no timeout yet.\n        std::cerr << \"Failed to add \" << fd << \" to watch list\\n\";\n" + FAIL + "    }\n"
TPROC = "            pi->m_processed = true;\n\n            // The polling"
EPROC = "        pi->m_processed = true;\n\n        // The polling"
TW = "            while (awaiting_coroutine == nullptr)\n            {\n                awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);\n            }\n"
TST = "            pi->m_poll_status = coro::poll_status::timeout;\n"
TUN = "            // Since this timed out, remove its corresponding event if it has one.\n            if (pi->m_fd != -1)\n            {\n                m_io_notifier.unwatch(*pi);\n            }\n"
MUTANTS = [
    ("pl-fail-wait", "C17", [(C, FAIL, "        m_size.fetch_sub(1, std::memory_order::release);\n")], "bad"),
    ("pl-fail-closed", "C17", [(C, FAIL, FAIL.replace("error", "closed"))], "bad"),
    ("pl-fail-counted", "C17 C15", [(C, FAIL, "        co_return poll_status::error;\n")], "bad"),
    ("pl-timer-now", "C17", [(C, "clock::now() + timeout, pi", "clock::now(), pi")], "bad"),
    ("pl-timer-nopos", "C17", [(C, "        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);", "        add_timer_token(clock::now() + timeout, pi);")], "bad"),
    ("pl-timer-ge", "C17", [(C, "bool timeout_requested = (timeout > 0ms);", "bool timeout_requested = (timeout >= 0ms);")], "bad"),
    ("pl-timer-small", "C17", [(C, "bool timeout_requested = (timeout > 0ms);", "bool timeout_requested = (timeout > 1ms);")], "bad"),
    ("pl-notrigger", "C17", [(C, "detail::poll_info{fd, op, cancel_trigger}", "detail::poll_info{fd, op}")], "bad"),
    ("pl-trigger-drop", "C17", [(P, "          m_cancel_trigger(cancel_trigger)\n    {\n", "          m_cancel_trigger(std::nullopt)\n    {\n        (void)cancel_trigger;\n")], "bad"),
    ("pl-count-late", "C17 C15", [(C, "    m_size.fetch_add(1, std::memory_order::release);\n\n    // Setup two events", "    // Setup two events"), (C, FAIL, "        co_return poll_status::error;\n"), (C, "    if (timeout_requested)\n", "    m_size.fetch_add(1, std::memory_order::release);\n    if (timeout_requested)\n")], "bad"),
    ("pl-pub-relaxed", "C17", [(P, "m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::release);", "m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::relaxed);")], "bad"),
    ("pl-pub-late-touch", "C17", [(P, "            m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::release);\n", "            m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::release);\n            m_pi.m_poll_status = coro::poll_status::error;\n")], "bad"),
    ("pl-ev-noflag", "C17", [(C, EPROC, "        // The polling")], "bad"),
    ("pl-to-noflag", "C17", [(C, TPROC, "            // The polling")], "bad"),
    ("pl-ev-nocheck", "C17", [(C, "    if (!pi->m_processed)\n    {\n        // Its possible the event and the timeout occurred in the same epoll, make sure only one\n        // is ever processed, the other is discarded.\n        pi->m_p", "    if (!pi->m_processed || status == poll_status::cancelled)\n    {\n        // Its possible the event and the timeout occurred in the same epoll, make sure only one\n        // is ever processed, the other is discarded.\n        pi->m_p")], "bad"),
    ("pl-ev-timer-early", "C17", [(C, RMT, ""), (C, "        // The polling coroutine may still be setting up its event and timeout, wait until it has suspended.\n" + SPIN, RMT + "        // The polling coroutine may still be setting up its event and timeout, wait until it has suspended.\n" + SPIN)], "bad"),
    ("pl-ev-nospin", "C17", [(C, SPIN, "        auto awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);\n")], "bad"),
    ("pl-ev-spin-relaxed", "C17", [(C, SPIN, SPIN.replace("acquire", "relaxed"))], "bad"),
    ("pl-to-nospin", "C17", [(C, TW, "")], "bad"),
    ("pl-ev-nounwatch", "C17", [(C, UNW, "        if (pi->m_fd != -1 && status != poll_status::cancelled)\n        {\n            m_io_notifier.unwatch(*pi);\n        }\n")], "bad"),
    ("pl-to-nounwatch", "C17", [(C, TUN, "")], "bad"),
    ("pl-ev-timer-stays", "C17", [(C, RMT, "        if (pi->m_timer_pos.has_value() && status != poll_status::closed)\n        {\n            remove_timer_token(pi->m_timer_pos.value());\n        }\n")], "bad"),
    ("pl-ev-status", "C17", [(C, "        pi->m_poll_status = status;\n", "        pi->m_poll_status = status == poll_status::closed ? poll_status::error : status;\n")], "bad"),
    ("pl-to-status-first", "C17", [(C, TST, ""), (C, "        if (!pi->m_processed)\n        {\n            // Its", "            pi->m_poll_status = coro::poll_status::timeout;\n        if (!pi->m_processed)\n        {\n            // Its")], "bad"),
    ("pl-to-nostatus", "C17", [(C, TST, "")], "bad"),
    ("pl-to-twice", "C17", [(C, TST, TST + "            if (pi->m_fd == -1)\n            {\n                m_handles_to_resume.emplace_back(awaiting_coroutine);\n            }\n")], "bad"),
    ("pl-to-break", "C17", [(C, TST, TST + "            if (pi->m_fd == -1)\n            {\n                break;\n            }\n")], "bad"),
    ("pl-to-rmtimer", "C17", [(C, TST, TST + "            if (pi->m_timer_pos.has_value())\n            {\n                remove_timer_token(pi->m_timer_pos.value());\n            }\n")], "bad"),
    ("pl-w-norearm", "C17", [(N, "    if (!keep)\n    {\n        event_data.events |= EPOLLONESHOT;\n    }", "    if (!keep && !is_cancel_event)\n    {\n        event_data.events |= EPOLLONESHOT;\n    }")], "bad"),
    ("pl-w-nordhup", "C17", [(N, "static_cast<uint32_t>(op) | EPOLLRDHUP;", "static_cast<uint32_t>(op);")], "bad"),
    ("pl-w-mod", "C17", [(N, "EPOLL_CTL_ADD, fd, &event_data) != -1", "EPOLL_CTL_MOD, fd, &event_data) != -1")], "bad"),
    ("pl-w-true", "C17", [(N, "EPOLL_CTL_ADD, fd, &event_data) != -1", "EPOLL_CTL_ADD, fd, &event_data) <= 0")], "bad"),
    ("pl-w-mask32", "C17", [(N, "reinterpret_cast<uintptr_t>(udata) & 0x3FFFFFFFFFFFFFFFULL", "reinterpret_cast<uintptr_t>(udata) & 0x3FFFFFFFFFULL")], "bad"),
    ("pl-w-shift", "C17", [(N, "(((uint64_t)is_cancel_event) << 62)", "(((uint64_t)is_cancel_event) << 61)")], "bad"),
    ("pl-d-shift", "C17", [(N, "(encoded >> 62) & 0x1", "(encoded >> 61) & 0x1")], "bad"),
    ("pl-d-nomask", "C17", [(N, "reinterpret_cast<void*>(encoded & 0xFFFFFFFFFFFFULL)", "reinterpret_cast<void*>(encoded)")], "bad"),
    ("pl-d-mask62", "C17", [(N, "encoded & 0xFFFFFFFFFFFFULL", "encoded & 0x7FFFFFFFFFFFFFFFULL")], "bad"),
    ("pl-d-swap", "C17", [(N, "return std::make_tuple(keep_registered, is_cancel_event, udata);", "return std::make_tuple(is_cancel_event, keep_registered, udata);")], "bad"),
    ("pl-wp-cancel-flag", "C17", [(N, "static_cast<void*>(&pi), false, true);", "static_cast<void*>(&pi), false, false);")], "bad"),
    ("pl-wp-cancel-write", "C17", [(N, "native_handle(), poll_op::read, static_cast<void*>(&pi)", "native_handle(), pi.m_op, static_cast<void*>(&pi)")], "bad"),
    ("pl-wp-failignored", "C17", [(N, "    if (!watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false))\n    {\n        return false;\n    }\n", "    const bool ok = watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false);\n"), (N, "false, true);\n    }\n\n    return true;", "false, true);\n    }\n\n    return ok || pi.m_cancel_trigger.has_value();")], "bad"),
    ("pl-wp-keep", "C17", [(N, "watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false)", "watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), true, false)")], "bad"),
    ("pl-un-nocancel", "C17", [(N, "    if (pi.m_cancel_trigger.has_value())\n    {\n        unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);\n    }\n\n    return unwatch", "    return unwatch")], "bad"),
    ("pl-un-either", "C17", [(N, "        unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);\n    }\n\n    return unwatch", "        return unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);\n    }\n\n    return unwatch")], "bad"),
    ("pl-st-order", "C17", [(N, "    else if (event.events & EPOLLERR)\n", "    else if (event.events & (EPOLLERR | EPOLLHUP))\n")], "bad"),
    ("pl-st-nohup", "C17", [(N, "event.events & EPOLLRDHUP || event.events & EPOLLHUP", "event.events & EPOLLRDHUP")], "bad"),
    ("pl-st-hupread", "C17", [(N, "if (event.events & static_cast<uint32_t>(poll_op::read))", "if (event.events & (static_cast<uint32_t>(poll_op::read) | EPOLLHUP))")], "bad"),
    ("pl-ne-skip", "C17", [(N, "    for (int i = 0; i < num_ready; ++i)", "    for (int i = 0; i + 1 < num_ready || i == 0; ++i)")], "bad"),
    ("pl-ne-from1", "C17", [(N, "    for (int i = 0; i < num_ready; ++i)", "    for (int i = num_ready > 8 ? 1 : 0; i < num_ready; ++i)")], "bad"),
    ("pl-ne-kept", "C17", [(N, "            if (!keep_registered && pi->m_cancel_trigger", "            if (pi->m_cancel_trigger")], "bad"),
    ("pl-ne-err-cancel", "C17", [(N, "        if (is_cancel_event)\n", "        if (is_cancel_event && !keep_registered && !(ready_set[i].events & EPOLLERR))\n")], "bad"),
    ("pl-ne-idx0", "C17", [(N, "event_to_poll_status(ready_set[i])", "event_to_poll_status(ready_set[0])")], "bad"),
    ("pl-ne-dup", "C17", [(N, "            if (!keep_registered)\n            {\n                unwatch(*pi);\n            }\n", "            if (!keep_registered)\n            {\n                unwatch(*pi);\n            }\n            else\n            {\n                ready_events.emplace_back(pi, poll_status::cancelled);\n            }\n")], "bad"),
    ("pl-src-swap", "C17", [(O, "::write(m_pipe.write_fd(),", "::write(m_pipe.read_fd(),")], "bad"),
    ("pl-tok-end", "C17", [(O, "return poll_stop_token(m_pipe.read_fd());", "return poll_stop_token(m_pipe.write_fd());")], "bad"),
    ("pl-op-enum", "C17", [(O, "    read_write = EPOLLIN | EPOLLOUT\n", "    read_write = EPOLLIN | EPOLLPRI\n")], "bad"),

    ("pl-ok-early-return", "C17", [(C, "    if (!pi->m_processed)\n    {\n        // Its possible the event and the timeout occurred in the same epoll, make sure only one\n        // is ever processed, the other is discarded.\n        pi->m_p", "    if (pi->m_processed)\n    {\n        return;\n    }\n    {\n        pi->m_p")], "ok"),
    ("pl-ok-order", "C17", [(C, "        pi->m_poll_status = status;\n", ""), (C, UNW, "        pi->m_poll_status = status;\n"), (C, RMT, RMT + UNW)], "ok"),
    ("pl-ok-do", "C17", [(C, SPIN, "        std::coroutine_handle<> awaiting_coroutine{};\n        do\n        {\n            awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::seq_cst);\n        } while (!awaiting_coroutine);\n")], "ok"),
    ("pl-ok-for", "C17", [(C, "    for (auto pi : poll_infos)\n    {\n        if (!pi->m_processed)", "    for (std::size_t i = 0; i < poll_infos.size(); ++i)\n    {\n        auto* pi = poll_infos[i];\n        if (!pi->m_processed)")], "ok"),
    ("pl-ok-continue", "C17", [(C, "    for (auto pi : poll_infos)\n    {\n        if (!pi->m_processed)", "    for (detail::poll_info* const pi : poll_infos)\n    {\n        if (pi->m_processed == true)\n        {\n            continue;\n        }")], "ok"),
    ("pl-ok-flags", "C17", [(N, "    if (!keep)\n    {\n        event_data.events |= EPOLLONESHOT;\n    }", "    if (keep == false)\n    {\n        event_data.events = event_data.events | EPOLLONESHOT;\n    }")], "ok"),
    ("pl-ok-ternary", "C17", [(N, "    if (!keep)\n    {\n        event_data.events |= EPOLLONESHOT;\n    }\n    else\n", "    event_data.events |= (keep ? static_cast<uint32_t>(EPOLLET) : static_cast<uint32_t>(EPOLLONESHOT));\n    if (false)\n")], "ok"),
    ("pl-ok-bits", "C17", [(N, "(((uint64_t)keep_registered) << 63) | (((uint64_t)is_cancel_event) << 62)", "(((uint64_t)keep_registered) << 62) | (((uint64_t)is_cancel_event) << 63)"), (N, "(bool)(encoded >> 63)", "(bool)((encoded >> 62) & 0x1)"), (N, "(bool)((encoded >> 62) & 0x1);\n    void", "(bool)(encoded >> 63);\n    void")], "ok"),
    ("pl-ok-next-int", "C17", [(N, "        // If the event issuing fd", "        if (pi == nullptr)\n        {\n            pi = static_cast<poll_info*>(udata);\n        }\n        // If the event issuing fd")], "ok"),
    ("pl-ok-next-flat", "C17", [(N, "        if (is_cancel_event)\n        {\n            ready_events.emplace_back(pi, poll_status::cancelled);", "        const auto what = is_cancel_event ? poll_status::cancelled : event_to_poll_status(ready_set[i]);\n        ready_events.push_back({pi, what});\n        if (is_cancel_event)\n        {"), (N, "            ready_events.emplace_back(pi, io_notifier_epoll::event_to_poll_status(ready_set[i]));\n", "")], "ok"),
    ("pl-ok-next-ref", "C17", [(N, "        auto [keep_registered, is_cancel_event, udata] = decode_udata(ready_set[i].data.u64);", "        const auto& one = ready_set[static_cast<std::size_t>(i)];\n        const auto decoded = decode_udata(one.data.u64);\n        const bool keep_registered = std::get<0>(decoded);\n        const bool is_cancel_event = std::get<1>(decoded);\n        auto* const udata = std::get<2>(decoded);")], "ok"),
    ("pl-ok-status-sw", "C17", [(N, "    else if (event.events & EPOLLRDHUP || event.events & EPOLLHUP)", "    else if ((event.events & (EPOLLRDHUP | EPOLLHUP)) != 0)")], "ok"),
    ("pl-ok-status-errfirst", "C17", [(N, "    if (event.events & static_cast<uint32_t>(poll_op::read))\n    {\n        return poll_status::read;\n    }\n", "    const uint32_t e = event.events;\n    if (e & EPOLLIN)\n    {\n        return poll_status::read;\n    }\n")], "ok"),
    ("pl-ok-un-order", "C17", [(N, "    if (pi.m_cancel_trigger.has_value())\n    {\n        unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);\n    }\n\n    return unwatch(pi.m_fd, pi.m_op);", "    const bool ok = unwatch(pi.m_fd, pi.m_op);\n    if (pi.m_cancel_trigger)\n    {\n        unwatch(pi.m_cancel_trigger->native_handle(), poll_op::read);\n    }\n\n    return ok;")], "ok"),
    ("pl-ok-poll-timerfirst", "C17", [(C, ARM, ""), (C, WATCHIF, "    const bool watched = m_io_notifier.watch(pi);\n" + WATCHIF.replace("!m_io_notifier.watch(pi)", "watched == false") + ARM)], "ok"),
    ("pl-ok-emplace-pos", "C17", [(C, "        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);", "        const auto until = clock::now() + timeout;\n        pi.m_timer_pos.emplace(add_timer_token(until, pi));")], "ok"),
    ("pl-ok-return", "C17", [(C, "    auto result = co_await pi;\n    co_return result;", "    co_return co_await pi;")], "ok"),
]
