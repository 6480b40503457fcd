C = "include/coro/net/tcp/client.hpp"
CS = "src/net/tcp/client.cpp"
SV = "include/coro/net/tcp/server.hpp"
U = "include/coro/net/udp/peer.hpp"
TC = "src/net/tls/client.cpp"
MUTANTS = [
    # ---- transfer
    ("tr-closed-ok", "C19", [(C, "        if (bytes_recv == 0)\n", "        if (bytes_recv == 0 && buffer.size() > 1)\n"), (C, "        if (bytes_recv > 0)\n        {\n            // Ok, we've", "        if (bytes_recv > 0 || (bytes_recv == 0 && buffer.size() <= 1))\n        {\n            // Ok, we've")], "bad"),
    ("tr-closed-error", "C19", [(C, "            return {io_status{io_status::kind::closed}, std::span<element_type>{}};", "            return {make_io_status_from_native(errno), std::span<element_type>{}};")], "bad"),
    ("tr-whole-span", "C19", [(C, "                std::span<element_type>{buffer.data(), static_cast<size_t>(bytes_recv)}};", "                std::span<element_type>{buffer.data(), buffer.size()}};")], "bad"),
    ("tr-sent-prefix", "C19", [(C, "                std::span<element_type>{buffer.data() + bytes_sent, buffer.size() - bytes_sent}};", "                std::span<element_type>{buffer.data(), buffer.size() - bytes_sent}};")], "bad"),
    ("tr-fail-empty", "C19", [(C, "        return {make_io_status_from_native(errno), std::span<element_type>{buffer.data(), buffer.size()}};", "        return {make_io_status_from_native(errno), std::span<element_type>{}};")], "bad"),
    ("tr-zero-sent", "C19", [(C, "        if (bytes_sent >= 0)\n", "        if (bytes_sent > 0)\n")], "bad"),
    ("tr-nosignal", "C19", [(C, "constexpr int flags{MSG_NOSIGNAL};", "constexpr int flags{0};")], "bad"),
    ("tr-udp-trunc", "C19", [(U, "::sendto(m_socket.native_handle(), buffer.data(), buffer.size(), 0,", "::sendto(m_socket.native_handle(), buffer.data(), std::min<size_t>(buffer.size(), 65507), 0,")], "bad"),
    ("tr-udp-peer", "C19", [(U, "            io_status{io_status::kind::ok},\n            endpoint,", "            io_status{io_status::kind::ok},\n            net::socket_address::make_uninitialised(),")], "bad"),
    ("tr-udp-zero", "C19", [(U, "        if (bytes_read < 0)\n", "        if (bytes_read <= 0)\n")], "bad"),
    ("tr-errno-late", "C19", [(U, "            return make_io_status_from_native(errno);", "            ::recv(m_socket.native_handle(), nullptr, 0, MSG_DONTWAIT);\n            return make_io_status_from_native(errno);")], "bad"),
    ("tr-ok-flip", "C19", [(U, "        if (bytes_sent != -1)\n        {\n            return io_status{io_status::kind::ok};\n        }\n        else\n        {\n            return make_io_status_from_native(errno);\n        }", "        if (bytes_sent == -1)\n        {\n            const int err = errno;\n            return make_io_status_from_native(err);\n        }\n        return io_status{io_status::kind::ok};")], "ok"),
    ("tr-ok-subspan", "C19", [(C, "        auto bytes_recv = ::recv(m_socket.native_handle(), buffer.data(), buffer.size(), 0);\n", "        const auto fd         = m_socket.native_handle();\n        auto*      data       = buffer.data();\n        auto       bytes_recv = ::recv(fd, data, buffer.size(), 0);\n"), (C, "                std::span<element_type>{buffer.data(), static_cast<size_t>(bytes_recv)}};", "                std::span<element_type>{data, static_cast<size_t>(bytes_recv)}};")], "ok"),
    # ---- retry
    ("rt-wrong-dir", "C19", [(C, "co_await poll(poll_op::write, timeout);", "co_await poll(poll_op::read_write, timeout);")], "bad"),
    ("rt-no-timeout", "C19", [(C, "auto poll_status = co_await poll(poll_op::read, timeout);", "auto poll_status = co_await poll(poll_op::read);")], "bad"),
    ("rt-again-early", "C19", [(C, "            if (status.try_again())\n            {\n                // Failed to read, marking as unready and goint to poll", "            if (status.try_again() && buffer.size() > 1)\n            {\n                // Failed to read, marking as unready and goint to poll")], "bad"),
    ("rt-fail-rest", "C19", [(C, "            co_return std::pair{make_io_status_from_poll_status(pstatus), buffer};", "            co_return std::pair{make_io_status_from_poll_status(pstatus), std::span<const std::byte>{}};")], "bad"),
    ("rt-swallow", "C19", [(C, "            co_return std::pair{make_io_status_from_poll_status(pstatus), buffer};", "            co_return std::pair{io_status{io_status::kind::ok}, buffer};")], "bad"),
    ("rt-after-timeout", "C19", [(U, "        if (pstatus != poll_status::read)\n", "        if (pstatus != poll_status::read && pstatus != poll_status::timeout)\n")], "bad"),
    ("rt-half", "C19", [(U, "        co_return recvfrom(buffer);\n", "        co_return recvfrom(buffer.first(buffer.size() / 2 + 1));\n")], "bad"),
    ("rt-unbound", "C19", [(U, "        if (!m_bound)\n", "        if (!m_bound && !m_is_read_ready)\n")], "bad"),
    ("rt-accept-error", "C19", [(SV, "            if (!client && client.error().try_again())", "            if (!client)")], "bad"),
    ("rt-ok-loop", "C19", [(U, "        auto pstatus = co_await poll(poll_op::write, timeout);\n        if (pstatus != poll_status::write)\n        {\n            co_return make_io_status_from_poll_status(pstatus);\n        }\n        m_is_write_ready = true;\n\n        co_return sendto(address, buffer);", "        const auto pstatus = co_await poll(poll_op::write, timeout);\n        if (pstatus == poll_status::write)\n        {\n            m_is_write_ready = true;\n            auto again = sendto(address, buffer);\n            co_return again;\n        }\n        co_return make_io_status_from_poll_status(pstatus);")], "ok"),
    # ---- exact
    ("ex-no-advance", "C19", [(C, "            remaining                = remaining.subspan(read_span.size());\n\n            if (!status.is_ok())\n            {\n", "            if (!status.is_ok())\n            {\n                remaining = remaining.subspan(read_span.size());\n"), (C, "        co_return {io_status{io_status::kind::ok}, buffer};", "        co_return {io_status{io_status::kind::ok}, buffer};")], "bad"),
    ("ex-full-timeout", "C19", [(C, "            auto [status, unsent_span] = co_await write_some_impl(remaining, remaining_timeout);", "            auto [status, unsent_span] = co_await write_some_impl(remaining, timeout);")], "bad"),
    ("ex-ignore-status", "C19", [(C, "            remaining                  = unsent_span;\n\n            if (!status.is_ok())\n", "            remaining                  = unsent_span;\n\n            if (!status.is_ok() && !remaining.empty())\n")], "bad"),
    ("ex-status-ok", "C19", [(C, "                co_return {status, remaining};", "                co_return {io_status{io_status::kind::ok}, remaining};")], "bad"),
    ("ex-prefix-lost", "C19", [(C, "                co_return {status, buffer.subspan(0, buffer.size() - remaining.size())};", "                co_return {status, read_span};")], "bad"),
    ("ex-timeout-early", "C19", [(C, "                if (elapsed >= timeout)\n                {\n                    co_return {io_status{io_status::kind::timeout}, remaining};", "                if (elapsed + std::chrono::milliseconds{1} >= timeout)\n                {\n                    co_return {io_status{io_status::kind::timeout}, remaining};")], "bad"),
    ("ex-partial-ok", "C19", [(C, "        while (!remaining.empty())\n        {\n            std::chrono::milliseconds remaining_timeout{0};\n            if (timeout.count() > 0)\n            {\n                auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(\n                    std::chrono::steady_clock::now() - start_time);\n\n                if (elapsed >= timeout)\n                {\n                    co_return {io_status{io_status::kind::timeout}, remaining};", "        while (remaining.size() > 1)\n        {\n            std::chrono::milliseconds remaining_timeout{0};\n            if (timeout.count() > 0)\n            {\n                auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(\n                    std::chrono::steady_clock::now() - start_time);\n\n                if (elapsed >= timeout)\n                {\n                    co_return {io_status{io_status::kind::timeout}, remaining};")], "bad"),
    ("ex-ok-for", "C19", [(C, "        std::span<std::byte> remaining  = buffer;\n\n        while (!remaining.empty())\n        {", "        std::span<std::byte> remaining  = buffer;\n\n        for (;;)\n        {\n            if (remaining.size() == 0)\n            {\n                break;\n            }")], "ok"),
    # ---- wrap
    ("wr-short", "C19", [(C, "co_await read_some_impl(std::as_writable_bytes(std::span{buffer}), timeout);", "co_await read_some_impl(std::as_writable_bytes(std::span{buffer}).subspan(0, buffer.size() - buffer.size() / 2), timeout);")], "bad"),
    ("wr-tail", "C19", [(C, "co_await write_all_impl(std::as_bytes(std::span{buffer}), timeout);", "co_await write_all_impl(std::as_bytes(std::span{buffer}).subspan(1), timeout);")], "bad"),
    ("wr-notimeout", "C19", [(U, "co_return co_await read_from_impl(std::as_writable_bytes(std::span{buffer}), timeout);", "co_return co_await read_from_impl(std::as_writable_bytes(std::span{buffer}));")], "bad"),
    ("wr-swap", "C19", [(C, "        auto [status, buf] = co_await write_some_impl(std::as_bytes(std::span{buffer}), timeout);\n        co_return {status, std::span<element_type>{reinterpret_cast<element_type*>(buf.data()), buf.size()}};", "        auto [status, buf] = co_await write_some_impl(std::as_bytes(std::span{buffer}), timeout);\n        co_return {status, std::span<element_type>{buffer.data(), buf.size()}};")], "bad"),
    # ---- connect
    ("co-noresult", "C19", [(CS, "                else if (result == 0)\n", "                else if (result == 0 || errno == EINPROGRESS)\n")], "bad"),
    ("co-notimeout", "C19", [(CS, "                co_return return_value(connect_status::timeout);", "                co_return connect_status::timeout;")], "bad"),
    ("co-forget", "C19", [(CS, "    if (m_connect_status.has_value())\n    {\n        co_return m_connect_status.value();", "    if (m_connect_status.has_value() && m_connect_status.value() == connect_status::connected)\n    {\n        co_return m_connect_status.value();")], "bad"),
    ("co-read", "C19", [(CS, "m_scheduler->poll(m_socket, poll_op::write, timeout);", "m_scheduler->poll(m_socket, poll_op::read_write, timeout);")], "bad"),
    ("co-type", "C19", [(CS, "SOL_SOCKET, SO_ERROR,", "SOL_SOCKET, SO_TYPE,")], "bad"),
    ("co-inprogress", "C19", [(CS, "errno == EAGAIN || errno == EINPROGRESS", "errno == EAGAIN || errno == EALREADY")], "bad"),
    ("co-tls-plain", "C19", [(TC, "                    co_return return_value(co_await handshake(timeout));", "                    co_return return_value(connection_status::connected);")], "bad"),
    ("co-ok-nolambda", "C19", [(CS, "    if (cret == 0)\n    {\n        co_return return_value(connect_status::connected);\n    }", "    if (cret == 0)\n    {\n        m_connect_status = connect_status::connected;\n        co_return connect_status::connected;\n    }")], "ok"),
]
