R = "include/coro/net/dns/resolver.hpp"
S = "src/net/socket.cpp"
SH = "include/coro/net/socket.hpp"
P = "src/detail/pipe.cpp"
T = "src/detail/timer_handle.cpp"
X = "src/net/tls/context.cpp"
XH = "include/coro/net/tls/context.hpp"
C = "src/net/tls/client.cpp"
EP = "src/detail/io_notifier_epoll.cpp"
MUTANTS = [
    # ---- dns
    ("dn-count-off", "C22", [(R, "m_executor, resume_event, 1);", "m_executor, resume_event, 2);")], "bad"),
    ("dn-nowait", "C22", [(R, "        co_await resume_event;\n", "        if (result_ptr->ip_addresses().empty())\n        {\n            co_await resume_event;\n        }\n")], "bad"),
    ("dn-other-event", "C22", [(R, "        coro::event resume_event{};", "        coro::event resume_event{result_timeout()};"), (R, "private:\n    /// The executor to drive the events for dns lookups.", "private:\n    auto result_timeout() const -> bool { return m_timeout.count() > 0; }\n    /// The executor to drive the events for dns lookups.")], "bad"),
    ("dn-status-and", "C22", [(R, "if (addr_info == nullptr || status != ARES_SUCCESS)", "if (addr_info == nullptr)")], "bad"),
    ("dn-nofree", "C22", [(R, "            ares_freeaddrinfo(addr_info);\n", "            if (!result.m_ip_addresses.empty())\n            {\n                ares_freeaddrinfo(addr_info);\n            }\n")], "bad"),
    ("dn-free-early", "C22", [(R, "            result.m_status = status::complete;\n", "            result.m_status = status::complete;\n            ares_freeaddrinfo(addr_info);\n"), (R, "            ares_freeaddrinfo(addr_info);\n        }\n\n        if (result", "        }\n\n        if (result")], "bad"),
    ("dn-late-touch", "C22", [(R, "            result.m_resume.set(result.m_executor, resume_order_policy::lifo);\n        }\n", "            result.m_resume.set(result.m_executor, resume_order_policy::lifo);\n        }\n        if (status != ARES_SUCCESS)\n        {\n            result.m_status = status::error;\n        }\n")], "bad"),
    ("dn-wake-ok-only", "C22", [(R, "        if (result.m_pending_dns_requests == 0)\n", "        if (result.m_pending_dns_requests == 0 && status != ARES_ECANCELLED)\n")], "bad"),
    ("dn-family-swap", "C22", [(R, "static_cast<net::domain_t>(AF_INET6)};", "static_cast<net::domain_t>(AF_INET)};")], "bad"),
    ("dn-double-task", "C22", [(R, "            if (socket == nullptr)\n            {", "            if (socket == nullptr || socket->m_ops.load() != poll_ops)\n            {")], "bad"),
    ("dn-noupdate", "C22", [(R, "                socket->m_ops.store(poll_ops, std::memory_order::release);", "                (void)poll_ops;")], "bad"),
    ("dn-noflag", "C22", [(R, "            it->second->m_active.store(false, std::memory_order::release);\n", "")], "bad"),
    ("dn-noerase", "C22", [(R, "            self->m_active_sockets.erase(it);\n", "")], "bad"),
    ("dn-wronly", "C22", [(R, "            ops |= static_cast<uint64_t>(poll_op::write);", "            ops = static_cast<uint64_t>(poll_op::write);")], "bad"),
    ("dn-nocheck", "C22", [(R, "            if (!socket->m_active.load(std::memory_order::acquire))\n            {\n                break;\n            }\n\n            switch", "            switch")], "bad"),
    ("dn-swapfd", "C22", [(R, "ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, fd);", "ares_process_fd(m_ares_channel, fd, ARES_SOCKET_BAD);")], "bad"),
    ("dn-nocancel", "C22", [(R, "                    ares_cancel(m_ares_channel);\n                    break;", "                    break;")], "bad"),
    ("dn-timeout-drop", "C22", [(R, "                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);\n                    break;", "                    break;")], "bad"),
    ("dn-endless-error", "C22", [(R, "                    ares_process_fd(m_ares_channel, fd, fd);\n                    if (!socket", "                    co_return;\n                    if (!socket")], "bad"),
    ("dn-lib-nocount", "C22", [(R, "            ++detail::m_ares_count;\n", "            if (detail::m_ares_count == 0)\n            {\n                ++detail::m_ares_count;\n            }\n")], "bad"),
    ("dn-lib-leak", "C22", [(R, "            release_library();\n            throw", "            throw")], "bad"),
    ("dn-lib-static", "C22", [(R, "inline uint64_t m_ares_count{0};", "static uint64_t m_ares_count{0};")], "bad"),
    ("dn-lib-unlocked", "C22", [(R, "        std::scoped_lock g{detail::m_ares_mutex};\n        --detail", "        --detail")], "bad"),
    ("dn-lib-order", "C22", [(R, "        if (m_ares_channel != nullptr)\n        {\n            ares_destroy(m_ares_channel);\n            m_ares_channel = nullptr;\n        }\n\n        release_library();", "        release_library();\n        if (m_ares_channel != nullptr)\n        {\n            ares_destroy(m_ares_channel);\n            m_ares_channel = nullptr;\n        }")], "bad"),
    ("dn-ok-helper", "C22", [(R, "    static auto ares_socket_state_callback(void* data, ares_socket_t socket_fd, int readable, int writable) -> void\n    {\n        resolver* self = static_cast<resolver*>(data);\n        uint64_t  ops{0};\n\n        if (readable)\n        {\n            ops |= static_cast<uint64_t>(poll_op::read);\n        }\n        if (writable)\n        {\n            ops |= static_cast<uint64_t>(poll_op::write);\n        }\n",
      "    static auto wanted(int readable, int writable) -> uint64_t\n    {\n        uint64_t r = readable ? static_cast<uint64_t>(poll_op::read) : 0;\n        uint64_t w = writable ? static_cast<uint64_t>(poll_op::write) : 0;\n        return r | w;\n    }\n\n    static auto ares_socket_state_callback(void* data, ares_socket_t socket_fd, int readable, int writable) -> void\n    {\n        resolver* self = static_cast<resolver*>(data);\n        uint64_t  ops{wanted(readable, writable)};\n")], "ok"),
    ("dn-ok-find", "C22", [(R, "            auto& socket = self->m_active_sockets[fd];\n            if (socket == nullptr)\n            {\n                socket = std::make_shared<active_socket>(poll_ops);\n                self->m_executor->spawn_detached(self->make_poll_task(fd, socket));\n            }\n            else\n            {\n                socket->m_ops.store(poll_ops, std::memory_order::release);\n            }",
      "            auto found = self->m_active_sockets.find(fd);\n            if (found != self->m_active_sockets.end())\n            {\n                found->second->m_ops.store(poll_ops, std::memory_order::release);\n                return;\n            }\n            auto socket = std::make_shared<active_socket>(poll_ops);\n            self->m_active_sockets.emplace(fd, socket);\n            self->m_executor->spawn_detached(self->make_poll_task(fd, std::move(socket)));")], "ok"),
    ("dn-ok-if", "C22", [(R, "        if (addr_info == nullptr || status != ARES_SUCCESS)\n        {\n            result.m_status = status::error;\n        }\n        else\n", "        const bool obtained = addr_info != nullptr && status == ARES_SUCCESS;\n        if (!obtained)\n        {\n            result.m_status = status::error;\n        }\n        else\n"), (R, "        if (result.m_pending_dns_requests == 0)\n", "        const auto left = result.m_pending_dns_requests;\n        if (left < 1)\n")], "ok"),
    ("dn-ok-pollswitch", "C22", [(R, "                case poll_status::timeout:\n                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);\n                    break;\n", ""), (R, "            switch (result)\n            {", "            if (result == poll_status::timeout)\n            {\n                ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);\n                continue;\n            }\n            switch (result)\n            {\n                case poll_status::timeout:\n                    break;")], "ok"),
    # ---- owners
    ("ow-self", "C18", [(S, "    if (std::addressof(other) != this)\n    {\n        this->close();\n        this->m_fd = dup(other.m_fd);\n    }", "    this->close();\n    this->m_fd = dup(other.m_fd);")], "bad"),
    ("ow-move-leak", "C18", [(S, "        this->close();\n        m_fd = std::exchange(other.m_fd, -1);", "        m_fd = std::exchange(other.m_fd, -1);")], "bad"),
    ("ow-move-share", "C18", [(SH, "socket(socket&& other) noexcept : m_fd(std::exchange(other.m_fd, -1)) {}", "socket(socket&& other) noexcept : m_fd(other.m_fd) {}")], "bad"),
    ("ow-copy-share", "C18", [(SH, "m_fd(dup(other.m_fd)) {}", "m_fd(other.m_fd) {}")], "bad"),
    ("ow-close-keep", "C18", [(S, "        ::close(m_fd);\n        m_fd = -1;", "        if (::close(m_fd) == 0)\n        {\n            m_fd = -1;\n        }")], "bad"),
    ("ow-close-zero", "C18", [(S, "auto socket::close() -> void\n{\n    if (m_fd != -1)", "auto socket::close() -> void\n{\n    if (m_fd > 0)")], "bad"),
    ("ow-pipe-one", "C18", [(P, "        ::close(m_fds[1]);\n        m_fds[1] = -1;", "        m_fds[1] = -1;")], "bad"),
    ("ow-pipe-twice", "C18", [(P, "        ::close(m_fds[1]);", "        ::close(m_fds[0]);")], "bad"),
    ("ow-pipe-copy", "C18", [(P, "    m_fds[0] = dup(other.m_fds[0]);\n    m_fds[1] = dup(other.m_fds[1]);\n}\n\npipe_t::pipe_t(pipe_t&&", "    m_fds[0] = dup(other.m_fds[0]);\n    m_fds[1] = dup(other.m_fds[0]);\n}\n\npipe_t::pipe_t(pipe_t&&")], "bad"),
    ("ow-pipe-throw", "C18", [(P, "        fcntl(fd, F_SETFL, flags);", "        if (fcntl(fd, F_SETFL, flags) == -1)\n        {\n            throw std::runtime_error(\"Failed to set pipe to non-blocking mode.\");\n        }")], "bad"),
    ("ow-timer-leak", "C18", [(T, "        if (m_fd != -1)\n        {\n            ::close(m_fd);\n        }\n        throw", "        throw")], "bad"),
    ("ow-epoll-leak", "C18", [(EP, "    if (m_fd != -1)\n    {\n        ::close(m_fd);\n        m_fd = -1;\n    }\n}\n\nauto io_notifier_epoll::watch_timer", "    m_fd = -1;\n}\n\nauto io_notifier_epoll::watch_timer")], "bad"),
    ("ow-ctx-leak", "C18", [(X, "        SSL_CTX_free(m_ssl_ctx);\n", "")], "bad"),
    ("ow-ctx-copy", "C18", [(XH, "    context(const context&)                    = delete;\n    context(context&&)                         = delete;\n    auto operator=(const context&) -> context& = delete;\n    auto operator=(context&&) -> context&      = delete;\n", "")], "bad"),
    ("ow-ssl-raw", "C18", [(C, "    m_tls_info.m_tls_ptr = tls_unique_ptr{SSL_new(m_tls_ctx->native_handle())};", "    auto* ssl = SSL_new(m_tls_ctx->native_handle());\n    if (ssl != nullptr && SSL_set_fd(ssl, m_socket.native_handle()) == 0)\n    {\n        co_return connection_status::set_fd_failure;\n    }\n    m_tls_info.m_tls_ptr = tls_unique_ptr{ssl};")], "bad"),
    ("ow-sock-throw", "C18", [(S, "    socket s{::socket(static_cast<int>(domain), socket::type_to_os(opts.type), 0)};\n    if (s.native_handle() < 0)", "    auto fd = ::socket(static_cast<int>(domain), socket::type_to_os(opts.type), 0);\n    if (opts.blocking == socket::blocking_t::no && fcntl(fd, F_GETFL, 0) == -1)\n    {\n        throw std::runtime_error{\"Failed to read socket flags.\"};\n    }\n    socket s{fd};\n    if (s.native_handle() < 0)")], "bad"),
    ("ow-ok-swap", "C18", [(S, "        this->close();\n        m_fd = std::exchange(other.m_fd, -1);", "        socket tmp{std::move(other)};\n        std::swap(m_fd, tmp.m_fd);")], "ok"),
    ("ow-ok-exch", "C18", [(S, "        ::close(m_fd);\n        m_fd = -1;", "        auto fd = m_fd;\n        m_fd    = -1;\n        ::close(fd);")], "ok"),
]
