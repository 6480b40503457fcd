I = "src/net/io_status.cpp"
IH = "include/coro/net/io_status.hpp"
P = "src/poll.cpp"
T = "src/net/tls/connection_status.cpp"
R = "include/coro/net/tls/recv_status.hpp"
RS = "src/net/tls/recv_status.cpp"
SM = "src/semaphore.cpp"
MUTANTS = [
    ("st-default-ok", "C20", [(I, "            type = kind::native;\n            break;", "            type = native_code > 0 ? kind::native : kind::ok;\n            break;")], "bad"),
    ("st-lost-code", "C20", [(I, "    return coro::net::io_status{.type = type, .native_code = native_code};", "    return coro::net::io_status{.type = type, .native_code = type == kind::ok ? native_code : 0};")], "bad"),
    ("st-reset-closed", "C20", [(I, "            type = kind::connection_reset;", "            type = kind::closed;")], "bad"),
    ("st-pipe-closed", "C20", [(I, "        case ECONNREFUSED:\n", "        case ENOTCONN:\n            type = kind::would_block_or_try_again;\n            break;\n        case ECONNREFUSED:\n")], "bad"),
    ("st-poll-cancel", "C20", [(I, "            return io_status{io_status::kind::cancelled};", "            return io_status{io_status::kind::closed};")], "bad"),
    ("st-poll-default", "C20", [(I, "            return io_status{io_status::kind::unknown};", "            return io_status{io_status::kind::ok};")], "bad"),
    ("st-poll-error", "C20", [(I, "        case poll_status::error:\n            return io_status{io_status::kind::polling_error};\n        case poll_status::closed:\n", "        case poll_status::error:\n        case poll_status::closed:\n")], "bad"),
    ("st-is-closed", "C20", [(IH, "return type == kind::closed; }", "return type == kind::closed || type == kind::connection_reset; }")], "bad"),
    ("st-again", "C20", [(IH, "auto try_again() const -> bool { return type == kind::would_block_or_try_again; }", "auto try_again() const -> bool { return type >= kind::would_block_or_try_again; }")], "bad"),
    ("st-text-same", "C20", [(P, 'poll_status_closed{"closed"}', 'poll_status_closed{"error"}')], "bad"),
    ("st-text-missing", "C20", [(T, "        case connection_status::poll_error:\n            return connection_status_poll_error;\n", "")], "bad"),
    ("st-text-swapped", "C20", [(RS, "            return recv_status_want_read;", "            return recv_status_want_write;"), (RS, "        case recv_status::want_write:\n            return recv_status_want_write;", "        case recv_status::want_write:\n            return recv_status_want_read;")], "bad"),
    ("st-tls-code", "C20", [(R, "closed           = SSL_ERROR_ZERO_RETURN", "closed           = SSL_ERROR_SYSCALL"), (R, "error_syscall    = SSL_ERROR_SYSCALL", "error_syscall    = SSL_ERROR_ZERO_RETURN")], "bad"),
    ("st-tls-timeout", "C20", [(R, "timeout         = -4", "timeout         = SSL_ERROR_WANT_ASYNC")], "bad"),
    ("st-message", "C20", [(I, "std::system_category().message(native_code)", "std::system_category().message(errno)")], "bad"),
    ("st-message-type", "C20", [(I, "    if (not is_native())\n", "    if (not is_native() && not is_ok())\n")], "bad"),
    ("st-ok-if", "C20", [(I, "        case kind::unknown:\n        default:\n", "        default:\n"), (I, "    switch (k)\n    {\n        case kind::ok:\n            return \"Success\";\n", "    if (k == kind::ok)\n    {\n        return \"Success\";\n    }\n    switch (k)\n    {\n")], "ok"),
    ("st-ok-early", "C20", [(I, "    using kind = io_status::kind;\n    kind type;\n    switch (native_code)\n", "    using kind = io_status::kind;\n    if (native_code == 0)\n    {\n        return io_status{kind::ok, 0};\n    }\n    kind type{kind::native};\n    switch (native_code)\n")], "ok"),
    ("st-ok-pred", "C20", [(IH, "auto is_timeout() const -> bool { return type == kind::timeout; }", "auto is_timeout() const -> bool { return !(type != kind::timeout); }")], "ok"),
]
