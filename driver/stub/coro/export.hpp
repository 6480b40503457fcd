#pragma once
#define CORO_EXPORT
