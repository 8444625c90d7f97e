// A stand-in for the kernel's io_uring: the operations are executed by a controlled thread, in
// any order, at any time, with partial results and injected failures.
#pragma once
#include <cstdint>
#include <functional>
#include <sys/socket.h>
namespace uringsim {
// How many submitted operations with this user data the kernel still owns.
int pendingOf(const void* userData);
int pendingAll();
// Probability 1/den of cutting a transfer, 0 - never.
extern int cutDen;
void reset();
// Is called instead of the default execution. Returns false: not handled.
extern std::function<bool(int op, int fd, int& res)> hook;
}
