#pragma once
#include <string>
#include <vector>
struct SharedLog { unsigned used; unsigned overflow; char data[4 * 1024 * 1024]; };
extern SharedLog *g_log;
void LogF(const char *fmt, ...);
std::string Hex(const char *s, size_t n);
// Extension point: further commands and native functions (host_calls.cpp)
bool HostInit();
bool HostCommand(const std::vector<std::string> &args);
