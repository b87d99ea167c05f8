#include "host.h"
// the native functions of spec/Native.tla are generated (tools/gen_native.py) and linked in where they are needed
__attribute__((weak)) bool NativeInit();
__attribute__((weak)) bool NativeCommand(const std::vector<std::string> &args);
bool HostInit(){ return !NativeInit || NativeInit(); }
bool HostCommand(const std::vector<std::string> &args){ return NativeCommand && NativeCommand(args); }
