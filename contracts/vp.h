// common part of the wrapper translation units
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <limits>
#include <algorithm>
#include <functional>
#include <utility>
#include <iostream>
#include <fstream>
#include <sstream>
#include <memory>
#include <cassert>
#ifdef VP_NATIVE
#include <unistd.h>
extern "C" void vp_abort() { _exit(77); }
#else
extern "C" void vp_abort() __attribute__((noreturn));
#endif
#define VP extern "C" __attribute__((noinline,used))
#endif
