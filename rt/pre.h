// Force-included before every translation unit (libc headers that MSVC/libc++ pull in implicitly).
#pragma once
#include <cstdint>
#include <type_traits>
#include <concepts>
#include <stddef.h>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
using std::nullptr_t;
