// Includes the C headers of the code under test from C++.
#pragma once
#include "core.h"
#include <cmath>
#include <complex>
#include <algorithm>
#include <memory>
#include <thread>
#include <mutex>
#include <atomic>
#include <sstream>
#include <iostream>
#include <unistd.h>
#define HAVE___VA_ARGS__ 1
#define HAVE___FUNC__ 1
#define namespace namespace_
#define typename typename_
#define this this_
#define new new_
#define class class_
#define template template_
#define private private_
#define delete delete_
#define register register_
extern "C" {
#include "utils/err.h"
#include "dlite.h"
#include "dlite-macros.h"
#include "dlite-behavior.h"
#include "dlite-storage-plugins.h"
}
#undef alignof
#undef namespace
#undef typename
#undef this
#undef new
#undef class
#undef template
#undef private
#undef delete
#undef register
