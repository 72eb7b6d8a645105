// libzt's umbrella header with C linkage for every declaration (some of its headers carry no linkage block)
#pragma once
#include "vt.hpp"
#include <stddef.h>
#include <stdarg.h>
#include <errno.h>
#include <limits.h>
#include <ctype.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/queue.h>
extern "C" {
#include <zt.h>
}
