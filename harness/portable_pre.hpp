// Force-included to compile /repo's portable arithmetic on x86-64: every system header is read first with the
// platform macros intact, then the architecture macros the library tests are withdrawn.
#pragma once
#include <bits/stdc++.h>
#include <cxxabi.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#if __has_include(<gmp.h>)
#include <gmp.h>
#include <gmpxx.h>
#endif
#if __has_include(<immintrin.h>)
#include <immintrin.h>
#include <cpuid.h>
#endif
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
