// Force-included before every header of the code under test (and of the standard library) in instrumented
// translation units: gives weak compare-exchanges the right to fail spuriously, as the C++ standard allows
// (clang's instrumentation does not distinguish weak from strong ones).
#pragma once
extern "C" int rt_weak_fail(void);
#define __atomic_compare_exchange_n(p, e, d, w, s, f)                                                                  \
    (((w) && rt_weak_fail()) ? (*(e) = __atomic_load_n((p), __ATOMIC_RELAXED), false)                                   \
                             : __atomic_compare_exchange_n(p, e, d, w, s, f))
