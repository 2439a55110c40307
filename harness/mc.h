/* mc.h - exhaustive thread scheduling of the real code.
 *
 * The library and the harness are compiled with -fsanitize=thread but linked
 * against mc.cpp instead of the sanitizer's runtime.  Threads run one at a time;
 * at every synchronisation operation (mutex, rwlock, once, condition variable,
 * static-local guard, atomic access to shared memory) the explorer decides who
 * continues, within a preemption bound.  Every plain memory access is checked
 * for data races with vector clocks built from the synchronisation operations
 * only (never from the scheduler's own hand-offs), which is what makes
 * scheduling at synchronisation operations alone sufficient.
 * Deadlock, data race and crash are violations.
 *
 * Use inside vx::isolated().
 */
#pragma once
#include <functional>
#include <vector>

namespace mc {
extern const char* raceKey;      // the key data races are reported under
void run(const std::vector<std::function<void()>>& bodies, int preemptions);
}
