// A virtual clock for the native module: linked with --wrap, so that every clock the module reads is replaced.
// While active, time stands still except for a step at every query and one jump at a chosen query.
#include <chrono>
#include <ctime>
#include <sys/time.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

static bool active = false;
static double now_s = 0, step_s = 0, jump_s = 0;
static long queries = 0, jump_at = 0;

static double query() {
	queries++;
	now_s += step_s;
	if (queries == jump_at) now_s += jump_s;
	return now_s;
}

EXPORT void pbt_clock_start(double start, double step, long at, double jump) {
	active = true; now_s = start; step_s = step; jump_at = at; jump_s = jump; queries = 0;
}
EXPORT long pbt_clock_stop() { active = false; return queries; }
EXPORT double pbt_clock_now() { return now_s; }

extern "C" {
time_t __real_time(time_t*);
time_t __wrap_time(time_t* out) {
	if (!active) return __real_time(out);
	time_t t = time_t(query());
	if (out) *out = t;
	return t;
}
clock_t __real_clock();
clock_t __wrap_clock() { return active ? clock_t(query() * CLOCKS_PER_SEC) : __real_clock(); }
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
	if (!active) return __real_clock_gettime(id, ts);
	double t = query();
	ts->tv_sec = time_t(t);
	ts->tv_nsec = long((t - double(ts->tv_sec)) * 1e9);
	return 0;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
	if (!active) return __real_gettimeofday(tv, tz);
	double t = query();
	tv->tv_sec = time_t(t);
	tv->tv_usec = long((t - double(tv->tv_sec)) * 1e6);
	return 0;
}
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
	if (!active) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
	return std::chrono::steady_clock::time_point(std::chrono::nanoseconds((long long)(query() * 1e9)));
}
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
	if (!active) return __real__ZNSt6chrono3_V212system_clock3nowEv();
	return std::chrono::system_clock::time_point(std::chrono::nanoseconds((long long)(query() * 1e9)));
}
}
