// Support for the replay programs: each runs scenarios of the real code in /repo against an executable reading of
// the contracts, and writes the first failing scenario to a file.
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <sys/time.h>
#include <chrono>
#include <functional>

namespace rp {
inline std::string scenario;               // what is being run, replayable text
inline const char *outpath = nullptr;
inline unsigned long long rngs = 88172645463325252ull;
inline unsigned long long rnd() {
    rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17;
    return rngs;
}
inline unsigned pick(unsigned n) { return (unsigned)((rnd() >> 11) % n); }
inline void seed(unsigned long long s) {
    rngs = s * 6364136223846793005ull + 1442695040888963407ull;
    if (!rngs) rngs = 1;
    for (int i = 0; i < 8; i++) rnd();
}
inline void dump(const char *why) {
    int fd = 1;
    FILE *f = outpath ? fopen(outpath, "w") : nullptr;
    if (f) { fprintf(f, "failing input: %s\nscenario:\n%s\n", why, scenario.c_str()); fclose(f); }
    (void)fd;
    printf("FAIL %s\n", why);
    fflush(stdout);
}
[[noreturn]] inline void fail(const char *fmt, ...) {
    char b[2000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    dump(b);
    _exit(1);
}
inline void note(const char *fmt, ...) {
    char b[600];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    scenario += b;
    if (scenario.size() > 200000) scenario.erase(0, 100000);
}
inline void begin(const char *fmt, ...) {
    char b[600];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    scenario = b;
    alarm(60);
}
inline void onsig(int s) {
    char b[64];
    snprintf(b, sizeof b, s == SIGALRM ? "does not terminate" : "crash (signal %d)", s);
    dump(b);
    _exit(1);
}
inline std::chrono::steady_clock::time_point t0;
inline double budget = 10;
inline bool timeup() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget;
}
inline std::string what;
inline long cases = 0;
// usage: prog PROPERTY SEED SECONDS OUTFILE
inline void init(int argc, char **argv) {
    what = argc > 1 ? argv[1] : "all";
    seed(argc > 2 ? strtoull(argv[2], 0, 10) : 1);
    budget = argc > 3 ? atof(argv[3]) : 10;
    outpath = argc > 4 ? argv[4] : nullptr;
    t0 = std::chrono::steady_clock::now();
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(s, onsig);
    setvbuf(stdout, nullptr, _IOLBF, 0);
}
inline bool want(const char *id) { return what == "all" || what == id; }
inline int done() {
    alarm(0);
    printf("CASES %ld\n", cases);
    return 0;
}
}  // namespace rp
#define CHECK(c, ...) do { if (!(c)) rp::fail(__VA_ARGS__); } while (0)
