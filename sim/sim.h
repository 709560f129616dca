// The simulated world of one solver run: clock, disk, memory and process. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <utility>

typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- deterministic randomness
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64) below((u64) (b - a + 1)); }
    double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return unit() < p; }
};
static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
static inline u64 hash_bytes(u64 h, const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
    return h;
}

// ---------------------------------------------------------------- one environment = one schedule of events and faults
struct Env {
    // processor clock, in microseconds
    i64 c0 = 1000;                                   // value before the first read
    i64 tick = 0;                                    // added at every read
    i64 atick = 0;                                   // added at every allocation or release
    std::vector<std::pair<i64, i64>> jumps;          // (index of a clock read from 1, microseconds added just before it)
    std::vector<std::pair<i64, i64>> ajumps;         // (index of an allocation event from 1, microseconds added just after it)
    std::vector<i64> cfail;                          // reads of clock() that return (clock_t) -1
    u64 wseed = 0;                                   // wall clock: 0 follows the processor clock, otherwise it jumps at every read
    // memory
    int hpoison = 0xA5, spoison = 0xA5;              // content of fresh heap blocks and of the stack
    std::vector<i64> afail;                          // allocation requests (from 1) that fail
    i64 afail_from = 0;                              // all requests from this one on fail
    i64 alimit = 0;                                  // bytes in use beyond which requests fail
    i64 deep = 0;                                    // a long run: far more events before the simulation gives up
    // input file
    i64 rchunk = 0;                                  // largest read, 0: as asked
    i64 rerr_off = -1; int rerrno = 5;               // reading fails at this offset
    int iopen_errno = 0, iclose_errno = 0;
    // output file
    i64 obuf = 4096;                                 // buffer of the stream
    i64 oshort = 0;                                  // largest accepted write, 0: as asked
    i64 werr_off = -1; int werrno = 28; int wonce = 0; // writing fails at this offset, for good or only once
    i64 capacity = -1;                               // bytes the disk can still take
    int oopen_errno = 0, oclose_errno = 0;
    int prior = 0;                                   // 1..: an earlier content of the output file
};

enum { K_NONE = 0, K_EXIT, K_ABORT, K_SIGNAL, K_HEAP, K_CAP, K_HANG, K_SAN, K_MEMCAP, K_LOST };
enum { F_CLOCK_JUMP, F_CLOCK_FAIL, F_WALL, F_ALLOC, F_READ_SHORT, F_READ_ERR, F_IOPEN, F_ICLOSE, F_WRITE_SHORT,
       F_WRITE_ERR, F_ENOSPC, F_OOPEN, F_OCLOSE, F_PRIOR, F_POISON, F_ALIMIT, F_ACLOCK, F_N };
extern const char *fault_names[F_N];

struct Read { i64 value; i64 aseq; };                // value -1: failed
static const int MAXREADS = 1000000;

struct Write { i64 pos, cpu, reads; };               // a write to the output file: offset after it, processor time, clock reads so far
struct Shm {
    int kind, status, sig;
    u64 hash;
    i64 nalloc, nfree, live, peak, aseq, reads, elapsed;
    i64 open_files;
    i64 fired[F_N];
    i64 outlen, errlen, conlen, nlog, sanlen;
    i64 out_exists;
    i64 last_malloc;                                 // allocation event number of the last request
    i64 nwrites;
    i64 taken;                                       // subproblems taken up, as seen by sim/obs.c
    i64 left; double least;                          // subproblems waiting when their list was given up (-1: not seen) and the least of their values
    char note[400];                                  // the first time that was not the best one
    Write writes[4096];
    char out[1 << 18], err[1 << 14], con[1 << 20], san[1 << 13];
    Read log[MAXREADS];
};

struct Outcome {
    int kind = K_NONE, status = 0, sig = 0;
    u64 hash = 0;
    i64 nalloc = 0, nfree = 0, live = 0, peak = 0, aseq = 0, reads = 0, elapsed = 0, open_files = 0, last_malloc = 0, taken = 0, left = -1;
    double least = 0;
    i64 fired[F_N] = {0};
    bool out_exists = false;
    std::string out, err, con, san, note;
    std::vector<Read> log;
    std::vector<Write> writes;
    bool ok() const { return kind == K_EXIT && status == 0; }
    std::string end() const;
};

Outcome sim_run(const std::string &input, const Env &env);
extern "C" int solver_main(int argc, char **argv);
// histories on the building blocks (sim/lib.c): an input that begins with "!lib <what>\n"
extern "C" int lib_main(const char *what, const char *ops, size_t n, char *path) __attribute__((weak));
