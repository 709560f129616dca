// The simulator: every libc call by which the solver meets the outside world lands here (symbols renamed with objcopy).
#include "sim.h"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

const char *fault_names[F_N] = {"processor clock jump", "clock read fails", "wall clock jump", "allocation fails",
    "short read", "read error", "input cannot be opened", "input close fails", "short write", "write error", "disk full",
    "output cannot be opened", "output close fails", "earlier output file content", "non-zero garbage in fresh memory", "memory limit",
    "processor clock jump between reads"};

static Shm *S;             // outcome, shared with the parent
static Env E;              // environment of the current run (child)

static const char IN_PATH[] = "/sim/tsp_test_1.csv";
static const char OUT_PATH[] = "/sim/tsp_result_1.txt";

static inline void ev(u64 kind, u64 a = 0, u64 b = 0) { S->hash = mix(mix(mix(S->hash, kind), a), b); }
[[noreturn]] static void finish(int kind, int status) {
    if (S->kind == K_NONE) { S->kind = kind; S->status = status; }
    _exit(0);
}

// ---------------------------------------------------------------- clock
static i64 cpu, wall_reads, wall_extra;
static i64 cpu_event_alloc() {
    S->aseq++;
    cpu += E.atick;
    for (auto &j : E.ajumps) if (j.first == S->aseq) { cpu += j.second; S->fired[F_ACLOCK]++; ev(11, j.first, j.second); }
    return cpu;
}
static bool cpu_read(i64 *v) {
    S->reads++;
    i64 k = S->reads;
    cpu += E.tick;
    for (auto &j : E.jumps) if (j.first == k) { cpu += j.second; S->fired[F_CLOCK_JUMP]++; }
    S->elapsed = cpu - E.c0;
    bool fail = false;
    for (auto f : E.cfail) if (f == k) fail = true;
    if (fail) S->fired[F_CLOCK_FAIL]++;
    *v = fail ? -1 : cpu;
    if (S->nlog < MAXREADS) { S->log[S->nlog].value = *v; S->log[S->nlog].aseq = S->aseq; S->nlog++; }
    ev(1, *v);
    if (k >= MAXREADS || (E.deep && k >= (E.deep > 28 ? 70000 : 2500 * E.deep))) finish(K_CAP, 0);
    return !fail;
}
static i64 wall_read() {
    wall_reads++;
    if (E.wseed) {
        u64 h = mix(E.wseed, wall_reads);
        if (h % 3 == 0) { wall_extra += (i64) (mix(h, 1) % 8000000000ull) - 4000000000ll; S->fired[F_WALL]++; }
    }
    i64 v = 1700000000000000ll + cpu + wall_extra;
    ev(2, v);
    return v;
}
extern "C" clock_t sim_clock(void) { i64 v; cpu_read(&v); return (clock_t) v; }
extern "C" time_t sim_time(time_t *t) { time_t v = wall_read() / 1000000; if (t) *t = v; return v; }
extern "C" int sim_gettimeofday(struct timeval *tv, void *) { i64 v = wall_read(); tv->tv_sec = v / 1000000; tv->tv_usec = v % 1000000; return 0; }
extern "C" int sim_clock_gettime(clockid_t id, struct timespec *ts) {
    i64 v;
    if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) {
        if (!cpu_read(&v)) { errno = EINVAL; return -1; }
    } else v = wall_read();
    ts->tv_sec = v / 1000000; ts->tv_nsec = (v % 1000000) * 1000;
    return 0;
}
extern "C" clock_t sim_times(struct tms *t) {
    i64 v; cpu_read(&v);
    if (t) { memset(t, 0, sizeof *t); t->tms_utime = v / 10000; }
    return (clock_t) (wall_read() / 10000);
}
extern "C" int sim_getrusage(int, struct rusage *r) {
    i64 v; memset(r, 0, sizeof *r);
    if (!cpu_read(&v)) { errno = EINVAL; return -1; }
    r->ru_utime.tv_sec = v / 1000000; r->ru_utime.tv_usec = v % 1000000;
    return 0;
}
extern "C" double sim_difftime(time_t a, time_t b) { return (double) (a - b); }
// randomness: decided by the seed of the wall clock, so that a solver that used it would differ between environments
static u64 rnd_state;
extern "C" int sim_rand(void) { rnd_state = mix(rnd_state, E.wseed + 7); ev(3, rnd_state); return (int) (rnd_state & 0x7fffffff); }
extern "C" void sim_srand(unsigned s) { rnd_state = s; }
extern "C" long sim_random(void) { return sim_rand(); }
extern "C" ssize_t sim_getrandom(void *p, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char *) p)[i] = (char) sim_rand(); return n; }
extern "C" int sim_getpid(void) { return 4242 + (int) (E.wseed % 1000); }

// ---------------------------------------------------------------- memory
static i64 requests, live_bytes;
static const i64 EVENT_CAP = 400000;
static const i64 MEM_CAP = 600ll << 20;
static bool alloc_fails(size_t n) {
    requests++;
    bool fail = E.afail_from && requests >= E.afail_from;
    for (auto f : E.afail) if (f == requests) fail = true;
    if (fail) { S->fired[F_ALLOC]++; ev(20, requests); return true; }
    if (E.alimit && live_bytes + (i64) n > E.alimit) { S->fired[F_ALIMIT]++; ev(20, requests); return true; }
    return false;
}
#ifdef SAN
struct Hdr { size_t size; u64 magic; };
#define HDR 16
#define TAIL 0
static void *raw_alloc(size_t n) { return malloc(n); }
static void raw_free(void *p) { free(p); }
#else
struct Hdr { size_t size; u64 magic; void *link; u64 can; };
#define HDR 32
#define TAIL 16
static char *const ARENA = (char *) 0x200000000000ull;
static const size_t ARENA_SIZE = 8ull << 30;
static char *bump;
static const size_t CLASSES = 1 << 16;
static void *freelist[CLASSES];   // by 16-byte size class, last in first out
static void *raw_alloc(size_t n) {
    size_t c = (n + 15) / 16;
    if (c < CLASSES && freelist[c]) { void *p = freelist[c]; freelist[c] = ((Hdr *) p)->link; return p; }
    char *p = bump;
    bump += c * 16;
    if (bump > ARENA + ARENA_SIZE) finish(K_MEMCAP, 0);
    return p;
}
#endif
static const u64 LIVE = 0xfeedface600dbeefull, DEAD = 0xdeaddeaddeaddeadull, CAN = 0xc0ffee11c0ffee22ull;
static std::map<void *, size_t> *san_sizes;
static void *do_alloc(size_t n, bool zero) {
    cpu_event_alloc();
    S->last_malloc = S->aseq;
    ev(10, n);
    if (S->aseq > (E.deep ? 1000 * EVENT_CAP : EVENT_CAP)) finish(K_CAP, 0);
    if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
#ifdef SAN
    void *u = malloc(n);
    if (!u) finish(K_MEMCAP, 0);
    (*san_sizes)[u] = n;
    if (zero) memset(u, 0, n);
#else
    char *p = (char *) raw_alloc(HDR + n + TAIL);
    Hdr h = {n, LIVE, nullptr, CAN};
    memcpy(p, &h, HDR);
    void *u = p + HDR;
    if (zero) memset(u, 0, n); else { memset(u, E.hpoison, n); if (E.hpoison) S->fired[F_POISON] = 1; }
    u64 c[2] = {CAN, CAN};
    memcpy((char *) u + n, c, 16);
#endif
    S->nalloc++;
    S->live++;
    live_bytes += n;
    if (S->live > S->peak) S->peak = S->live;
    if (live_bytes > MEM_CAP) finish(K_MEMCAP, 0);
    return u;
}
static size_t block_size(void *u, const char *who) {
#ifdef SAN
    auto it = san_sizes->find(u);
    if (it == san_sizes->end()) { free(u); finish(K_HEAP, 1); }   // the sanitizer reports it first
    return it->second;
#else
    Hdr h;
    if ((char *) u < ARENA + HDR || (char *) u >= bump || ((u64) u & 15)) { S->sanlen = snprintf(S->san, sizeof S->san, "%s of a pointer that is no block", who); finish(K_HEAP, 1); }
    memcpy(&h, (char *) u - HDR, HDR);
    u64 c[2];
    if (h.magic == DEAD) { S->sanlen = snprintf(S->san, sizeof S->san, "%s of a released block", who); finish(K_HEAP, 2); }
    if (h.magic != LIVE || h.can != CAN) { S->sanlen = snprintf(S->san, sizeof S->san, "%s: block header overwritten", who); finish(K_HEAP, 3); }
    memcpy(c, (char *) u + h.size, 16);
    if (c[0] != CAN || c[1] != CAN) { S->sanlen = snprintf(S->san, sizeof S->san, "%s: block end overwritten", who); finish(K_HEAP, 4); }
    return h.size;
#endif
}
static void do_free(void *u) {
    size_t n = block_size(u, "release");
    cpu_event_alloc();
    ev(12, n);
    S->nfree++;
    S->live--;
    live_bytes -= n;
#ifdef SAN
    san_sizes->erase(u);
    free(u);
#else
    char *p = (char *) u - HDR;
    size_t c = (HDR + n + TAIL + 15) / 16;
    Hdr h = {n, DEAD, c < CLASSES ? freelist[c] : nullptr, CAN};
    memset(u, E.hpoison ^ 0x5a, n);
    memcpy(p, &h, HDR);
    if (c < CLASSES) freelist[c] = p;
#endif
}
extern "C" void *sim_malloc(size_t n) { return do_alloc(n, false); }
extern "C" void *sim_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return do_alloc(a * b, true); }
extern "C" void sim_free(void *p) { if (p) do_free(p); }
extern "C" void *sim_realloc(void *p, size_t n) {
    if (!p) return do_alloc(n, false);
    if (!n) { do_free(p); return nullptr; }
    size_t old = block_size(p, "resize");
    void *q = do_alloc(n, false);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    do_free(p);
    return q;
}
extern "C" void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
extern "C" void *sim_aligned_alloc(size_t, size_t n) { return do_alloc(n, false); }
extern "C" char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) do_alloc(n, false); if (p) memcpy(p, s, n); return p; }
extern "C" char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *) do_alloc(n + 1, false); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

// ---------------------------------------------------------------- disk
struct File { std::string data; bool exists = false; bool input = false; };
static std::map<std::string, File> *disk;
static i64 disk_used_new;   // bytes written in this run
struct Handle { std::string path; i64 pos = 0; bool rd = false, wr = false, append = false, dead = false, console = false, err = false; i64 werr_done = 0; };

static ssize_t file_read(Handle *h, char *buf, size_t n) {
    File &f = (*disk)[h->path];
    if (h->dead || !h->rd) { errno = EBADF; return -1; }
    i64 left = (i64) f.data.size() - h->pos;
    if (f.input) {
        if (E.rchunk > 0 && (i64) n > E.rchunk) { n = E.rchunk; if (left > (i64) n) S->fired[F_READ_SHORT]++; }
        if (E.rerr_off >= 0) {
            if (h->pos >= E.rerr_off) { S->fired[F_READ_ERR]++; ev(31, h->pos, E.rerrno); errno = E.rerrno; return -1; }
            if (left > E.rerr_off - h->pos) left = E.rerr_off - h->pos;
        }
    }
    if (left < 0) left = 0;
    if ((i64) n > left) n = left;
    memcpy(buf, f.data.data() + h->pos, n);
    h->pos += n;
    ev(30, h->pos, n);
    return n;
}
// a single write(2): may be short, may fail
static ssize_t file_write_once(Handle *h, const char *buf, size_t n) {
    if (h->console) { // what would be on the terminal
        Shm *s = S;
        i64 k = (i64) n;
        if (h->err) { if (k > (i64) sizeof s->err - s->errlen) k = sizeof s->err - s->errlen; memcpy(s->err + s->errlen, buf, k); s->errlen += k; }
        else { if (k > (i64) sizeof s->con - s->conlen) k = sizeof s->con - s->conlen; memcpy(s->con + s->conlen, buf, k); s->conlen += k; }
        ev(h->err ? 41 : 40, n, hash_bytes(0, buf, n));
        return n;
    }
    if (h->dead || !h->wr) { errno = EBADF; return -1; }
    File &f = (*disk)[h->path];
    if (h->append) h->pos = f.data.size();
    if (E.oshort > 0 && (i64) n > E.oshort) { n = E.oshort; S->fired[F_WRITE_SHORT]++; }
    if (E.werr_off >= 0 && !(E.wonce && h->werr_done)) {
        if (h->pos >= E.werr_off) { h->werr_done++; S->fired[F_WRITE_ERR]++; ev(33, h->pos, E.werrno); errno = E.werrno; return -1; }
        if (h->pos + (i64) n > E.werr_off) n = E.werr_off - h->pos;
    }
    if (E.capacity >= 0) {
        i64 room = E.capacity - disk_used_new;
        if (room <= 0 && n) { S->fired[F_ENOSPC]++; ev(33, h->pos, ENOSPC); errno = ENOSPC; return -1; }
        if ((i64) n > room) n = room;
    }
    if ((i64) f.data.size() < h->pos + (i64) n) f.data.resize(h->pos + n);
    memcpy(&f.data[h->pos], buf, n);
    h->pos += n;
    disk_used_new += n;
    if (S->nwrites < 4096) { S->writes[S->nwrites].pos = h->pos; S->writes[S->nwrites].cpu = cpu; S->writes[S->nwrites].reads = S->reads; S->nwrites++; }
    ev(32, h->pos, hash_bytes(0, buf, n));
    return n;
}
static ssize_t ck_read(void *c, char *buf, size_t n) { return file_read((Handle *) c, buf, n); }
static ssize_t ck_write(void *c, const char *buf, size_t n) {
    size_t done = 0;
    while (done < n) {   // as glibc does for a real file
        ssize_t k = file_write_once((Handle *) c, buf + done, n - done);
        if (k <= 0) break;
        done += k;
    }
    return done;          // less than n: glibc marks the stream
}
static int ck_seek(void *c, off64_t *off, int whence) {
    Handle *h = (Handle *) c;
    if (h->console) { errno = ESPIPE; return -1; }
    i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : (i64) (*disk)[h->path].data.size();
    h->pos = base + *off;
    *off = h->pos;
    return 0;
}
static bool close_fails(Handle *h) {
    if (h->console) return false;
    S->open_files--;
    File &f = (*disk)[h->path];
    ev(34, f.input);
    if (f.input && E.iclose_errno) { S->fired[F_ICLOSE]++; errno = E.iclose_errno; return true; }
    if (!f.input && E.oclose_errno) { S->fired[F_OCLOSE]++; errno = E.oclose_errno; return true; }
    return false;
}
static int ck_close(void *c) {
    Handle *h = (Handle *) c;
    bool bad = close_fails(h);
    h->dead = true;
    return bad ? -1 : 0;
}
static Handle *open_handle(const char *path, bool rd, bool wr, bool trunc, bool create, bool append) {
    std::string p(path);
    File &f = (*disk)[p];
    ev(35, hash_bytes(0, path, strlen(path)), rd * 8 + wr * 4 + trunc * 2 + append);
    if (f.input && E.iopen_errno) { S->fired[F_IOPEN]++; errno = E.iopen_errno; return nullptr; }
    if (!f.input && wr && E.oopen_errno) { S->fired[F_OOPEN]++; errno = E.oopen_errno; return nullptr; }
    if (!f.exists && !create) { errno = ENOENT; return nullptr; }
    f.exists = true;
    if (trunc) f.data.clear();
    Handle *h = new Handle;
    h->path = p; h->rd = rd; h->wr = wr; h->append = append;
    S->open_files++;
    return h;
}
static FILE *stream(Handle *h, const char *mode, i64 bufsize) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(h, mode, io);
    if (bufsize <= 0) setvbuf(f, nullptr, _IONBF, 0);
    else setvbuf(f, (char *) mmap(nullptr, bufsize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), _IOFBF, bufsize);
    return f;
}
static FILE *dead_stream() {
    Handle *h = new Handle; h->dead = true; h->console = false; h->path = "/dead";
    cookie_io_functions_t io = {ck_read, ck_write, nullptr, nullptr};
    return fopencookie(h, "w+", io);
}
static FILE *open_stream(const char *path, const char *mode, bool out) {
    bool r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a', plus = strchr(mode, '+') != nullptr;
    if (!r && !w && !a) { errno = EINVAL; return nullptr; }
    Handle *h = open_handle(path, r || plus, w || a || plus, w, w || a, a);
    if (!h) return nullptr;
    return stream(h, plus ? (a ? "a+" : w ? "w+" : "r+") : (a ? "a" : w ? "w" : "r"), h->wr ? E.obuf : 4096);
}
extern "C" FILE *sim_fopen(const char *path, const char *mode) { return open_stream(path, mode, false); }
extern "C" int sim_fclose(FILE *f) {
    bool out = f == stdout, err = f == stderr;
    int r = fclose(f);
    if (out) stdout = dead_stream();
    if (err) stderr = dead_stream();
    return r;
}
extern "C" FILE *sim_freopen(const char *path, const char *mode, FILE *f) {
    bool out = f == stdout, err = f == stderr;
    fclose(f);
    FILE *n = path ? open_stream(path, mode, true) : nullptr;
    int e = errno;
    if (out) stdout = n ? n : dead_stream();
    if (err) stderr = n ? n : dead_stream();
    errno = e;
    return n;
}
static int next_fd = 1000;
static std::map<int, Handle *> *fds;
extern "C" int sim_open(const char *path, int flags, ...) {
    int acc = flags & O_ACCMODE;
    Handle *h = open_handle(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_TRUNC, flags & O_CREAT, flags & O_APPEND);
    if (!h) return -1;
    (*fds)[next_fd] = h;
    return next_fd++;
}
extern "C" ssize_t sim_read(int fd, void *b, size_t n) { auto i = fds->find(fd); if (i == fds->end()) { errno = EBADF; return -1; } return file_read(i->second, (char *) b, n); }
extern "C" ssize_t sim_write(int fd, const void *b, size_t n) {
    static Handle *con[3];
    if (fd == 1 || fd == 2) { if (!con[fd]) { con[fd] = new Handle; con[fd]->console = true; con[fd]->err = fd == 2; } return file_write_once(con[fd], (const char *) b, n); }
    auto i = fds->find(fd);
    if (i == fds->end()) { errno = EBADF; return -1; }
    return file_write_once(i->second, (const char *) b, n);
}
extern "C" int sim_close(int fd) {
    auto i = fds->find(fd);
    if (i == fds->end()) { errno = EBADF; return -1; }
    bool bad = close_fails(i->second);
    fds->erase(i);
    return bad ? -1 : 0;
}
extern "C" int sim_fileno(FILE *f) { return f == stdout ? 1 : f == stderr ? 2 : 3; }
extern "C" int sim_fsync(int) { return 0; }
extern "C" int sim_rename(const char *a, const char *b) {
    auto i = disk->find(a);
    if (i == disk->end() || !i->second.exists) { errno = ENOENT; return -1; }
    (*disk)[b].data = i->second.data; (*disk)[b].exists = true;
    i->second.exists = false; i->second.data.clear();
    ev(36);
    return 0;
}
extern "C" int sim_unlink(const char *a) {
    auto i = disk->find(a);
    if (i == disk->end() || !i->second.exists) { errno = ENOENT; return -1; }
    i->second.exists = false; i->second.data.clear();
    ev(37);
    return 0;
}
extern "C" int sim_remove(const char *a) { return sim_unlink(a); }
extern "C" ssize_t sim_getdelim(char **line, size_t *cap, int delim, FILE *f) {
    if (!line || !cap) { errno = EINVAL; return -1; }
    if (!*line || !*cap) {
        *line = (char *) sim_realloc(*line, 120);
        if (!*line) return -1;
        *cap = 120;
    }
    size_t n = 0;
    int c;
    while ((c = fgetc(f)) != EOF) {
        if (n + 2 > *cap) {
            size_t want = *cap * 2;
            char *p = (char *) sim_realloc(*line, want);
            if (!p) return -1;
            *line = p; *cap = want;
        }
        (*line)[n++] = (char) c;
        if (c == delim) break;
    }
    if (n == 0) return -1;
    (*line)[n] = 0;
    return n;
}
extern "C" ssize_t sim_getline(char **line, size_t *cap, FILE *f) { return sim_getdelim(line, cap, '\n', f); }
extern "C" FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
extern "C" FILE *sim_freopen64(const char *p, const char *m, FILE *f) { return sim_freopen(p, m, f); }
extern "C" int sim_open64(const char *p, int flags, ...) { return sim_open(p, flags); }
extern "C" ssize_t sim___getdelim(char **l, size_t *c, int d, FILE *f) { return sim_getdelim(l, c, d, f); }
extern "C" char *sim___strdup(const char *s) { return sim_strdup(s); }
extern "C" void sim_perror(const char *s) {
    int e = errno;
    std::string m = (s && *s) ? std::string(s) + ": " + strerror(e) + "\n" : std::string(strerror(e)) + "\n";
    fwrite(m.data(), 1, m.size(), stderr);
}

// ---------------------------------------------------------------- process
static void final_report() {
    File &f = (*disk)[OUT_PATH];
    S->out_exists = f.exists;
    S->outlen = (i64) f.data.size();
    memcpy(S->out, f.data.data(), std::min(f.data.size(), sizeof S->out));
    if (S->outlen > (i64) sizeof S->out) S->outlen = sizeof S->out;
}
#ifndef SAN
static void check_arena() {
    for (char *p = ARENA; p < bump;) {
        Hdr h; memcpy(&h, p, HDR);
        if (h.magic == LIVE) block_size(p + HDR, "at exit");
        else {
            bool bad = h.magic != DEAD || h.can != CAN;
            for (size_t i = 0; !bad && i < h.size; i++) bad = (unsigned char) p[HDR + i] != (unsigned char) (E.hpoison ^ 0x5a);
            if (bad) { S->sanlen = snprintf(S->san, sizeof S->san, "released block written to"); finish(K_HEAP, 5); }
        }
        p += (HDR + h.size + TAIL + 15) / 16 * 16;
    }
}
#endif
static void (*atexits[32])(void);
static int natexit;
extern "C" int sim_atexit(void (*f)(void)) { if (natexit < 32) atexits[natexit++] = f; return 0; }
[[noreturn]] static void end_run(int kind, int status, bool flush) {
    if (flush) {
        while (natexit) atexits[--natexit]();
        i64 open_before = S->open_files;
        (void) open_before;
        fflush(stdout);
        fflush(stderr);
    }
    ev(50, kind, status);
    final_report();
#ifndef SAN
    check_arena();
#endif
    finish(kind, status);
}
extern "C" [[noreturn]] void sim_exit(int status) { end_run(K_EXIT, status & 255, true); }
extern "C" [[noreturn]] void sim__exit(int status) { end_run(K_EXIT, status & 255, false); }
extern "C" [[noreturn]] void sim__Exit(int status) { end_run(K_EXIT, status & 255, false); }
extern "C" [[noreturn]] void sim_abort(void) { end_run(K_ABORT, 0, false); }
extern "C" [[noreturn]] void sim___assert_fail(const char *, const char *, unsigned, const char *) { end_run(K_ABORT, 1, false); }

static void on_signal(int sig) {
    S->sig = sig;
    if (disk) final_report();
    finish(sig == SIGPROF ? K_HANG : K_SIGNAL, sig);
}

#ifdef SAN
extern "C" const char *__asan_default_options() { return "exitcode=77:detect_leaks=0:halt_on_error=1:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=1"; }
extern "C" const char *__ubsan_default_options() { return "exitcode=77:halt_on_error=1:print_stacktrace=0"; }
#endif

// sim/obs.c saw a subproblem taken from the list of waiting ones
extern "C" void sim_taken(const char *wrong) {
    S->taken++;
    if (wrong && !S->note[0]) {
        snprintf(S->note, sizeof S->note, "subproblem taken up as number %lld: %s", (long long) S->taken, wrong);
        S->hash = hash_bytes(S->hash, S->note, strlen(S->note));
    }
}

// ... and the list given up with n still waiting
extern "C" void sim_left(long long n, double least) { if (n > S->left) { S->left = n; S->least = least; } }

static char *const STACK = (char *) 0x300000000000ull;
static const size_t STACK_SIZE = 8u << 20;     // the usual limit of the main thread
static int stack_poison = -1;
static ucontext_t solver_ctx, back_ctx;
static std::string lib_what, lib_ops;
static void solver_entry() {
    static char a0[] = "/sim/BranchAndBound1Tree";
    static char a1[sizeof IN_PATH], a2[sizeof OUT_PATH];
    memcpy(a1, IN_PATH, sizeof a1);
    memcpy(a2, OUT_PATH, sizeof a2);
    char *argv[4] = {a0, a1, a2, nullptr};
    if (!lib_what.empty()) sim_exit(lib_main(lib_what.c_str(), lib_ops.data(), lib_ops.size(), a1));
    int r = solver_main(3, argv);
    sim_exit(r);
}
static const char *prior_content(int k) {
    switch (k) {
        case 1: return "an earlier line\n";
        default: return
            "Updated best value: 0.000001, at time: 0.000000\nUpdated best value: 0.000001, at time: 0.000000\n"
            "Optimal tour found with candidate node = 0, elapsed time = 0.000000s and interrupted = FALSE\n\n"
            "MST solved with: Prim algorithm\n\nGHOSH_UB = 5.679613, SUBPROBLEM_UB = 0.005680\n\n"
            "B-&-B tree with generated BBNodes = 1,  explored BBNodes = 1 and max tree level = 1\n\nNumber of fixed edges = 0\n\n"
            "SUBPROBLEM with cost = 0.000001, type = CLOSED_1TREE, level of the BB tree = 1, prob_tour = 0.000000, BBNode number = 1 and time to obtain = 0.000000s, edge to branch = -1\n\n"
            "Cycle with 3 edges: 0 <-> 1,  1 <-> 2,  2 <-> 0\n0 Mandatory edges:\n0 Forbidden edges:\n"
            "Cycle with 3 edges: 0 <-> 1,  1 <-> 2,  2 <-> 0\n0 Mandatory edges:\n0 Forbidden edges:\n"
            "Cycle with 3 edges: 0 <-> 1,  1 <-> 2,  2 <-> 0\n0 Mandatory edges:\n0 Forbidden edges:\n"
            "Cycle with 3 edges: 0 <-> 1,  1 <-> 2,  2 <-> 0\n0 Mandatory edges:\n0 Forbidden edges:\n";
    }
}

extern "C" const int cfg_maxv;
#define STACK_POISON_BYTES (cfg_maxv >= 50 ? STACK_SIZE : (size_t) 256 << 10)

static void child(const std::string &input, const Env &env) {
    E = env;
    cpu = E.c0;
    static char sigstack[65536];
    stack_t ss; ss.ss_sp = sigstack; ss.ss_size = sizeof sigstack; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    sigaction(SIGPROF, &sa, nullptr);
#ifndef SAN
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    bump = ARENA;
#else
    san_sizes = new std::map<void *, size_t>;
#endif
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = E.deep ? 90 : 20;
    setitimer(ITIMER_PROF, &it, nullptr);
    disk = new std::map<std::string, File>;
    fds = new std::map<int, Handle *>;
    File &in = (*disk)[IN_PATH]; in.data = input; in.exists = true; in.input = true;
    if (input.compare(0, 5, "!lib ") == 0 && &lib_main) {
        size_t e = input.find('\n');
        lib_what = input.substr(5, e - 5);
        lib_ops = in.data = input.substr(e + 1);
    }
    if (E.prior) { File &o = (*disk)[OUT_PATH]; o.exists = true; o.data = prior_content(E.prior); S->fired[F_PRIOR]++; }
    Handle *ho = new Handle, *he = new Handle;
    ho->console = he->console = true; he->err = true;
    stdout = stream(ho, "w", 1024);
    stderr = stream(he, "w", 0);
    S->open_files = 0;
    errno = 0;
#ifdef SAN
    solver_entry();
#else
    getcontext(&solver_ctx);
    solver_ctx.uc_stack.ss_sp = STACK;
    solver_ctx.uc_stack.ss_size = STACK_SIZE;
    solver_ctx.uc_link = &back_ctx;
    makecontext(&solver_ctx, solver_entry, 0);
    swapcontext(&back_ctx, &solver_ctx);
#endif
    _exit(99);
}

static int san_fd = -1;
static void prepare() {
    if (S) return;
    S = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifndef SAN
    if (mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("arena"); exit(3); }
    if (mmap(STACK - 65536, 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED ||
        mmap(STACK, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("stack"); exit(3); }
#endif
    san_fd = memfd_create("san", 0);
}

i64 total_runs;
Outcome sim_run(const std::string &input, const Env &env) {
    prepare();
    total_runs++;
#ifndef SAN
    if (stack_poison != env.spoison) {
        memset(STACK + STACK_SIZE - STACK_POISON_BYTES, env.spoison, STACK_POISON_BYTES);
        stack_poison = env.spoison;
    }
#endif
    memset(S, 0, offsetof(Shm, writes));
    S->hash = 1469598103934665603ull;
    S->left = -1;
    fflush(stdout);
    fflush(stderr);
#ifdef SAN
    if (ftruncate(san_fd, 0)) {}
    lseek(san_fd, 0, SEEK_SET);
#endif
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
#ifdef SAN
        dup2(san_fd, 2);
#endif
        child(input, env);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.kind = S->kind; o.status = S->status; o.sig = S->sig;
    if (o.kind == K_NONE) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) o.kind = K_SAN;
        else if (WIFSIGNALED(st)) { o.kind = WTERMSIG(st) == SIGKILL ? K_LOST : K_SIGNAL; o.sig = WTERMSIG(st); }
        else { o.kind = K_SAN; }
#ifdef SAN
        lseek(san_fd, 0, SEEK_SET);
        ssize_t k = read(san_fd, S->san, sizeof S->san - 1);
        S->sanlen = k > 0 ? k : 0;
#endif
    }
    if (o.kind == K_LOST) { fprintf(stderr, "a simulated process was killed from outside\n"); exit(4); }
    if (getenv("CSIM_TIME") && env.deep) { struct rusage u; static double last; getrusage(RUSAGE_CHILDREN, &u); double t = u.ru_utime.tv_sec + u.ru_utime.tv_usec * 1e-6; fprintf(stderr, "deep %lld: %.2f s, reads %lld, events %lld, kind %d\n", (long long) env.deep, t - last, (long long) S->reads, (long long) S->aseq, o.kind); last = t; }
    o.hash = mix(S->hash, (u64) o.kind * 1000 + o.sig);
    o.nalloc = S->nalloc; o.nfree = S->nfree; o.live = S->live; o.peak = S->peak; o.aseq = S->aseq; o.reads = S->reads;
    o.elapsed = S->elapsed; o.open_files = S->open_files; o.last_malloc = S->last_malloc; o.taken = S->taken; o.note = S->note;
    o.left = S->left; o.least = S->least;
    memcpy(o.fired, S->fired, sizeof o.fired);
    o.out_exists = S->out_exists;
    o.out.assign(S->out, S->outlen);
    o.err.assign(S->err, S->errlen);
    o.con.assign(S->con, S->conlen);
    o.san.assign(S->san, S->sanlen);
    o.log.assign(S->log, S->log + S->nlog);
    o.writes.assign(S->writes, S->writes + S->nwrites);
    return o;
}
std::string Outcome::end() const {
    char b[200];
    switch (kind) {
        case K_EXIT: snprintf(b, sizeof b, "exit status %d", status); break;
        case K_ABORT: snprintf(b, sizeof b, "abort"); break;
        case K_SIGNAL: snprintf(b, sizeof b, "signal %d", sig); break;
        case K_HEAP: snprintf(b, sizeof b, "heap corrupted: %s", san.c_str()); break;
        case K_CAP: snprintf(b, sizeof b, "event limit of the simulation"); break;
        case K_HANG: snprintf(b, sizeof b, "processor time limit of the simulation"); break;
        case K_SAN: snprintf(b, sizeof b, "sanitizer report"); break;
        case K_MEMCAP: snprintf(b, sizeof b, "memory limit of the simulation"); break;
        default: snprintf(b, sizeof b, "unknown end");
    }
    return b;
}
