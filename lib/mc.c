#define _GNU_SOURCE
#include "mc.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>
#include <errno.h>
#include <fnmatch.h>

int mc_thorough = 0;
double mc_case_limit = 60.0;

#define IDLEN 400
#define MSGLEN 700
#define MAXVIOL 64
#define MAXCNT 400
typedef struct { char id[IDLEN], tag[64], msg[MSGLEN]; } viol_t;
typedef struct { char name[48]; double v; int kind; } cnt_t;
typedef struct {
    volatile long idx;        /* index of the case running (shard-global enumeration index) */
    volatile int running;
    volatile double t0, lim;
    char id[IDLEN];
    long cases, ops, failed_cases;
    long nviol; viol_t viol[MAXVIOL];
    int ncnt; cnt_t cnt[MAXCNT];
    int nsample; char sample[6][IDLEN];
    int done;
    char note[24][300]; int nnote;
    char khit[64]; viol_t kviol[64];      /* first hit of every known-finding pattern */
} shard_t;
static struct { char cs[IDLEN], tag[64]; } KN[64]; static int nkn;

static shard_t *SH, *ME;
static int nshards = 1, shard = 0;
static long cur = -1, skip_to = 0;
static const char *only = NULL; static int in_case = 0, case_failed = 0;
static long only_hits = 0;
static FILE *rep;         /* report stream (real stdout) */
static int list_mode = 0;

/* outcome fingerprints: open addressing set, dumped to a file at the end of the shard */
static uint64_t *set; static size_t setcap = 0, setn = 0;
static void set_add(uint64_t h) {
    if (!h) h = 1;
    if (setn * 2 >= setcap) {
        size_t oc = setcap; uint64_t *o = set; setcap = setcap ? setcap * 2 : 4096;
        set = calloc(setcap, 8); setn = 0;
        for (size_t i = 0; i < oc; i++) if (o[i]) set_add(o[i]);
        free(o);
    }
    size_t i = (h * 0x9E3779B97F4A7C15ull) % setcap;
    while (set[i]) { if (set[i] == h) return; i = (i + 1) % setcap; }
    set[i] = h; setn++;
}
uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
    const unsigned char *c = p; h ^= 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h;
}
void mc_state(uint64_t h) { set_add(h); }
void mc_state_d(const double *v, int n) {
    uint64_t h = 17; char b[40];
    for (int i = 0; i < n; i++) { double x = v[i]; if (fabs(x) < 1e-9) x = 0; int l = snprintf(b, sizeof b, "%.5e,", x); h = mc_hash(h, b, l); }
    set_add(h);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void end_case(void) {
    if (in_case) { ME->cases++; if (case_failed) ME->failed_cases++; ME->running = 0; in_case = 0; }
}
int mc_case(const char *fmt, ...) {
    char id[IDLEN]; va_list ap;
    end_case();
    cur++;
    if (only) {
        va_start(ap, fmt); vsnprintf(id, IDLEN, fmt, ap); va_end(ap);
        if (strcmp(id, only)) return 0;
        only_hits++;
    } else if (list_mode) {
        va_start(ap, fmt); vsnprintf(id, IDLEN, fmt, ap); va_end(ap);
        fprintf(rep, "%s\n", id); return 0;
    } else {
        if (cur % nshards != shard || cur < skip_to) return 0;
        va_start(ap, fmt); vsnprintf(id, IDLEN, fmt, ap); va_end(ap);
    }
    memcpy(ME->id, id, IDLEN); ME->idx = cur; ME->lim = mc_case_limit; ME->t0 = now(); ME->running = 1;
    if (ME->nsample < 3 || (ME->nsample < 6 && (cur % 97) == 0)) strcpy(ME->sample[ME->nsample++], id);
    in_case = 1; case_failed = 0;
    return 1;
}
int mc_ok(void) { return !case_failed; }
static int add_viol(shard_t *s, const char *id, const char *tag, const char *msg) {
    for (int i = 0; i < nkn; i++) if (!fnmatch(KN[i].cs, id, 0) && !fnmatch(KN[i].tag, tag, 0)) {
        if (!s->khit[i]) { s->khit[i] = 1; snprintf(s->kviol[i].id, IDLEN, "%s", id); snprintf(s->kviol[i].tag, 64, "%s", tag); snprintf(s->kviol[i].msg, MSGLEN, "%s", msg); }
        return 0;
    }
    long k = s->nviol++;
    if (k < MAXVIOL) {
        snprintf(s->viol[k].id, IDLEN, "%s", id); snprintf(s->viol[k].tag, 64, "%s", tag); snprintf(s->viol[k].msg, MSGLEN, "%s", msg);
    }
    return 1;
}
void mc_fail(const char *tag, const char *fmt, ...) {
    char msg[MSGLEN]; va_list ap; va_start(ap, fmt); vsnprintf(msg, MSGLEN, fmt, ap); va_end(ap);
    if (case_failed > 3) { return; }     /* keep the first few per case */
    case_failed++;
    add_viol(ME, in_case ? ME->id : "(outside case)", tag, msg);
}
void mc_ops(long n) { ME->ops += n; }
static cnt_t *cnt(const char *name, int kind) {
    for (int i = 0; i < ME->ncnt; i++) if (!strcmp(ME->cnt[i].name, name)) return &ME->cnt[i];
    if (ME->ncnt >= MAXCNT) return &ME->cnt[MAXCNT - 1];
    cnt_t *c = &ME->cnt[ME->ncnt++]; snprintf(c->name, 48, "%s", name); c->kind = kind; c->v = kind ? -DBL_MAX : 0; return c;
}
void mc_count(const char *name, long n) { cnt(name, 0)->v += n; }
void mc_max(const char *name, double v) { cnt_t *c = cnt(name, 1); if (v > c->v || v != v) c->v = v; }
void mc_note(const char *fmt, ...) { if (ME->nnote < 24) { va_list ap; va_start(ap, fmt); vsnprintf(ME->note[ME->nnote++], 300, fmt, ap); va_end(ap); } }

int mc_close(double a, double b, double atol, double rtol) {
    if (a != a || b != b) return (a != a) && (b != b);
    if (isinf(a) || isinf(b)) return a == b;
    double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b);
    return fabs(a - b) <= atol + rtol * m;
}
int mc_vec(const char *tag, const double *g, const double *w, int n, double atol, double rtol) {
    for (int i = 0; i < n; i++) if (!mc_close(g[i], w[i], atol, rtol)) {
        mc_fail(tag, "element %d of %d: got %.15g, expected %.15g", i, n, g[i], w[i]); return 0; }
    return 1;
}
/* --- guarded buffers --- */
#define RZ 16
static const uint64_t SENT = 0x7ff8dead5a5a5a5aull, REDZ = 0x7ff8bad0bad0bad0ull;
double *mc_buf(int n) {
    uint64_t *p = malloc(8 * (n + 2 * RZ)); for (int i = 0; i < n + 2 * RZ; i++) p[i] = (i < RZ || i >= n + RZ) ? REDZ : SENT;
    return (double *)(p + RZ);
}
void mc_bufinit(double *b, int n) { uint64_t *p = (uint64_t *)b; for (int i = 0; i < n; i++) p[i] = SENT; }
int mc_unwritten(double v) { uint64_t u; memcpy(&u, &v, 8); return u == SENT; }
void mc_bufcheck(const char *tag, const double *b, int n) {
    const uint64_t *p = (const uint64_t *)b - RZ;
    for (int i = 0; i < n + 2 * RZ; i++) if ((i < RZ || i >= n + RZ) && p[i] != REDZ) { mc_fail(tag, "write outside the output buffer at index %d (length %d)", i - RZ, n); return; }
}
void mc_buffree(double *b) { if (b) free((uint64_t *)b - RZ); }
void mc_seed(mc_rng *r, uint64_t s) { r->s = s * 0x9E3779B97F4A7C15ull + 0x1234567; }
double mc_u(mc_rng *r) { uint64_t z = (r->s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return ((z >> 11) + 0.5) / 9007199254740992.0; }
double mc_n(mc_rng *r) { double s = 0; for (int i = 0; i < 12; i++) s += mc_u(r); return s - 6; }

/* --- json helpers --- */
static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static char outdir[256];
static void run_shard(int s, long from) {
    shard = s; skip_to = from; cur = -1; ME = &SH[s];
    set = NULL; setcap = setn = 0;
    int nul = open("/dev/null", O_WRONLY); if (!getenv("MC_SHOW")) dup2(nul, 1);
    char path[400]; snprintf(path, sizeof path, "%s/err.%d", outdir, s);
    int e = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (!getenv("MC_SHOW")) dup2(e, 2);
    mc_enumerate();
    end_case();
    snprintf(path, sizeof path, "%s/set.%d.%ld", outdir, s, from);
    FILE *f = fopen(path, "wb"); for (size_t i = 0; i < setcap; i++) if (set[i]) fwrite(&set[i], 8, 1, f); fclose(f);
    ME->done = 1;
    fflush(NULL);
    _exit(0);
}
static int cmp64(const void *a, const void *b) { uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b; return x < y ? -1 : x > y; }
static void tail_err(int s, char *buf, size_t n) {
    char path[400]; snprintf(path, sizeof path, "%s/err.%d", outdir, s); FILE *f = fopen(path, "r"); buf[0] = 0; if (!f) return;
    char line[600]; size_t l = 0; int k = 0;
    while (fgets(line, sizeof line, f) && k < 14) {
        if (strstr(line, "ERROR:") || strstr(line, "runtime error") || strstr(line, "SUMMARY") || (strstr(line, "    #") && strstr(line, "/src/"))) {
            size_t m = strcspn(line, "\n"); line[m] = 0; char *in = strstr(line, " in "); const char *q = (in && strstr(line, "    #")) ? in + 4 : line;
            l += snprintf(buf + l, l < n ? n - l : 0, "%s; ", q); if (l >= n - 2) break; k++; }
    }
    fclose(f);
}
int main(int argc, char **argv) {
    double limit_mult = 1;
    const char *json = NULL; double budget = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--shards")) nshards = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if (!strcmp(argv[i], "--case")) only = argv[++i];
        else if (!strcmp(argv[i], "--out")) snprintf(outdir, sizeof outdir, "%s", argv[++i]);
        else if (!strcmp(argv[i], "--json")) json = argv[++i];
        else if (!strcmp(argv[i], "--list")) list_mode = 1;
        else if (!strcmp(argv[i], "--known")) { nkn = 0; FILE *kf = fopen(argv[++i], "r"); char l[600];
            while (kf && fgets(l, sizeof l, kf) && nkn < 64) { l[strcspn(l, "\n")] = 0; char *t = strchr(l, '\t'); if (!t) continue; *t = 0; snprintf(KN[nkn].cs, IDLEN, "%s", l); snprintf(KN[nkn].tag, 64, "%s", t + 1); nkn++; } if (kf) fclose(kf); }
        else if (!strcmp(argv[i], "--limit-mult")) limit_mult = atof(argv[++i]);
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
    }
    rep = stdout;
    if (!outdir[0]) { strcpy(outdir, "/tmp/mcout.XXXXXX"); if (!mkdtemp(outdir)) return 2; }
    if (list_mode) { SH = calloc(1, sizeof(shard_t)); ME = SH; mc_enumerate(); return 0; }
    if (only) nshards = 1;
    SH = mmap(NULL, sizeof(shard_t) * nshards, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (SH == MAP_FAILED) { perror("mmap"); return 2; }
    pid_t pid[256]; long from[256]; int dead[256]; int live = 0; long crashes = 0; int truncated = 0;
    double start = now();
    fflush(NULL);
    for (int s = 0; s < nshards; s++) { from[s] = 0; dead[s] = 0; pid[s] = fork(); if (!pid[s]) run_shard(s, 0); live++; }
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int s; for (s = 0; s < nshards; s++) if (pid[s] == p) break;
            if (s == nshards) continue;
            if (SH[s].done) { live--; pid[s] = 0; continue; }
            /* abnormal end: attribute to the running case */
            char err[500], msg[MSGLEN], tag[64]; tail_err(s, err, sizeof err);
            if (dead[s]) { snprintf(msg, MSGLEN, "case did not finish within %.0f s", SH[s].lim * limit_mult); strcpy(tag, "hang"); }
            else if (WIFEXITED(st)) {
                int asan = WEXITSTATUS(st) == 99;
                snprintf(msg, MSGLEN, "%s (status %d) %s", asan ? "sanitizer report" : "library ended the process", WEXITSTATUS(st), err); strcpy(tag, asan ? "memory" : "exit"); }
            else { snprintf(msg, MSGLEN, "killed by signal %d %s", WTERMSIG(st), err); strcpy(tag, "crash"); }
            if (!SH[s].running) { snprintf(tag, 64, "harness"); }
            else { SH[s].cases++; SH[s].failed_cases++; SH[s].running = 0; }
            crashes += add_viol(&SH[s], SH[s].id[0] ? SH[s].id : "(none)", tag, msg);
            dead[s] = 0;
            long nx = SH[s].idx + 1;
            if (!strcmp(tag, "harness") || crashes > 60 || only) { if (!only) truncated = 1; live--; pid[s] = 0; continue; }
            from[s] = nx; fflush(NULL); pid[s] = fork(); if (!pid[s]) run_shard(s, nx);
            continue;
        }
        struct timespec ts = {0, 2000000}; nanosleep(&ts, NULL);
        double t = now();
        for (int s = 0; s < nshards; s++) if (pid[s] && SH[s].running && t - SH[s].t0 > SH[s].lim * limit_mult && !dead[s]) { dead[s] = 1; kill(pid[s], SIGKILL); }
        if (budget > 0 && t - start > budget) { truncated = 1; for (int s = 0; s < nshards; s++) if (pid[s]) { kill(pid[s], SIGKILL); waitpid(pid[s], &st, 0); pid[s] = 0; } live = 0; }
    }
    /* merge outcome sets */
    uint64_t *all = NULL; size_t n = 0, cap = 0;
    char cmd[700]; snprintf(cmd, sizeof cmd, "ls %s/set.* 2>/dev/null", outdir);
    FILE *ls = popen(cmd, "r"); char line[500];
    while (fgets(line, sizeof line, ls)) { line[strcspn(line, "\n")] = 0; FILE *f = fopen(line, "rb"); uint64_t v;
        while (f && fread(&v, 8, 1, f) == 1) { if (n == cap) { cap = cap ? cap * 2 : 4096; all = realloc(all, cap * 8); } all[n++] = v; }
        if (f) fclose(f); unlink(line); }
    pclose(ls);
    qsort(all, n, 8, cmp64); size_t states = 0; for (size_t i = 0; i < n; i++) if (!i || all[i] != all[i - 1]) states++;
    for (int s = 0; s < nshards; s++) { snprintf(cmd, sizeof cmd, "%s/err.%d", outdir, s); unlink(cmd); }
    rmdir(outdir);
    FILE *f = json ? fopen(json, "w") : stdout; if (!f) { perror(json); return 2; }
    long cases = 0, ops = 0, failed = 0, nv = 0; for (int s = 0; s < nshards; s++) { cases += SH[s].cases; ops += SH[s].ops; failed += SH[s].failed_cases; nv += SH[s].nviol; }
    fprintf(f, "{\"property\":\"%s\",\"cases\":%ld,\"ops\":%ld,\"states\":%zu,\"failed_cases\":%ld,\"nviol\":%ld,\"truncated\":%d,\"hits\":%ld,\n\"violations\":[", mc_property, cases, ops, states, failed, nv, truncated, only ? cases : 0);
    int first = 1;
    for (int s = 0; s < nshards; s++) for (long k = 0; k < SH[s].nviol && k < MAXVIOL; k++) {
        fprintf(f, "%s\n{\"case\":", first ? "" : ","); first = 0; jstr(f, SH[s].viol[k].id); fprintf(f, ",\"tag\":"); jstr(f, SH[s].viol[k].tag); fprintf(f, ",\"msg\":"); jstr(f, SH[s].viol[k].msg); fputc('}', f); }
    fprintf(f, "],\n\"known\":["); first = 1;
    for (int i = 0; i < nkn; i++) for (int s = 0; s < nshards; s++) if (SH[s].khit[i]) {
        fprintf(f, "%s\n{\"k\":%d,\"case\":", first ? "" : ",", i); first = 0; jstr(f, SH[s].kviol[i].id); fprintf(f, ",\"tag\":"); jstr(f, SH[s].kviol[i].tag); fprintf(f, ",\"msg\":"); jstr(f, SH[s].kviol[i].msg); fputc('}', f); break; }
    fprintf(f, "],\n\"samples\":["); first = 1;
    for (int s = 0; s < nshards && s < 8; s++) for (int k = 0; k < SH[s].nsample; k++) { fprintf(f, "%s", first ? "" : ","); first = 0; jstr(f, SH[s].sample[k]); }
    fprintf(f, "],\n\"notes\":["); first = 1;
    for (int s = 0; s < nshards; s++) for (int k = 0; k < SH[s].nnote; k++) { fprintf(f, "%s", first ? "" : ","); first = 0; jstr(f, SH[s].note[k]); }
    fprintf(f, "],\n\"counters\":{"); first = 1;
    for (int s = 0; s < nshards; s++) for (int i = 0; i < SH[s].ncnt; i++) {
        cnt_t *c = &SH[s].cnt[i]; int seen = 0; for (int r = 0; r < s; r++) for (int j = 0; j < SH[r].ncnt; j++) if (!strcmp(SH[r].cnt[j].name, c->name)) seen = 1;
        if (seen) continue; double v = c->v; for (int r = s + 1; r < nshards; r++) for (int j = 0; j < SH[r].ncnt; j++) if (!strcmp(SH[r].cnt[j].name, c->name)) { double w = SH[r].cnt[j].v; if (c->kind) { if (w > v || w != w) v = w; } else v += w; }
        fprintf(f, "%s", first ? "" : ","); first = 0; jstr(f, c->name); if (c->kind) { if (isfinite(v)) fprintf(f, ":%.6g", v); else fprintf(f, ":\"%g\"", v); } else fprintf(f, ":%.0f", v); }
    fprintf(f, "},\"wall\":%.3f}\n", now() - start);
    if (json) fclose(f);
    (void)only_hits;
    return 0;
}
