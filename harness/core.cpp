// Driver: runs this worker's share of the cases, each in a forked child, so
// that a crash, sanitizer report or exit() of the code under test ends one
// case only and is recorded with the operation that was under way.
#include "core.h"
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

Shared *SH;

void count(const char *name, long long n)
{
    for (int i = 0; i < SH->n_cnt; ++i)
        if (!strcmp(SH->cnt[i].name, name)) { SH->cnt[i].v += n; return; }
    if (SH->n_cnt < 160) {
        snprintf(SH->cnt[SH->n_cnt].name, sizeof SH->cnt[0].name, "%s", name);
        SH->cnt[SH->n_cnt++].v = n;
    }
}
void distinct(uint64_t h)
{
    if (SH->n_hash < 4096) SH->hash[SH->n_hash++] = h;
}
void sample(const char *f, ...)
{
    if (SH->n_sample >= 3) return;
    va_list a; va_start(a, f);
    vsnprintf(SH->sample[SH->n_sample++], sizeof SH->sample[0], f, a);
    va_end(a);
}
void stage(const char *f, ...)
{
    va_list a; va_start(a, f);
    vsnprintf(SH->stage, sizeof SH->stage, f, a);
    va_end(a);
}
void viol(const char *key, const char *f, ...)
{
    if (SH->n_viol >= 12) return;
    auto &v = SH->viol[SH->n_viol];
    snprintf(v.key, sizeof v.key, "%s", key);
    va_list a; va_start(a, f);
    vsnprintf(v.msg, sizeof v.msg, f, a);
    va_end(a);
    SH->n_viol++;
}
std::string fmt(const char *f, ...)
{
    char b[4096];
    va_list a; va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
std::string num(double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}

static std::string jesc(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string tail(const std::string &path, size_t n = 3000)
{
    FILE *f = fopen(path.c_str(), "rb");
    if (!f) return "";
    std::string s; char b[4096]; size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0 && s.size() < 4000000) s.append(b, k);
    fclose(f);
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.find("runtime error:");
    if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos) p = s.find("ERROR: LeakSanitizer");
    for (const char *w : { "== Conditional jump", "== Use of uninit", "== Invalid read", "== Invalid write", "== Syscall param", "== Invalid free", "== Mismatched free" })
        if (p == std::string::npos) p = s.find(w);
    if (p != std::string::npos) { p = p > 200 ? p - 200 : 0; return s.substr(p, n); }
    return s.size() > n ? s.substr(s.size() - n) : s;
}

int main(int argc, char **argv)
{
    uint64_t seed = 1;
    int worker = 0, workers = 1, only = -1, limit = -1;
    bool thorough = false, verbose = false, nofork = false;
    int cpu = 40;
    std::string out = "/dev/stdout", tmp = "/tmp";
    const char *salt = "x";
    std::string stop;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return argv[++i]; };
        if (a == "--seed") seed = strtoull(nx(), 0, 10);
        else if (a == "--worker") worker = atoi(nx());
        else if (a == "--workers") workers = atoi(nx());
        else if (a == "--case") only = atoi(nx());
        else if (a == "--limit") limit = atoi(nx());
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
        else if (a == "--nofork") nofork = true;
        else if (a == "--cpu") cpu = atoi(nx());
        else if (a == "--out") out = nx();
        else if (a == "--tmp") tmp = nx();
        else if (a == "--salt") salt = nx();
        else if (a == "--stop") stop = nx();
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 3; }
    }
    if (thorough) cpu *= 5;
    uint64_t hs = 7;
    for (const char *p = salt; *p; ++p) hs = mix64(hs ^ (unsigned char) *p);
    SH = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const int n = limit > 0 ? limit : n_cases(thorough);
    long long evals = 0;
    std::map<std::string, long long> cnt;
    std::set<uint64_t> hashes;
    std::vector<std::string> samples;
    struct V { int idx; std::string key, msg; };
    std::vector<V> viols;
    std::string log = tmp + "/log." + std::to_string(worker);
    std::string scratch = tmp + "/w" + std::to_string(worker);
    mkdir(scratch.c_str(), 0700);
    int inconclusive = 0;
    for (int idx = (only >= 0 ? only : worker); idx < n || only >= 0; idx += workers) {
        // another worker has found a violation
        if (!stop.empty() && access(stop.c_str(), F_OK) == 0) break;
        Ctx c;
        c.idx = idx;
        c.seed = mix64(mix64(seed ^ hs) + (uint64_t) idx * 0x9e3779b97f4a7c15ULL);
        c.rng = Rng(c.seed);
        c.thorough = thorough;
        c.verbose = verbose;
        c.tmp = scratch;
        if (nofork) {
            run_case(c);
            for (int i = 0; i < SH->n_viol; ++i)
                printf("VIOL %s: %s\n", SH->viol[i].key, SH->viol[i].msg);
            for (int i = 0; i < SH->n_cnt; ++i)
                printf("CNT %s %lld\n", SH->cnt[i].name, SH->cnt[i].v);
            return SH->n_viol ? 1 : 0;
        }
        int attempts = 0;
    again:
        memset(SH, 0, sizeof *SH);
        fflush(stdout);
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 3; }
        if (p == 0) {
            if (!verbose) {
                int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
                dup2(fd, 1); dup2(fd, 2);
                close(fd);
            }
            struct rlimit rl = { (rlim_t) cpu, (rlim_t) cpu + 5 };
            setrlimit(RLIMIT_CPU, &rl);
            alarm(2 * cpu + 60);
#ifdef LIMIT_MEM
            struct rlimit rm = { 6ULL << 30, 6ULL << 30 };
            setrlimit(RLIMIT_AS, &rm);
#endif
            struct rlimit rc = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rc);
            run_case(c);
            SH->done = 1;
            fflush(0);
            _exit(SH->n_viol ? 1 : 0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) {}
        ++evals;
        if (!SH->done) {
            std::string how, key;
            if (WIFSIGNALED(st)) {
                int sg = WTERMSIG(st);
                if (sg == SIGXCPU || sg == SIGALRM || (sg == SIGKILL && attempts == 0)) {
                    // a hang is believed only if it repeats; SIGKILL can also
                    // be the memory limit of the machine
                    if (attempts++ == 0) { --evals; goto again; }
                    key = "hang"; how = sg == SIGALRM ? "no end within the time limit (twice)" : "no end within the CPU limit (twice)";
                } else if (sg == SIGKILL) { ++inconclusive; continue; }
                else { key = "crash"; how = fmt("killed by signal %d", sg); }
            } else {
                key = WEXITSTATUS(st) == 99 ? "sanitizer" : "exit";
                how = fmt("process ended with status %d", WEXITSTATUS(st));
            }
            if (viols.size() < 6 || SH->n_viol == 0)
                viols.push_back({ idx, key, how + " during: " + SH->stage + "\n" + tail(log) });
        }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) // a report that did not end the run
            viols.push_back({ idx, "sanitizer", std::string("reported during: ") + SH->stage + "\n" + tail(log) });
        for (int i = 0; i < SH->n_viol; ++i)
            viols.push_back({ idx, SH->viol[i].key, SH->viol[i].msg });
        for (int i = 0; i < SH->n_cnt; ++i) cnt[SH->cnt[i].name] += SH->cnt[i].v;
        for (int i = 0; i < SH->n_hash; ++i) hashes.insert(SH->hash[i]);
        for (int i = 0; i < SH->n_sample && samples.size() < 2; ++i)
            samples.push_back(SH->sample[i]);
        if (only >= 0) break;
        if (!viols.empty() && !stop.empty()) {
            FILE *sf = fopen(stop.c_str(), "w");
            if (sf) fclose(sf);
            break;
        }
        if (viols.size() >= 40 || (!viols.empty() && viols.back().key == "hang")) break;
    }
    FILE *o = fopen(out.c_str(), "w");
    if (!o) { perror("out"); return 3; }
    fprintf(o, "{\"evaluations\":%lld,\"inconclusive\":%d,\"counters\":{", evals, inconclusive);
    bool f = true;
    for (auto &k : cnt) { fprintf(o, "%s%s:%lld", f ? "" : ",", jesc(k.first).c_str(), k.second); f = false; }
    fprintf(o, "},\"hashes\":[");
    f = true;
    for (auto h : hashes) { fprintf(o, "%s\"%" PRIx64 "\"", f ? "" : ",", h); f = false; }
    fprintf(o, "],\"samples\":[");
    f = true;
    for (auto &s : samples) { fprintf(o, "%s%s", f ? "" : ",", jesc(s).c_str()); f = false; }
    fprintf(o, "],\"violations\":[");
    f = true;
    for (auto &v : viols) {
        fprintf(o, "%s{\"case\":%d,\"key\":%s,\"msg\":%s}", f ? "" : ",", v.idx,
                jesc(v.key).c_str(), jesc(v.msg).c_str());
        f = false;
    }
    fprintf(o, "]}\n");
    fclose(o);
    return 0;
}
