#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
Ctx ctx;
void (*before_fork)() = nullptr;
void (*case_begin)(uint64_t) = nullptr;
void (*case_end)() = nullptr;

std::vector<Target>& targets() {
    static std::vector<Target> t;
    return t;
}

static const size_t MAX_CHOICES = 1 << 16, MAX_TRACE = 1 << 15;
enum { ST_RUNNING = 0, ST_OK = 1, ST_FAIL = 2, ST_DISCARD = 3, ST_DONE = 4 };
struct Shm {
    std::atomic<uint64_t> cur_case, start_ms, evals, status;
    uint64_t nchoices;
    uint64_t choices[MAX_CHOICES];
    uint64_t trace_len;
    char trace[MAX_TRACE];
    char msg[4096];
};
static Shm* shm = nullptr;
static std::map<std::string, uint64_t> labels, excluded;
static std::set<std::string> case_labels;

static uint64_t now_ms() {
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
static uint64_t hash_str(const char* s) {
    uint64_t h = 1469598103934665603ULL;
    while (*s) h = (h ^ (uint8_t) *s++) * 1099511628211ULL;
    return h;
}

uint64_t Src::rng() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
}
uint64_t Src::below(uint64_t n) {
    uint64_t v = 0;
    if (mode == RANDOM) {
        v = rng();
        if (n) v = (uint64_t) (((unsigned __int128) v * n) >> 64);
    } else if (mode == REPLAY) {
        if (pos < in_n) v = in[pos++];
        if (n && v >= n) v %= n;
    } else {
        unsigned nb = 8;
        if (n) {
            nb = 0;
            for (uint64_t m = n - 1; m; m >>= 8) nb++;
        }
        for (unsigned i = 0; i < nb && pos < raw_n; i++) v |= (uint64_t) raw[pos++] << (8 * i);
        if (n && v >= n) v %= n;
    }
    if (shm && shm->nchoices < MAX_CHOICES) shm->choices[shm->nchoices++] = v;
    ctx.hash = mix(ctx.hash ^ (v + 0x1234567));
    return v;
}
size_t Src::size(size_t lo, size_t hi) {
    size_t span = hi - lo;
    switch (below(4)) {
        case 0: return lo + below(std::min<size_t>(span, 4) + 1);
        case 1: return lo + below(std::min<size_t>(span, 40) + 1);
        case 2: return hi - below(std::min<size_t>(span, 4) + 1);
        default: return lo + below(span + 1);
    }
}
size_t Src::large() {
    static const size_t at[] = {255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 66000, 131071, 131072};
    return at[below(sizeof at / sizeof *at)] + below(20);
}
void Src::fill(void* p, size_t n) {
    uint8_t* q = (uint8_t*) p;
    uint64_t k = any();
    if (k == 0 || k == 1) {
        memset(q, k ? 0xff : 0, n);
        return;
    }
    uint64_t x = k, w = 0;
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) w = mix(x++);
        q[i] = (uint8_t) (w >> (8 * (i % 8)));
    }
}
Bytes Src::bytes(size_t n) {
    Bytes b(n);
    fill(b.data(), n);
    return b;
}
size_t Src::weighted(std::initializer_list<unsigned> w) {
    unsigned sum = 0;
    for (unsigned x : w) sum += x;
    uint64_t r = below(sum);
    size_t i = 0;
    for (unsigned x : w) {
        if (r < x) return i;
        r -= x;
        i++;
    }
    return 0;
}

void nontrivial() { ctx.nontrivial = true; }
bool known_finding(const char* id) {
    const char* e = getenv("SEC_KNOWN");
    return e && (" " + std::string(e) + " ").find(" " + std::string(id) + " ") != std::string::npos;
}
void label(const char* fmt, ...) {
    char b[200];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    if (case_labels.insert(b).second) labels[b]++;
}
void count_excluded(const char* f) { excluded[f]++; }
void trace(const char* fmt, ...) {
    if (!shm) return;
    va_list a;
    va_start(a, fmt);
    size_t room = MAX_TRACE - shm->trace_len;
    if (room > 2) {
        int n = vsnprintf(shm->trace + shm->trace_len, room - 1, fmt, a);
        if (n > 0) shm->trace_len += std::min<size_t>(n, room - 2);
        shm->trace[shm->trace_len++] = '\n';
    }
    va_end(a);
}
void fail(const char* fmt, ...) {
    char b[3000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    throw Failure{b};
}
void discard() { throw Discard{}; }
std::string hex(const void* p, size_t n, size_t max) {
    std::string r;
    char t[4];
    for (size_t i = 0; i < n && i < max; i++) {
        snprintf(t, sizeof t, "%02x", ((const uint8_t*) p)[i]);
        r += t;
    }
    if (n > max) r += "...";
    r += "(" + std::to_string(n) + ")";
    return r;
}

// ---- running one case in this process -------------------------------------------------------------------------
static int run_case(const Target& t, Src& src) {
    shm->nchoices = 0;
    shm->trace_len = 0;
    shm->msg[0] = 0;
    ctx = Ctx();
    case_labels.clear();
    shm->start_ms = now_ms();
    shm->status = ST_RUNNING;
    int st = ST_OK;
    std::string msg;
    try {
        uint64_t cs = src.any();
        if (case_begin) case_begin(cs);
        t.fn(src);
        if (case_end) case_end();
    } catch (Failure& f) {
        st = ST_FAIL;
        msg = f.msg;
    } catch (Discard&) {
        st = ST_DISCARD;
    }
    if (st == ST_FAIL) snprintf(shm->msg, sizeof shm->msg, "%s", msg.c_str());
    shm->trace[shm->trace_len] = 0;
    shm->status = st;
    return st;
}

static void seed_src(Src& s, uint64_t seed, const char* name, uint64_t idx) {
    s.mode = Src::RANDOM;
    uint64_t h = mix(mix(seed * 0x9e3779b97f4a7c15ULL + 77) ^ hash_str(name)) + idx * 0xd1342543de82ef95ULL;
    s.s[0] = mix(h);
    s.s[1] = mix(h + 1) | 1;
}

struct Outcome {
    bool failed = false, timeout = false;
    std::string msg, trace;
    std::vector<uint64_t> choices;
};

static void redirect_stderr(const char* path) {
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
}
static std::string read_tail(const std::string& p, size_t n) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    size_t at = s.find("ERROR: AddressSanitizer");
    if (at == std::string::npos) at = s.find("WARNING: ThreadSanitizer");
    if (at == std::string::npos) at = s.find("runtime error:");
    if (at != std::string::npos) return s.substr(at, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
}
static Shm* new_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    memset(p, 0, 4096);
    return (Shm*) p;
}
static std::string tmpdir;

static Outcome collect(Shm* m, int wst, bool timeout, const std::string& errfile) {
    Outcome o;
    o.choices.assign(m->choices, m->choices + m->nchoices);
    size_t tl = std::min<size_t>(m->trace_len, MAX_TRACE - 1);
    o.trace.assign(m->trace, tl);
    if (timeout) {
        o.failed = o.timeout = true;
        o.msg = "the case did not finish (hang or deadlock)";
    } else if (m->status == ST_FAIL) {
        o.failed = true;
        o.msg = m->msg;
    } else if (!(WIFEXITED(wst) && WEXITSTATUS(wst) == 0)) {
        o.failed = true;
        o.msg = WIFSIGNALED(wst) ? "process killed by signal " + std::to_string(WTERMSIG(wst))
                                 : "process ended with status " + std::to_string(WEXITSTATUS(wst));
        o.msg += "\n" + read_tail(errfile, 2500);
    }
    return o;
}

// Runs choices in a fresh process.
static Outcome run_fresh(const Target& t, const std::vector<uint64_t>& choices, unsigned timeout_s, uint64_t seed = 0,
        uint64_t lo = 0, uint64_t hi = 0, bool batch = false) {
    static Shm* m = new_shm();
    std::string err = tmpdir + "/fresh.err";
    m->status = ST_RUNNING;
    m->nchoices = 0;
    m->trace_len = 0;
    m->start_ms = now_ms();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        redirect_stderr(err.c_str());
        shm = m;
        if (!batch) {
            Src s;
            s.mode = Src::REPLAY;
            s.in = choices.data();
            s.in_n = choices.size();
            int st = run_case(t, s);
            _exit(st == ST_FAIL ? 3 : 0);
        }
        for (uint64_t i = lo; i < hi; i++) {
            Src s;
            seed_src(s, seed, t.name, i);
            shm->cur_case = i;
            if (run_case(t, s) == ST_FAIL) _exit(3);
        }
        _exit(0);
    }
    int wst = 0;
    bool timeout = false;
    for (unsigned spin = 0;; spin++) {
        pid_t r = waitpid(pid, &wst, WNOHANG);
        if (r == pid) break;
        uint64_t begun = m->start_ms;   // read before the clock: the worker moves it
        if (now_ms() > begun + timeout_s * 1000ULL) {
            timeout = true;
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &wst, 0);
            break;
        }
        usleep(spin < 200 ? 200 : 3000);
    }
    return collect(m, wst, timeout, err);
}

static Outcome run_some(const Target& t, const std::vector<uint64_t>& choices, unsigned timeout_s, unsigned attempts) {
    Outcome o;
    for (unsigned i = 0; i < attempts && !o.failed; i++) o = run_fresh(t, choices, timeout_s);
    return o;
}

static std::vector<uint64_t> shrink(const Target& t, std::vector<uint64_t> c, Outcome& best, unsigned budget_ms, unsigned& tries) {
    uint64_t end = now_ms() + budget_ms;
    unsigned to = best.timeout ? 10 : t.case_timeout_s;
    auto attempt = [&](const std::vector<uint64_t>& d) {
        if (now_ms() > end) return false;
        tries++;
        Outcome o = run_some(t, d, to, std::min(t.attempts, 6u));
        if (!o.failed || o.timeout != best.timeout) return false;
        // keep only what the case really consumed
        std::vector<uint64_t> used = o.choices;
        if (used.size() > d.size() || o.timeout) used = d;
        c = used;
        best = o;
        return true;
    };
    bool progress = true;
    while (progress && now_ms() < end) {
        progress = false;
        for (size_t k = c.size() / 2; k >= 1; k /= 2)
            while (c.size() > k) {
                std::vector<uint64_t> d(c.begin(), c.end() - k);
                size_t before = c.size();
                if (!attempt(d) || c.size() >= before) break;
                progress = true;
            }
        for (size_t k : {32, 8, 4, 3, 2, 1})
            for (size_t i = 1; i + k <= c.size() && now_ms() < end;) {
                std::vector<uint64_t> d(c);
                d.erase(d.begin() + i, d.begin() + i + k);
                size_t before = c.size();
                if (attempt(d) && c.size() < before)
                    progress = true;
                else
                    i += k;
            }
        for (size_t i = 0; i < c.size() && now_ms() < end; i++) {
            if (c[i] == 0) continue;
            std::vector<uint64_t> d(c);
            d[i] = 0;
            if (attempt(d)) {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = c[i];
            for (int n = 0; n < 12 && hi - lo > 1 && i < c.size(); n++) {
                uint64_t mid = lo + (hi - lo) / 2;
                d = c;
                d[i] = mid;
                if (attempt(d)) {
                    progress = true;
                    hi = mid;
                } else
                    lo = mid;
            }
        }
    }
    return c;
}

// ---- JSON ----------------------------------------------------------------------------------------------------
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        } else if (ch == '\n')
            r += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        } else
            r += ch;
    }
    return r + "\"";
}

struct Worker {
    pid_t pid = 0;
    Shm* m = nullptr;
    uint64_t lo = 0, hi = 0;
    std::string err, res;
    uint64_t evals_base = 0;
};

static void worker_main(const Target& t, Shm* m, uint64_t seed, uint64_t lo, uint64_t hi, const std::string& res,
        const std::string& err) {
    setpgid(0, 0);
    redirect_stderr(err.c_str());
    shm = m;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t nontriv = 0, disc = 0, evals = 0;
    for (uint64_t i = lo; i < hi; i++) {
        m->cur_case = i;
        Src s;
        seed_src(s, seed, t.name, i);
        int st = run_case(t, s);
        if (st == ST_FAIL) _exit(3);
        evals++;
        m->evals++;
        if (st == ST_DISCARD) {
            disc++;
            continue;
        }
        if (ctx.nontrivial) {
            nontriv++;
            distinct.insert(ctx.hash);
            if (samples.size() < 2) samples.push_back("case " + std::to_string(i) + ":\n" + std::string(m->trace, m->trace_len));
        }
    }
    FILE* f = fopen(res.c_str(), "w");
    if (f) {
        fprintf(f, "E %llu %llu %llu\n", (unsigned long long) evals, (unsigned long long) nontriv, (unsigned long long) disc);
        for (uint64_t h : distinct) fprintf(f, "H %llx\n", (unsigned long long) h);
        for (auto& l : labels) fprintf(f, "L %llu %s\n", (unsigned long long) l.second, l.first.c_str());
        for (auto& l : excluded) fprintf(f, "X %llu %s\n", (unsigned long long) l.second, l.first.c_str());
        for (auto& x : samples) fprintf(f, "S %s\n", jstr(x).c_str());
        fclose(f);
    }
    m->status = ST_DONE;
    _exit(0);
}

static std::vector<uint64_t> parse_choices(const std::string& file, std::string& target, uint64_t& seed, uint64_t& lo,
        uint64_t& hi) {
    std::ifstream f(file);
    std::string line;
    std::vector<uint64_t> c;
    lo = hi = 0;
    while (std::getline(f, line)) {
        std::stringstream ss(line);
        std::string k;
        ss >> k;
        if (k == "target")
            ss >> target;
        else if (k == "choices") {
            uint64_t v;
            while (ss >> v) c.push_back(v);
        } else if (k == "batch")
            ss >> seed >> lo >> hi;
    }
    return c;
}

static int main_run(int argc, char** argv) {
    std::string target, out = "/dev/null", replay_dir = ".", replay;
    uint64_t seed = 1, cases = 1000, cap_s = 120;
    unsigned shards = 8, shrink_ms = 45000;
    bool verbose = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--target") target = next();
        else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(next().c_str(), 0, 10);
        else if (a == "--cap") cap_s = strtoull(next().c_str(), 0, 10);
        else if (a == "--shards") shards = atoi(next().c_str());
        else if (a == "--shrink-ms") shrink_ms = atoi(next().c_str());
        else if (a == "--out") out = next();
        else if (a == "--replay-dir") replay_dir = next();
        else if (a == "--replay") replay = next();
        else if (a == "-v") verbose = true;
        else if (a == "--list") {
            for (auto& t : targets()) printf("%s\n", t.name);
            return 0;
        }
    }
    char td[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(td)) return 2;
    tmpdir = td;
    struct Cleanup {
        ~Cleanup() {
            std::string c = "/bin/rm -rf '" + tmpdir + "'";
            if (tmpdir.rfind("/tmp/pbt.", 0) == 0 && system(c.c_str())) {}
        }
    } cleanup;
    uint64_t blo = 0, bhi = 0, bseed = 0;
    std::vector<uint64_t> rchoices;
    if (!replay.empty()) rchoices = parse_choices(replay, target, bseed, blo, bhi);
    const Target* t = nullptr;
    for (auto& x : targets())
        if (target == x.name) t = &x;
    if (!t) {
        fprintf(stderr, "no target %s\n", target.c_str());
        return 2;
    }
    if (before_fork) before_fork();
    if (!replay.empty()) {
        Outcome o = bhi ? run_fresh(*t, {}, t->case_timeout_s, bseed, blo, bhi, true) : run_some(*t, rchoices, t->case_timeout_s, t->attempts * 2);
        printf("%s\n%s\n%s\n", o.trace.c_str(), o.failed ? "FAILED" : "passed", o.msg.c_str());
        return o.failed ? 1 : 0;
    }
    uint64_t t0 = now_ms();
    std::vector<Worker> ws(shards);
    for (unsigned i = 0; i < shards; i++) {
        ws[i].m = new_shm();
        ws[i].err = tmpdir + "/w" + std::to_string(i) + ".err";
        ws[i].res = tmpdir + "/w" + std::to_string(i) + ".res";
    }
    uint64_t next_case = 0, evals = 0, nontriv = 0, disc = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> lab, exc;
    std::vector<std::string> samples;
    std::vector<std::string> violations, notes;
    std::string vjson;
    bool stop = false, capped = false;
    unsigned unconfirmed = 0;
    auto absorb = [&](Worker& w) {
        std::ifstream f(w.res);
        std::string line;
        while (std::getline(f, line)) {
            if (line[0] == 'E') {
                unsigned long long a, b, c;
                sscanf(line.c_str(), "E %llu %llu %llu", &a, &b, &c);
                evals += a, nontriv += b, disc += c;
            } else if (line[0] == 'H')
                distinct.insert(strtoull(line.c_str() + 2, 0, 16));
            else if (line[0] == 'L' || line[0] == 'X') {
                char* e;
                unsigned long long n = strtoull(line.c_str() + 2, &e, 10);
                (line[0] == 'L' ? lab : exc)[e + 1] += n;
            } else if (line[0] == 'S' && samples.size() < 6)
                samples.push_back(line.substr(2));
        }
        unlink(w.res.c_str());
    };
    while (true) {
        bool active = false;
        if (!capped && now_ms() - t0 > cap_s * 1000) capped = true;
        for (auto& w : ws) {
            if (!w.pid) {
                if (stop || capped || next_case >= cases) continue;
                w.lo = next_case;
                w.hi = std::min<uint64_t>(cases, next_case + t->batch);
                next_case = w.hi;
                w.m->status = ST_RUNNING;
                w.m->start_ms = now_ms();
                fflush(stdout);
                w.pid = fork();
                if (w.pid == 0) worker_main(*t, w.m, seed, w.lo, w.hi, w.res, w.err);
                active = true;
                continue;
            }
            active = true;
            int wst = 0;
            bool ended = waitpid(w.pid, &wst, WNOHANG) == w.pid, timeout = false;
            uint64_t lim = (capped ? 1 : 1) * t->case_timeout_s * 1000ULL;
            uint64_t begun = w.m->start_ms;   // read before the clock: the worker moves it
            if (!ended && now_ms() > begun + lim) {
                if (getenv("PBT_STACKS")) {
                    std::string c = "gdb -p " + std::to_string(w.pid) + " -batch -ex 'thread apply all bt' >" + getenv("PBT_STACKS") + " 2>&1";
                    if (system(c.c_str())) {}
                }
                kill(-w.pid, SIGKILL);
                kill(w.pid, SIGKILL);
                waitpid(w.pid, &wst, 0);
                ended = timeout = true;
            }
            if (!ended) continue;
            w.pid = 0;
            if (!timeout && w.m->status == ST_DONE) {
                absorb(w);
                continue;
            }
            Outcome o = collect(w.m, wst, timeout, w.err);
            uint64_t idx = w.m->cur_case;
            if (!o.failed) o.failed = true, o.msg = "worker ended early";
            if (verbose) printf("candidate: case %llu: %s\n", (unsigned long long) idx, o.msg.c_str());
            if (stop) continue;
            // confirm in fresh processes
            int again = 0;
            Outcome last;
            if (t->attempts > 1) {
                last = run_some(*t, o.choices, t->case_timeout_s * (timeout ? 2 : 1), t->attempts);
                if (!last.failed && !timeout && ++unconfirmed >= 3) last = o;   // seen in three cases
                if (last.failed) again = 3;
            }
            for (int k = 0; k < 3 && t->attempts == 1; k++) {
                Outcome r = run_fresh(*t, o.choices, t->case_timeout_s * (timeout ? 2 : 1));
                if (r.failed) again++, last = r;
                if (k == 0 && !r.failed) break;
            }
            char rp[600];
            if (again == 3) {
                unsigned tries = 0;
                Outcome best = last;
                std::vector<uint64_t> c = shrink(*t, o.choices, best, timeout ? std::max(shrink_ms, 60000u) : shrink_ms, tries);
                snprintf(rp, sizeof rp, "%s/%s-%016llx.replay", replay_dir.c_str(), t->name,
                        (unsigned long long) mix(hash_str(best.msg.substr(0, 60).c_str()) + c.size()));
                FILE* f = fopen(rp, "w");
                if (f) {
                    fprintf(f, "target %s\nfound seed %llu case %llu, shrunk from %zu to %zu choices in %u runs\nchoices", t->name,
                            (unsigned long long) seed, (unsigned long long) idx, o.choices.size(), c.size(), tries);
                    for (uint64_t v : c) fprintf(f, " %llu", (unsigned long long) v);
                    fprintf(f, "\n--- message ---\n%s\n--- trace ---\n%s\n", best.msg.c_str(), best.trace.c_str());
                    fclose(f);
                }
                violations.push_back(rp);
                vjson += (vjson.empty() ? "" : ",") + std::string("{\"replay\":") + jstr(rp) + ",\"message\":" + jstr(best.msg.substr(0, 1500)) +
                         ",\"trace\":" + jstr(best.trace.substr(0, 3000)) + "}";
                printf("FAIL target=%s case=%llu replay=%s\n%s\n--- trace (shrunk)\n%s\n", t->name, (unsigned long long) idx, rp,
                        best.msg.c_str(), best.trace.c_str());
                stop = true;
            } else {
                // maybe it needs the cases before it in the same process
                int bagain = 0;
                for (int k = 0; k < 2 && t->attempts == 1; k++) {
                    Outcome r = run_fresh(*t, {}, t->case_timeout_s, seed, w.lo, idx + 1, true);
                    if (r.failed) bagain++, last = r;
                }
                if (bagain == 2) {
                    snprintf(rp, sizeof rp, "%s/%s-batch-%llu-%llu.replay", replay_dir.c_str(), t->name, (unsigned long long) w.lo,
                            (unsigned long long) idx);
                    FILE* f = fopen(rp, "w");
                    if (f) {
                        fprintf(f, "target %s\nbatch %llu %llu %llu\n--- message ---\n%s\n--- trace of the failing case ---\n%s\n", t->name,
                                (unsigned long long) seed, (unsigned long long) w.lo, (unsigned long long) (idx + 1), last.msg.c_str(),
                                last.trace.c_str());
                        fclose(f);
                    }
                    violations.push_back(rp);
                    vjson += (vjson.empty() ? "" : ",") + std::string("{\"replay\":") + jstr(rp) + ",\"message\":" +
                             jstr(last.msg.substr(0, 1500)) + "}";
                    printf("FAIL (batch) target=%s replay=%s\n%s\n%s\n", t->name, rp, last.msg.c_str(), last.trace.c_str());
                    stop = true;
                } else {
                    notes.push_back("case " + std::to_string(idx) + " failed once and did not reproduce: " + o.msg.substr(0, 300));
                    printf("NOTE unreproduced target=%s case=%llu: %s\n", t->name, (unsigned long long) idx, o.msg.substr(0, 600).c_str());
                    if (notes.size() > 20) stop = true;
                }
            }
        }
        if (!active) break;
        usleep(1000);
    }
    FILE* f = fopen(out.c_str(), "w");
    if (f) {
        fprintf(f, "{\"target\":\"%s\",\"rule\":%s,\"seed\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,"
                   "\"discarded\":%llu,\"wall_s\":%.2f,\"capped\":%s,",
                t->name, jstr(t->rule).c_str(), (unsigned long long) seed, (unsigned long long) evals, (unsigned long long) nontriv,
                distinct.size(), (unsigned long long) disc, (now_ms() - t0) / 1000.0, capped ? "true" : "false");
        fprintf(f, "\"labels\":{");
        bool first = true;
        for (auto& l : lab) fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(l.first).c_str(), (unsigned long long) l.second), first = false;
        fprintf(f, "},\"excluded\":{");
        first = true;
        for (auto& l : exc) fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(l.first).c_str(), (unsigned long long) l.second), first = false;
        fprintf(f, "},\"samples\":[");
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", samples[i].c_str());
        fprintf(f, "],\"notes\":[");
        for (size_t i = 0; i < notes.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(notes[i]).c_str());
        fprintf(f, "],\"violations\":[%s]}\n", vjson.c_str());
        fclose(f);
    }
    printf("%s: %llu cases, %llu non-trivial (%zu distinct), %llu discarded, %.1fs%s\n", t->name, (unsigned long long) evals,
            (unsigned long long) nontriv, distinct.size(), (unsigned long long) disc, (now_ms() - t0) / 1000.0, capped ? " (time cap)" : "");
    return violations.empty() ? 0 : 1;
}
}  // namespace pbt

#ifdef PBT_LIBFUZZER
static const pbt::Target* fuzz_target() {
    const char* n = getenv("PBT_TARGET");
    for (auto& x : pbt::targets())
        if (n && !strcmp(n, x.name)) return &x;
    fprintf(stderr, "set PBT_TARGET\n");
    exit(2);
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    static const pbt::Target* t = nullptr;
    if (!t) {
        t = fuzz_target();
        pbt::tmpdir = "/tmp";
        pbt::shm = pbt::new_shm();
        if (pbt::before_fork) pbt::before_fork();
    }
    pbt::Src s;
    s.mode = pbt::Src::BYTES;
    s.raw = data;
    s.raw_n = size;
    if (pbt::run_case(*t, s) == pbt::ST_FAIL) {
        fprintf(stderr, "PROPERTY FAILED: %s\n%s\n", pbt::shm->msg, pbt::shm->trace);
        FILE* f = getenv("PBT_FAILFILE") ? fopen(getenv("PBT_FAILFILE"), "w") : nullptr;
        if (f) {
            fprintf(f, "target %s\nchoices", t->name);
            for (uint64_t i = 0; i < pbt::shm->nchoices; i++) fprintf(f, " %llu", (unsigned long long) pbt::shm->choices[i]);
            fprintf(f, "\n--- message ---\n%s\n", pbt::shm->msg);
            fclose(f);
        }
        abort();
    }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_run(argc, argv); }
#endif
