#include "engine.hpp"
#include "guided.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

std::vector<Sub>& registry() {
    static std::vector<Sub> r;
    return r;
}
__attribute__((weak)) void warmup();
__attribute__((weak)) void main_hook(); // called first thing in main

std::string hex(const uint8_t* p, size_t n) {
    static const char* d = "0123456789abcdef";
    std::string s;
    bool cut = n > 600;
    size_t m = cut ? 600 : n;
    for (size_t i = 0; i < m; i++) {
        s += d[p[i] >> 4];
        s += d[p[i] & 15];
    }
    if (cut) s += "...(" + std::to_string(n) + " bytes)";
    return s;
}

namespace {

constexpr int CPU_LIMIT_S = 45; // per case; normal cases take well under a second
struct Shm {
    volatile uint64_t sub, idx, n, failed, executed;
    char msg[8192];
    char notes[32768];
    uint64_t choices[Gen::MAX_CHOICES];
};

struct Options {
    std::string tier = "quick", config = "default", out, replaydir = ".", replay, only, skip; // skip: ",name,name,"
    uint64_t seed = 1;
    unsigned jobs = 8;
    double scale = 1.0;
    uint64_t salt = 0;
};

uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
    return mix64(h);
}
uint64_t case_seed(const Options& o, const Sub& s, uint64_t idx) {
    return mix64(mix64(mix64(o.seed * 0x9E37ull + 77) ^ hash_str(s.name)) ^ hash_str(o.config)) ^ mix64(idx * 3 + 1);
}
uint64_t cases_of(const Options& o, const Sub& s) {
    uint64_t n = o.tier == "thorough" ? s.thorough : s.quick;
    if (!o.skip.empty() && o.skip.find("," + std::string(s.name) + ",") != std::string::npos) return 0;
    if (n == 0) return 0;
    double m = double(n) * o.scale;
    return m < 1 ? 1 : uint64_t(m);
}
void arm(int sec) {
    struct itimerval it = {};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}
} // namespace
void extend_cpu(int sec) { arm(sec); }
namespace {
std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

// runs a case in this process; returns true when it holds
enum Result { OK, DISCARD, FAIL };
Result run_case(const Sub& s, Gen& g, Ctx& c, std::string& msg) {
    try {
        s.fn(g, c);
        return OK;
    } catch (const Violation& v) {
        msg = v.msg;
        return FAIL;
    } catch (const Discard&) {
        return DISCARD;
    } catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        return FAIL;
    } catch (...) {
        msg = "unexpected non-standard exception";
        return FAIL;
    }
}

struct SubStat {
    uint64_t evals = 0, nontriv = 0, discards = 0;
    std::map<std::string, uint64_t> labels;
};
struct Sample { uint32_t sub; std::string text; };

void put(FILE* f, const void* p, size_t n) { if (fwrite(p, 1, n, f) != n) _exit(77); }
void puts_(FILE* f, const std::string& s) { uint64_t n = s.size(); put(f, &n, 8); put(f, s.data(), n); }
std::string gets_(FILE* f) {
    uint64_t n = 0;
    if (fread(&n, 1, 8, f) != 8) return {};
    std::string s(n, 0);
    if (n && fread(&s[0], 1, n, f) != n) return {};
    return s;
}

void set_msg(Shm* m, const std::string& s) {
    strncpy(m->msg, s.c_str(), sizeof m->msg - 1);
    m->msg[sizeof m->msg - 1] = 0;
}

// runs one case of a worker and books it; false when it failed
struct Book {
    std::vector<SubStat> st;
    std::vector<uint64_t> hashes;
    std::vector<Sample> samples;
};
Result book_case(const Options& o, size_t si, uint64_t i, Gen& g, Shm* shm, Book* bk, bool want_notes, std::string& msg) {
    const Sub& s = registry()[si];
    arm(CPU_LIMIT_S);
    shm->sub = si;
    shm->idx = i;
    shm->n = 0;
    g.attach(shm->choices, Gen::MAX_CHOICES, &shm->n);
    Ctx c;
    if (bk) c.labels = &bk->st[si].labels;
    c.thorough = o.tier == "thorough";
    c.config = o.config;
    c.index = i;
    c.want_notes = want_notes;
    Result r = run_case(s, g, c, msg);
    shm->executed = shm->executed + 1;
    if (r == FAIL || !bk) return r;
    auto& st = bk->st[si];
    st.evals++;
    if (r == DISCARD) { st.discards++; return r; }
    if (c.nontriv) {
        st.nontriv++;
        uint64_t h = hash_str(s.name) ^ hash_str(o.config);
        const uint64_t* d = g.data();
        for (size_t q = 0; q < g.size(); q++) h = mix64(h ^ d[q]) + q;
        bk->hashes.push_back(h);
        if (c.want_notes && !c.notes.empty()) bk->samples.push_back({uint32_t(si), c.notes.substr(0, 1500)});
    }
    return r;
}
void fail_here(Shm* shm, const std::string& msg) {
    set_msg(shm, msg);
    shm->failed = 1;
    _exit(10);
}

// Every fourth case of a worker is a relation of the one before it: the same choices, one or two of them changed (or none).
// A result that was kept under too short a key, or state left behind, shows between such neighbours.
bool kin_at(const Options& o, uint64_t i) { return (i / o.jobs) % 4 == 3; }
Gen case_gen(const Options& o, const Sub& s, uint64_t i, const std::vector<uint64_t>& prev) {
    uint64_t sd = case_seed(o, s, i);
    if (!kin_at(o, i) || prev.empty()) return Gen(sd);
    std::vector<uint64_t> v = prev;
    Gen m = Gen::derived(mix64(sd ^ 0x4B1Full));
    for (uint64_t k = m.below(8) == 0 ? 0 : 1 + m.below(2); k--;) {
        size_t at = m.below(v.size());
        switch (m.below(5)) {
        case 0: v[at] ^= 1ull << m.below(64); break;
        case 1: v[at] += m.flip() ? 1 : ~0ull; break;
        case 2: v[at] = m.below(64); break;
        default: v[at] = m.raw(); break;
        }
    }
    return Gen(v, sd);
}
void keep_choices(const Options& o, uint64_t i, const Gen& g, std::vector<uint64_t>& prev) {
    if ((i / o.jobs) % 4 != 2) return;
    prev.assign(g.data(), g.data() + g.size());
}

// Coverage-guided search over choice lists. Deterministic for a given worker, seed and library; stops after case `upto`.
void guided(const Options& o, size_t si, unsigned w, uint64_t upto, Shm* shm, Book* bk) {
    const Sub& s = registry()[si];
    uint64_t n = cases_of(o, s);
    std::vector<std::vector<uint64_t>> corpus, queue;
    cov::reset();
    Gen m = Gen::derived(case_seed(o, s, 0xC0FFEE00 + w)); // decides the mutations
    uint64_t found = 0;
    unsigned taken = 0;
    for (uint64_t i = w; i < n && i <= upto; i += o.jobs) {
        uint64_t sd = case_seed(o, s, i);
        std::vector<uint64_t> base;
        bool queued = !queue.empty(), fresh = !queued && (corpus.empty() || m.below(8) == 0);
        if (queued) {
            base = std::move(queue.back());
            queue.pop_back();
        } else if (!fresh) {
            size_t k = corpus.size();
            base = corpus[m.flip() ? k - 1 - m.below(std::min<size_t>(k, 16)) : m.below(k)];
            cov::mutate(base, m, corpus);
        }
        Gen g = fresh ? Gen(sd) : Gen(base, sd);
        std::string msg;
        cov::begin();
        Result r = book_case(o, si, i, g, shm, bk, taken < 1 && w < 4, msg);
        bool news = cov::end();
        if (r == FAIL) fail_here(shm, msg);
        if (bk && !bk->samples.empty() && bk->samples.back().sub == si) taken = 1;
        if (r == OK && g.size() < 5000) cov::substitutes(g.data(), g.size(), queue);
        if (r == OK && news && g.size() < 20000 && corpus.size() < 4000) {
            corpus.emplace_back(g.data(), g.data() + g.size());
            found++;
        }
    }
    if (bk && found) bk->st[si].labels["guided: cases with new coverage"] += found;
}

[[noreturn]] void worker(const Options& o, unsigned w, Shm* shm, const std::string& outfile) {
    auto& subs = registry();
    Book bk;
    bk.st.resize(subs.size());
    for (size_t si = 0; si < subs.size(); si++) {
        const Sub& s = subs[si];
        if (!o.only.empty() && o.only != s.name) continue;
        if (cov::active()) { guided(o, si, w, ~0ull, shm, &bk); continue; }
        uint64_t n = cases_of(o, s);
        size_t had = bk.samples.size();
        std::vector<uint64_t> prev;
        for (uint64_t i = w; i < n; i += o.jobs) {
            Gen g = case_gen(o, s, i, prev);
            std::string msg;
            if (book_case(o, si, i, g, shm, &bk, bk.samples.size() == had && w < 4, msg) == FAIL) fail_here(shm, msg);
            keep_choices(o, i, g, prev);
        }
    }
    arm(0);
    FILE* f = fopen(outfile.c_str(), "wb");
    if (!f) _exit(78);
    for (auto& s : bk.st) {
        put(f, &s.evals, 8); put(f, &s.nontriv, 8); put(f, &s.discards, 8);
        uint64_t nl = s.labels.size();
        put(f, &nl, 8);
        for (auto& [k, v] : s.labels) { puts_(f, k); put(f, &v, 8); }
    }
    uint64_t ns = bk.samples.size();
    put(f, &ns, 8);
    for (auto& s : bk.samples) { put(f, &s.sub, 4); puts_(f, s.text); }
    uint64_t nh = bk.hashes.size();
    put(f, &nh, 8);
    put(f, bk.hashes.data(), nh * 8);
    fclose(f);
    fflush(stdout);
    exit(0); // run atexit handlers (leak detection where enabled)
}

struct Outcome {
    bool fail = false;
    std::string msg, notes;
    std::vector<uint64_t> used;
    bool hang = false;
};

Shm* new_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shm*)p;
}

std::string describe_status(int st) {
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGPROF) return "did not terminate within " + std::to_string(CPU_LIMIT_S) + " CPU seconds";
        return std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
    }
    return "process ended with exit status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or abnormal exit)";
}

// a forked attempt with the given body
template<class Fn> Outcome forked(Fn&& body, bool quiet) {
    static Shm* shm = nullptr;
    if (!shm) shm = new_shm();
    shm->n = 0; shm->failed = 0; shm->msg[0] = 0; shm->notes[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); } }
        arm(CPU_LIMIT_S);
        body(shm);
        exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.used.assign(shm->choices, shm->choices + shm->n);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { // memory guard or operator, not the code under test
        o.msg = "killed";
        return o;
    }
    o.fail = true;
    o.notes = shm->notes;
    if (shm->failed) o.msg = shm->msg;
    else o.msg = describe_status(st);
    o.hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
    return o;
}

void run_in_child(const Options& o, const Sub& s, Gen& g, Shm* shm, uint64_t idx, bool notes) {
    g.attach(shm->choices, Gen::MAX_CHOICES, &shm->n);
    Ctx c;
    c.thorough = o.tier == "thorough";
    c.config = o.config;
    c.index = idx;
    c.want_notes = notes;
    std::string msg;
    Result r = run_case(s, g, c, msg);
    if (notes) { strncpy(shm->notes, c.notes.c_str(), sizeof shm->notes - 1); }
    if (r == FAIL) {
        set_msg(shm, msg);
        shm->failed = 1;
        _exit(10);
    }
}

Outcome try_choices(const Options& o, const Sub& s, const std::vector<uint64_t>& ch, bool quiet = true, bool notes = false) {
    return forked([&](Shm* shm) {
        Gen g(ch);
        run_in_child(o, s, g, shm, 0, notes);
    }, quiet);
}

// re-executes cases of one worker in order: from (sub a, idx i) on
struct Window { uint64_t sub0, first, sub1, last, step, worker; };
Outcome try_window(const Options& o, const Window& w, bool quiet = true) {
    return forked([&](Shm* shm) {
        auto& subs = registry();
        for (uint64_t si = w.sub0; si <= w.sub1; si++) {
            uint64_t n = cases_of(o, subs[si]);
            if (!o.only.empty() && o.only != subs[si].name) continue;
            uint64_t from = si == w.sub0 ? w.first : w.worker;
            uint64_t to = si == w.sub1 ? w.last : (n ? n - 1 : 0);
            if (!n) continue;
            std::vector<uint64_t> prev;
            if (!cov::active() && kin_at(o, from) && from >= o.jobs) from -= o.jobs; // it is made from the case before
            if (cov::active()) { // a guided search only repeats from its beginning
                guided(o, si, w.worker, si == w.sub1 ? w.last : ~0ull, shm, nullptr);
                continue;
            }
            for (uint64_t i = from; i <= to && i < n; i += w.step) {
                arm(CPU_LIMIT_S);
                shm->n = 0;
                Gen g = case_gen(o, subs[si], i, prev);
                run_in_child(o, subs[si], g, shm, i, false);
                keep_choices(o, i, g, prev);
            }
        }
    }, quiet);
}

using Clock = std::chrono::steady_clock;

std::vector<uint64_t> shrink(const Options& o, const Sub& s, std::vector<uint64_t> best, std::string& msg) {
    auto t0 = Clock::now();
    unsigned attempts = 0;
    auto budget = [&] { return attempts < 3000 && Clock::now() - t0 < std::chrono::seconds(60); };
    auto attempt = [&](const std::vector<uint64_t>& c) {
        attempts++;
        Outcome r = try_choices(o, s, c);
        if (r.fail && !r.hang) {
            if (r.used.size() < best.size() || (r.used.size() == best.size() && r.used < best)) {
                best = r.used;
                msg = r.msg;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && budget()) {
        progress = false;
        for (size_t chunk : {256, 64, 16, 8, 4, 2, 1}) {
            for (size_t i = 0; i + chunk <= best.size() && budget();) {
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + chunk);
                if (attempt(c)) progress = true;
                else i += chunk;
            }
        }
        for (size_t chunk : {64, 16, 4, 1}) {
            for (size_t i = 0; i + chunk <= best.size() && budget(); i += chunk) {
                auto c = best;
                bool any = false;
                for (size_t k = i; k < i + chunk; k++) { any |= c[k] != 0; c[k] = 0; }
                if (any && attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < best.size() && budget(); i++) {
            uint64_t lo = 0;
            while (i < best.size() && best[i] > lo && budget()) {
                uint64_t mid = lo + (best[i] - lo) / 2;
                auto c = best;
                c[i] = mid;
                uint64_t before = best[i];
                if (attempt(c)) { progress = true; if (i < best.size() && best[i] >= before) break; }
                else lo = mid + 1;
            }
        }
    }
    return best;
}

std::string join(const std::vector<uint64_t>& v) {
    std::string s;
    char b[32];
    for (auto x : v) { snprintf(b, sizeof b, "%llx ", (unsigned long long)x); s += b; }
    return s;
}

std::string write_replay(const Options& o, const std::string& kind, const Sub& s, const std::string& body, const std::string& msg, const std::string& notes) {
    mkdir(o.replaydir.c_str(), 0755);
    std::string path = o.replaydir + "/" + property_id() + "-" + o.config + "-" + s.name + ".replay";
    std::ofstream f(path);
    f << "property " << property_id() << "\nconfig " << o.config << "\ntier " << o.tier << "\nseed " << o.seed
      << "\njobs " << o.jobs << "\nscale " << o.scale << "\nsub " << s.name << "\nkind " << kind << "\n" << body << "\n";
    auto comment = [&](const char* tag, const std::string& t) {
        std::istringstream is(t);
        std::string l;
        while (std::getline(is, l)) f << "# " << tag << ": " << l << "\n";
    };
    comment("message", msg);
    comment("case", notes);
    return path;
}

int do_replay(Options& o) {
    std::ifstream f(o.replay);
    std::string line, sub, kind;
    std::vector<uint64_t> ch;
    Window w{};
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "sub") is >> sub;
        else if (k == "kind") is >> kind;
        else if (k == "tier") is >> o.tier;
        else if (k == "seed") is >> o.seed;
        else if (k == "jobs") is >> o.jobs;
        else if (k == "scale") is >> o.scale;
        else if (k == "config") is >> o.config;
        else if (k == "choices") { std::string x; while (is >> x) ch.push_back(strtoull(x.c_str(), nullptr, 16)); }
        else if (k == "window") is >> w.sub0 >> w.first >> w.sub1 >> w.last >> w.step >> w.worker;
    }
    for (auto& s : registry()) {
        if (sub != s.name) continue;
        Outcome r = kind == "window" ? try_window(o, w, false) : try_choices(o, s, ch, false, true);
        if (r.fail) {
            printf("replay fails: %s\n", r.msg.c_str());
            if (!r.notes.empty()) printf("case: %s\n", r.notes.c_str());
            return 1;
        }
        printf("replay passes\n");
        return 0;
    }
    fprintf(stderr, "unknown sub-check %s\n", sub.c_str());
    return 3;
}

} // namespace

int engine_main(int argc, char** argv) {
    Options o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--jobs") o.jobs = atoi(val().c_str());
        else if (a == "--config") o.config = val();
        else if (a == "--out") o.out = val();
        else if (a == "--replaydir") o.replaydir = val();
        else if (a == "--replay") o.replay = val();
        else if (a == "--only") o.only = val();
        else if (a == "--skip") o.skip = "," + val() + ",";
        else if (a == "--scale") o.scale = atof(val().c_str());
        else if (a == "--list") { for (auto& s : registry()) printf("%s %llu %llu\n", s.name, (unsigned long long)s.quick, (unsigned long long)s.thorough); return 0; }
    }
    if (warmup) warmup();
    if (!o.replay.empty()) return do_replay(o);
    auto t0 = Clock::now();
    auto& subs = registry();
    std::vector<Shm*> shms;
    std::vector<pid_t> pids;
    std::vector<std::string> files;
    std::string base = o.out.empty() ? std::string("/tmp/pbt") : o.out;
    for (unsigned w = 0; w < o.jobs; w++) {
        shms.push_back(new_shm());
        files.push_back(base + ".w" + std::to_string(w) + "." + std::to_string(getpid()));
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) worker(o, w, shms[w], files[w]);
        pids.push_back(pid);
    }
    int failing = -1, failstatus = 0;
    bool infra = false;
    unsigned left = o.jobs;
    while (left) {
        int st = 0;
        pid_t p = wait(&st);
        if (p < 0) break;
        for (unsigned w = 0; w < o.jobs; w++) {
            if (pids[w] != p) continue;
            pids[w] = 0;
            left--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) infra = true;
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { if (failing < 0) infra = true; }
            else if (failing < 0) {
                failing = w;
                failstatus = st;
                for (auto q : pids) if (q) kill(q, SIGKILL);
            }
            break;
        }
    }
    std::vector<SubStat> tot(subs.size());
    std::vector<uint64_t> hashes;
    std::vector<Sample> samples;
    uint64_t executed = 0;
    for (unsigned w = 0; w < o.jobs; w++) {
        executed += shms[w]->executed;
        FILE* f = fopen(files[w].c_str(), "rb");
        if (!f) continue;
        for (auto& t : tot) {
            uint64_t a[4];
            if (fread(a, 8, 4, f) != 4) break;
            t.evals += a[0]; t.nontriv += a[1]; t.discards += a[2];
            for (uint64_t k = 0; k < a[3]; k++) {
                std::string l = gets_(f);
                uint64_t v = 0;
                if (fread(&v, 8, 1, f) != 1) break;
                t.labels[l] += v;
            }
        }
        uint64_t ns = 0;
        if (fread(&ns, 8, 1, f) != 1) ns = 0;
        for (uint64_t k = 0; k < ns; k++) {
            Sample s;
            if (fread(&s.sub, 4, 1, f) != 1) break;
            s.text = gets_(f);
            samples.push_back(s);
        }
        uint64_t nh = 0;
        if (fread(&nh, 8, 1, f) == 1) {
            size_t at = hashes.size();
            hashes.resize(at + nh);
            if (nh && fread(&hashes[at], 8, nh, f) != nh) hashes.resize(at);
        }
        fclose(f);
        unlink(files[w].c_str());
    }
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());

    std::string violation, replay;
    if (failing >= 0) {
        Shm* m = shms[failing];
        const Sub& s = subs[m->sub];
        std::string msg = m->failed ? m->msg : describe_status(failstatus);
        std::vector<uint64_t> ch(m->choices, m->choices + m->n);
        bool hang = WIFSIGNALED(failstatus) && WTERMSIG(failstatus) == SIGPROF;
        bool leak = !m->failed && WIFEXITED(failstatus) && m->executed > 0; // may be an end-of-process report
        (void)leak;
        auto confirm = [&](auto&& t) {
            Outcome last;
            for (int i = 0; i < 3; i++) {
                Outcome r = t();
                if (!r.fail) return r;
                last = r;
                if (hang && i == 0) break;
            }
            return last;
        };
        Outcome r = confirm([&] { return try_choices(o, s, ch); });
        if (r.fail) {
            if (!hang) {
                ch = shrink(o, s, r.used.empty() ? ch : r.used, msg);
            }
            Outcome fin = confirm([&] { return try_choices(o, s, ch, true, true); });
            if (fin.fail) {
                violation = fin.msg;
                replay = write_replay(o, "choices", s, "choices " + join(ch), fin.msg, fin.notes);
            }
        }
        if (violation.empty()) {
            // depends on earlier cases of the same process: find a short window of cases that reproduces it
            Window w{};
            w.sub1 = m->sub; w.last = m->idx; w.step = o.jobs; w.worker = failing;
            for (uint64_t back = 1; violation.empty(); back *= 4) {
                w.sub0 = m->sub;
                bool whole = cov::active() || back * o.jobs >= m->idx;
                w.first = whole ? (uint64_t)failing : m->idx - back * o.jobs;
                Outcome q = confirm([&] { return try_window(o, w); });
                if (q.fail) { violation = q.msg; break; }
                if (whole) break;
            }
            if (violation.empty()) {
                w.sub0 = 0;
                w.first = failing;
                Outcome q = confirm([&] { return try_window(o, w); });
                if (q.fail) violation = q.msg;
            }
            if (!violation.empty()) {
                std::ostringstream b;
                b << "window " << w.sub0 << " " << w.first << " " << w.sub1 << " " << w.last << " " << w.step << " " << w.worker;
                replay = write_replay(o, "window", s, b.str(), violation, "history-dependent: the cases of the window are executed in order in one process");
            }
        }
        if (violation.empty()) {
            fprintf(stderr, "note: a failure of %s (%s) did not reproduce in 3 replays\n", s.name, msg.c_str());
            infra = true;
        }
    }
    double wall = std::chrono::duration<double>(Clock::now() - t0).count();
    if (!o.out.empty()) {
        std::ofstream f(o.out);
        uint64_t ev = 0, nt = 0, dis = 0;
        f << "{\"property\":" << jstr(property_id()) << ",\"config\":" << jstr(o.config) << ",\"subs\":{";
        bool first = true;
        for (size_t i = 0; i < subs.size(); i++) {
            auto& t = tot[i];
            ev += t.evals; nt += t.nontriv; dis += t.discards;
            if (!t.evals) continue;
            if (!first) f << ",";
            first = false;
            f << jstr(subs[i].name) << ":{\"evaluations\":" << t.evals << ",\"nontrivial\":" << t.nontriv << ",\"discarded\":" << t.discards << ",\"classes\":{";
            bool fl = true;
            for (auto& [k, v] : t.labels) { if (!fl) f << ","; fl = false; f << jstr(k) << ":" << v; }
            f << "}}";
        }
        f << "},\"evaluations\":" << ev << ",\"nontrivial\":" << nt << ",\"discarded\":" << dis << ",\"executed\":" << executed << ",\"distinct_nontrivial\":" << hashes.size() << ",\"samples\":[";
        first = true;
        std::map<uint32_t, unsigned> per;
        for (auto& s : samples) {
            if (per[s.sub]++ >= 1) continue;
            if (!first) f << ",";
            first = false;
            f << "{\"check\":" << jstr(subs[s.sub].name) << ",\"config\":" << jstr(o.config) << ",\"case\":" << jstr(s.text) << "}";
        }
        f << "],\"wall_s\":" << wall << ",\"violation\":" << (violation.empty() ? "null" : jstr(violation)) << ",\"replay\":" << (replay.empty() ? "null" : jstr(replay)) << ",\"inconclusive\":" << (infra ? "true" : "false") << "}\n";
    }
    if (!violation.empty()) {
        printf("%s [%s] sub-check failed: %s\n", property_id(), o.config.c_str(), violation.c_str());
        printf("VIOLATION property=%s replay=%s\n", property_id(), replay.c_str());
        return 1;
    }
    if (infra) return 4;
    return 0;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { if (pbt::main_hook) pbt::main_hook(); return pbt::engine_main(argc, argv); }
#endif
