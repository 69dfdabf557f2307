#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <string.h>
#include <algorithm>
#include <set>
#include <fstream>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1048576:malloc_fill_byte=255:"
           "detect_stack_use_after_return=1:check_initialization_order=0:allocator_may_return_null=0:handle_abort=1:max_allocation_size_mb=1024:hard_rss_limit_mb=2500";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

namespace pbt {
std::vector<Law>& laws() { static std::vector<Law> l; return l; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static uint64_t hashstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t caseseed(uint64_t seed, const std::string& law, uint64_t i) { return mix(mix(seed * 0x9E3779B97F4A7C15ull ^ hashstr(law)) + i * 0xD1B54A32D192ED03ull); }
static uint64_t hashrec(const std::vector<uint64_t>& r, uint64_t h) { for (uint64_t v : r) h = mix(h ^ v) + 0x9E3779B97F4A7C15ull * 3; return h; }

static const int CPU_LIMIT = 10;  // seconds of CPU time for one case: beyond it the case is a hang
static void arm(int sec) { itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }

struct Shared { volatile uint64_t law[64]; volatile uint64_t idx[64]; volatile int busy[64]; volatile int stop; };

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct LawStat { uint64_t evals = 0, nontriv = 0, discard = 0; std::map<std::string, uint64_t> labels, known; std::vector<uint64_t> hashes; };

static std::set<std::string> g_known;

enum Out { PASS = 0, FAILED = 1, DISC = 2, KNOWN = 3 };
static Out run_one(const Law& l, Src& s, std::string& msg, std::string& tag) {
    try {
        l.fn(s);
        return PASS;
    } catch (const Failure& f) {
        msg = f.msg; tag = f.tag;
        if (!tag.empty() && g_known.count(tag)) return KNOWN;
        return FAILED;
    } catch (const Discard&) {
        return DISC;
    } catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        return FAILED;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        return FAILED;
    }
}

// current case of this process: its choice record is copied out when the process dies (sanitizer report, signal)
static Src* g_cur = nullptr;
static uint64_t* g_out = nullptr;
static size_t g_outcap = 0;
static std::string g_notes_file;
static void dump_record() {
    if (g_cur && !g_notes_file.empty()) {
        FILE* f = fopen(g_notes_file.c_str(), "w");
        if (f) { std::string n = g_cur->notes.str(); fwrite(n.data(), 1, n.size(), f); fclose(f); }
    }
    if (!g_cur || !g_out) return;
    const auto& r = g_cur->record();
    size_t n = std::min(r.size(), g_outcap);
    memcpy(g_out + 1, r.data(), n * 8);
    g_out[0] = n;
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_signal(int sg) { dump_record(); signal(sg, SIG_DFL); raise(sg); }

// run one choice sequence in a forked child; returns category: 0 pass, 1 assertion, 2 discard, 3 known, 4 crash/hang
// a case that runs before the case in question, in the same process
struct Before { const Law* law; uint64_t seed; };
static int forked(const Law& l, const std::vector<uint64_t>& c, const std::string& dir, std::vector<uint64_t>* recout, std::string* msg, std::string* notes, bool verbose, const std::vector<Before>& before = {}) {
    std::string rf = dir + "/forked.out", ef = dir + "/forked.err", nf = dir + "/forked.notes";
    unlink(nf.c_str());
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2); dup2(fd, 1);
        for (auto& b : before) { arm(CPU_LIMIT); Src q(b.seed); std::string m, t; Out o = run_one(*b.law, q, m, t); if (o == FAILED) _exit(14); arm(0); }
        arm(CPU_LIMIT);
        Src s(c);
        s.verbose = verbose;
        s.notes.precision(17);
        if (verbose) { g_cur = &s; g_notes_file = nf; __sanitizer_set_death_callback(dump_record); signal(SIGPROF, on_signal); signal(SIGABRT, on_signal); }
        std::string m, t;
        Out o = run_one(l, s, m, t);
        g_cur = nullptr;
        FILE* f = fopen(rf.c_str(), "w");
        fprintf(f, "%zu\n", s.record().size());
        for (uint64_t v : s.record()) fprintf(f, "%llu\n", (unsigned long long)v);
        fprintf(f, "%zu\n", m.size()); fwrite(m.data(), 1, m.size(), f);
        std::string n = s.notes.str();
        fprintf(f, "\n%zu\n", n.size()); fwrite(n.data(), 1, n.size(), f);
        fclose(f);
        _exit(o == PASS ? 10 : o == FAILED ? 11 : o == DISC ? 12 : 13);
    }
    int st; waitpid(p, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (code == 14) return 5;
    if (code >= 10 && code <= 13) {
        FILE* f = fopen(rf.c_str(), "r");
        size_t n = 0;
        if (f && fscanf(f, "%zu", &n) == 1) {
            std::vector<uint64_t> r(n);
            for (auto& v : r) { unsigned long long x; if (fscanf(f, "%llu", &x) != 1) x = 0; v = x; }
            size_t k = 0; if (fscanf(f, "%zu", &k) != 1) k = 0; fgetc(f);
            std::string m(k, 0); if (k && fread(&m[0], 1, k, f) != k) {}
            size_t k2 = 0; if (fscanf(f, "%zu", &k2) != 1) k2 = 0; fgetc(f);
            std::string nn(k2, 0); if (k2 && fread(&nn[0], 1, k2, f) != k2) {}
            if (recout) *recout = r;
            if (msg) *msg = m;
            if (notes) *notes = nn;
        }
        if (f) fclose(f);
        return code - 10;
    }
    if (recout) *recout = c;
    if (msg) {
        std::ifstream e(ef); std::stringstream b; b << e.rdbuf();
        std::string t = b.str();
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) t = "hang: case used more than " + std::to_string(CPU_LIMIT) + " s of CPU time\n" + t;
        else if (WIFSIGNALED(st)) t = "killed by signal " + std::to_string(WTERMSIG(st)) + "\n" + t;
        *msg = t.substr(0, 3000);
    }
    if (notes) { std::ifstream e(nf); std::stringstream b; b << e.rdbuf(); *notes = b.str(); }
    return 4;
}

static std::vector<uint64_t> shrink(const Law& l, std::vector<uint64_t> cur, int cat, const std::string& dir, double budget) {
    double t0 = now();
    uint64_t tries = 0;
    bool hang = false;
    auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
        if (now() - t0 > budget || tries > 4000) return false;
        ++tries;
        std::vector<uint64_t> rec; std::string m;
        int r = forked(l, c, dir, &rec, &m, nullptr, false);
        if (r == 4 && m.compare(0, 5, "hang:") == 0) hang = true;
        if (r != cat) return false;
        // keep the normalised record when it is not longer
        if (cat == 1 && rec.size() <= c.size()) cur = rec; else cur = c;
        return true;
    };
    bool progress = true;
    while (progress && now() - t0 < budget && tries < 4000 && !hang) {
        progress = false;
        for (size_t blk = std::max<size_t>(1, cur.size() / 2); blk >= 1; blk /= 2) {
            for (size_t i = cur.size(); i-- > 0;) {
                if (i + blk > cur.size()) continue;
                std::vector<uint64_t> c(cur); c.erase(c.begin() + i, c.begin() + i + blk);
                if (attempt(c)) { progress = true; if (i > cur.size()) i = cur.size(); }
                if (now() - t0 > budget || tries > 4000) break;
            }
            if (blk == 1) break;
            if (now() - t0 > budget || tries > 4000) break;
        }
        for (size_t i = 0; i < cur.size(); ++i) {
            if (cur[i] == 0) continue;
            std::vector<uint64_t> c(cur); c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < cur.size() ? cur[i] : 0;
            for (int k = 0; k < 12 && lo + 1 < hi; ++k) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = cur; if (i >= c.size()) break; c[i] = mid;
                if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
            }
            if (now() - t0 > budget || tries > 4000) break;
        }
    }
    return cur;
}

struct Args { std::string prop, out, replay, only, known; uint64_t seed = 1; double mult = 1, cap = 200; int workers = 8; std::string dir; int sample = 3; };

static int worker(const Args& a, int w, Shared* sh) {
    auto& L = laws();
    double t0 = now();
    std::vector<LawStat> st(L.size());
    std::string failmsg, failtag; int faillaw = -1; uint64_t failidx = 0;
    // laws are interleaved in slices so that a time cap cuts all of them evenly
    const int SL = 40;
    bool capped = false;
    for (int sl = 0; sl < SL && faillaw < 0 && !capped; ++sl)
        for (size_t li = 0; li < L.size() && faillaw < 0 && !capped; ++li) {
            if (!a.only.empty() && a.only != L[li].name) continue;
            uint64_t n = (uint64_t)std::ceil(L[li].quick * a.mult);
            uint64_t b = n * sl / SL, e = n * (sl + 1) / SL;
            for (uint64_t i = b; i < e; ++i) {
                if (i % a.workers != (uint64_t)w) continue;
                if (sh->stop) { capped = true; break; }
                if ((i / a.workers) % 16 == 0 && now() - t0 > a.cap) { capped = true; break; }
                Src s(caseseed(a.seed, L[li].name, i));
                s.labels = &st[li].labels;
                sh->law[w] = li; sh->idx[w] = i; sh->busy[w] = 1;
                arm(CPU_LIMIT);
                std::string m, t;
                Out o = run_one(L[li], s, m, t);
                arm(0);
                sh->busy[w] = 0;
                for (auto& k : s.known_hits) st[li].known[k]++;
                if (o == DISC) { st[li].discard++; continue; }
                st[li].evals++;
                if (o == KNOWN) { st[li].known[t]++; continue; }
                if (o == FAILED) { failmsg = m; failtag = t; faillaw = li; failidx = i; break; }
                if (s.is_nontrivial()) { st[li].nontriv++; st[li].hashes.push_back(hashrec(s.record(), hashstr(L[li].name))); }
            }
        }
    // stats
    std::string f = a.dir + "/w" + std::to_string(w) + ".bin";
    FILE* o = fopen(f.c_str(), "wb");
    for (auto& x : st) {
        fprintf(o, "L %llu %llu %llu %zu %zu %zu\n", (unsigned long long)x.evals, (unsigned long long)x.nontriv, (unsigned long long)x.discard, x.labels.size(), x.known.size(), x.hashes.size());
        for (auto& p : x.labels) fprintf(o, "%llu %s\n", (unsigned long long)p.second, p.first.c_str());
        for (auto& p : x.known) fprintf(o, "%llu %s\n", (unsigned long long)p.second, p.first.c_str());
        fwrite(x.hashes.data(), 8, x.hashes.size(), o);
        fprintf(o, "\n");
    }
    fprintf(o, "F %d %llu\n", faillaw, (unsigned long long)failidx);
    fprintf(o, "C %d\n", capped ? 1 : 0);
    fclose(o);
    if (faillaw >= 0) sh->stop = 1;
    return 0;
}

// choice record of random case i of a law (even if the case kills its process)
static std::vector<uint64_t> record_of(const Law& l, uint64_t seed, uint64_t i, const std::string& dir, int& cat) {
    size_t cap = 1 << 18;
    uint64_t* buf = (uint64_t*)mmap(nullptr, (cap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    buf[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        int fd = open((dir + "/rec.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2); dup2(fd, 1);
        Src s(caseseed(seed, l.name, i));
        g_cur = &s; g_out = buf; g_outcap = cap;
        arm(CPU_LIMIT);
        std::string m, t;
        Out o = run_one(l, s, m, t);
        dump_record();
        _exit(o == PASS ? 10 : o == FAILED ? 11 : o == DISC ? 12 : 13);
    }
    int st; waitpid(p, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    cat = (code >= 10 && code <= 13) ? code - 10 : 4;
    std::vector<uint64_t> r(buf + 1, buf + 1 + buf[0]);
    munmap(buf, (cap + 1) * 8);
    return r;
}

// the cases a worker has run when it comes to case idx of law: same order as in worker()
static std::vector<Before> before_case(const Args& a, std::vector<Law>& L, int law, uint64_t idx) {
    const int SL = 40; uint64_t w = idx % a.workers; std::vector<Before> r;
    for (int sl = 0; sl < SL; ++sl)
        for (size_t li = 0; li < L.size(); ++li) {
            if (!a.only.empty() && a.only != L[li].name) continue;
            uint64_t n = (uint64_t)std::ceil(L[li].quick * a.mult), b = n * sl / SL, e = n * (sl + 1) / SL;
            for (uint64_t i = b; i < e; ++i) {
                if (i % a.workers != w) continue;
                if ((int)li == law && i == idx) return r;
                r.push_back({&L[li], caseseed(a.seed, L[li].name, i)});
            }
        }
    return r;
}

int main_(int argc, char** argv) {
    Args a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--prop") a.prop = val();
        else if (k == "--out") a.out = val();
        else if (k == "--dir") a.dir = val();
        else if (k == "--seed") a.seed = strtoull(val().c_str(), 0, 10);
        else if (k == "--mult") a.mult = atof(val().c_str());
        else if (k == "--cap") a.cap = atof(val().c_str());
        else if (k == "--workers") a.workers = atoi(val().c_str());
        else if (k == "--replay") a.replay = val();
        else if (k == "--law") a.only = val();
        else if (k == "--known") { std::stringstream ss(val()); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) g_known.insert(t); }
        else if (k == "--list") { for (auto& l : laws()) printf("%s %llu\n", l.name.c_str(), (unsigned long long)l.quick); return 0; }
    }
    __sanitizer_set_death_callback(dump_record);
    signal(SIGPROF, on_signal);
    auto& L = laws();
    if (!a.replay.empty()) {
        std::ifstream f(a.replay);
        std::string line, lawn; std::vector<uint64_t> c;
        while (std::getline(f, line)) {
            if (line.compare(0, 8, "before: ") == 0) { std::stringstream ss(line.substr(8)); std::string n; uint64_t v; while (ss >> n >> v) for (auto& l : L) if (l.name == n) { Src q(v); std::string m, t; arm(CPU_LIMIT); run_one(l, q, m, t); arm(0); } }
            if (line.compare(0, 5, "law: ") == 0) lawn = line.substr(5);
            if (line.compare(0, 9, "choices: ") == 0) { std::stringstream ss(line.substr(9)); uint64_t v; while (ss >> v) c.push_back(v); }
        }
        for (auto& l : L) if (l.name == lawn) {
            Src s(c); s.verbose = true; s.notes.precision(17);
            std::string m, t;
            arm(CPU_LIMIT);
            Out o = run_one(l, s, m, t);
            printf("%s\n", s.notes.str().c_str());
            printf("replay %s: %s %s\n", lawn.c_str(), o == PASS ? "PASS" : o == FAILED ? "FAIL" : o == DISC ? "DISCARD" : "KNOWN", m.c_str());
            return o == FAILED ? 1 : 0;
        }
        printf("no such law %s\n", lawn.c_str());
        return 2;
    }
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof(Shared));
    std::vector<pid_t> pids(a.workers);
    for (int w = 0; w < a.workers; ++w) {
        pid_t p = fork();
        if (p == 0) {
            int fd = open((a.dir + "/w" + std::to_string(w) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2); dup2(fd, 1);
            _exit(worker(a, w, sh) == 0 ? 0 : 9);
        }
        pids[w] = p;
    }
    std::vector<LawStat> tot(L.size());
    bool capped = false;
    struct Bad { int law; uint64_t idx; };
    std::vector<Bad> bad;
    std::vector<std::string> infra;
    for (int k = 0; k < a.workers; ++k) {
        int st; pid_t p = waitpid(-1, &st, 0);
        int w = std::find(pids.begin(), pids.end(), p) - pids.begin();
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (sh->busy[w]) { bad.push_back({(int)sh->law[w], sh->idx[w]}); sh->stop = 1; }
            else infra.push_back("worker " + std::to_string(w) + " died outside a case");
            continue;
        }
        std::ifstream f(a.dir + "/w" + std::to_string(w) + ".bin", std::ios::binary);
        for (size_t li = 0; li < L.size(); ++li) {
            std::string line; std::getline(f, line);
            unsigned long long e, n, d; size_t nl, nk, nh;
            if (sscanf(line.c_str(), "L %llu %llu %llu %zu %zu %zu", &e, &n, &d, &nl, &nk, &nh) != 6) { infra.push_back("bad stats"); break; }
            tot[li].evals += e; tot[li].nontriv += n; tot[li].discard += d;
            for (size_t q = 0; q < nl + nk; ++q) {
                std::getline(f, line); size_t sp = line.find(' ');
                (q < nl ? tot[li].labels : tot[li].known)[line.substr(sp + 1)] += strtoull(line.c_str(), 0, 10);
            }
            size_t o = tot[li].hashes.size(); tot[li].hashes.resize(o + nh);
            f.read((char*)(tot[li].hashes.data() + o), nh * 8);
            std::getline(f, line);
        }
        std::string line; int fl; unsigned long long fi; int c;
        std::getline(f, line); if (sscanf(line.c_str(), "F %d %llu", &fl, &fi) == 2 && fl >= 0) bad.push_back({fl, fi});
        std::getline(f, line); if (sscanf(line.c_str(), "C %d", &c) == 1 && c) capped = true;
    }
    if (!bad.empty()) capped = false;
    std::sort(bad.begin(), bad.end(), [](const Bad& x, const Bad& y) { return x.law != y.law ? x.law < y.law : x.idx < y.idx; });
    // confirm, shrink
    std::string violjson;
    bool violated = false;
    for (auto& b : bad) {
        if (violated) break;
        const Law& l = L[b.law];
        int cat; std::vector<uint64_t> rec = record_of(l, a.seed, b.idx, a.dir, cat);
        if (cat != 1 && cat != 4) {
            // it fails only after other cases in the same process: the code under test keeps something between them
            std::vector<Before> all = before_case(a, L, b.law, b.idx), pre;
            std::string m0; int fc = 0; double h0 = now();
            for (size_t k = 1; now() - h0 < 150; k *= 2) {
                pre.assign(all.end() - std::min(k, all.size()), all.end());
                int c = forked(l, rec, a.dir, nullptr, &m0, nullptr, false, pre);
                if (c == 1 || c == 4) { fc = c; break; }
                if (k >= all.size()) break;
            }
            if (fc) {
                double s0 = now();
                for (size_t blk = std::max<size_t>(1, pre.size() / 2);; blk /= 2) {
                    for (size_t i = pre.size(); i-- > 0 && now() - s0 < 40;) {
                        if (i + blk > pre.size()) continue;
                        std::vector<Before> q(pre); q.erase(q.begin() + i, q.begin() + i + blk);
                        if (forked(l, rec, a.dir, nullptr, nullptr, nullptr, false, q) == fc) { pre = q; if (i > pre.size()) i = pre.size(); }
                    }
                    if (blk == 1) break;
                }
                std::string msg, notes; int ok = 0;
                for (int k = 0; k < 3; ++k) if (forked(l, rec, a.dir, nullptr, &msg, &notes, true, pre) == fc) ok++;
                if (ok == 3) {
                    violated = true;
                    std::ostringstream o;
                    o << "{\"law\":" << jstr(l.name) << ",\"index\":" << b.idx << ",\"message\":" << jstr("after " + std::to_string(pre.size()) + " other case(s) in the same process: " + msg) << ",\"notes\":" << jstr(notes) << ",\"before\":[";
                    for (size_t i = 0; i < pre.size(); ++i) o << (i ? "," : "") << "\"" << pre[i].law->name << " " << pre[i].seed << "\"";
                    o << "],\"choices\":[";
                    for (size_t i = 0; i < rec.size(); ++i) o << (i ? "," : "") << "\"" << rec[i] << "\"";
                    o << "]}";
                    violjson = o.str();
                    continue;
                }
            }
            infra.push_back("case " + l.name + "/" + std::to_string(b.idx) + " failed in a worker but not when re-run");
            continue;
        }
        std::string m0; int conf = forked(l, rec, a.dir, nullptr, &m0, nullptr, false);
        if (conf != cat) { infra.push_back("case " + l.name + "/" + std::to_string(b.idx) + " does not replay from its choices"); continue; }
        std::vector<uint64_t> sm = shrink(l, rec, cat, a.dir, m0.compare(0, 5, "hang:") == 0 ? 1 : getenv("VERIF_SHRINK") ? atof(getenv("VERIF_SHRINK")) : 40);
        std::string msg, notes; int ok = 0;
        for (int k = 0; k < 3; ++k) if (forked(l, sm, a.dir, nullptr, &msg, &notes, true) == cat) ok++;
        if (ok < 3) { sm = rec; ok = 0; for (int k = 0; k < 3; ++k) if (forked(l, sm, a.dir, nullptr, &msg, &notes, true) == cat) ok++; }
        if (ok < 3) { infra.push_back("case " + l.name + "/" + std::to_string(b.idx) + " is not reproducible"); continue; }
        violated = true;
        std::ostringstream o;
        o << "{\"law\":" << jstr(l.name) << ",\"index\":" << b.idx << ",\"message\":" << jstr(msg) << ",\"notes\":" << jstr(notes) << ",\"choices\":[";
        for (size_t i = 0; i < sm.size(); ++i) o << (i ? "," : "") << "\"" << sm[i] << "\"";
        o << "]}";
        violjson = o.str();
    }
    // samples: first cases of each law, re-run verbosely in a child
    std::ostringstream js;
    js << "{\"violation\":" << (violated ? violjson : "null") << ",\"capped\":" << (capped ? "true" : "false") << ",\"infra\":[";
    for (size_t i = 0; i < infra.size(); ++i) js << (i ? "," : "") << jstr(infra[i]);
    js << "],\"laws\":[";
    bool first = true;
    for (size_t li = 0; li < L.size(); ++li) {
        if (!a.only.empty() && a.only != L[li].name) continue;
        auto& x = tot[li];
        std::sort(x.hashes.begin(), x.hashes.end());
        x.hashes.erase(std::unique(x.hashes.begin(), x.hashes.end()), x.hashes.end());
        js << (first ? "" : ",") << "{\"name\":" << jstr(L[li].name) << ",\"rule\":" << jstr(L[li].rule) << ",\"evaluations\":" << x.evals << ",\"nontrivial\":" << x.nontriv
           << ",\"distinct_nontrivial\":" << x.hashes.size() << ",\"discarded\":" << x.discard << ",\"labels\":{";
        first = false;
        bool f2 = true;
        for (auto& p : x.labels) { js << (f2 ? "" : ",") << jstr(p.first) << ":" << p.second; f2 = false; }
        js << "},\"known\":{";
        f2 = true;
        for (auto& p : x.known) { js << (f2 ? "" : ",") << jstr(p.first) << ":" << p.second; f2 = false; }
        js << "},\"samples\":[";
        f2 = true;
        if (!violated)
        for (uint64_t i = 0, got = 0; i < 6 && got < 1; ++i) {
            int cat; std::vector<uint64_t> rec = record_of(L[li], a.seed, i, a.dir, cat);
            if (cat != 0) continue;
            std::string m, n; if (forked(L[li], rec, a.dir, nullptr, &m, &n, true) != 0) continue;
            if (n.empty()) { n = "choices:"; for (size_t q = 0; q < rec.size() && q < 40; ++q) n += " " + std::to_string(rec[q]); }
            js << (f2 ? "" : ",") << jstr(n.substr(0, 1500)); f2 = false; ++got;
        }
        js << "]}";
    }
    js << "]}";
    std::ofstream(a.out) << js.str() << "\n";
    return 0;
}
}  // namespace pbt
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
