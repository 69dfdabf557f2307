// Small property-based testing engine: every random decision of a case is drawn from a recorded
// choice sequence, so any failing case (assertion, sanitizer report, crash or hang) can be replayed
// from, and shrunk on, that sequence alone.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>

namespace pbt {

struct Failure { std::string msg; std::string tag; };
struct Discard {};

class Src {
public:
    explicit Src(uint64_t seed) : replay_(false), st_(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
    explicit Src(std::vector<uint64_t> c) : replay_(true), st_(0), in_(std::move(c)) {}

    // uniform in [0,n); n==0 means the full 64 bit range
    uint64_t raw(uint64_t n) {
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            if (n && v >= n) v = n - 1;
        } else {
            v = next();
            if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        }
        ++pos_;
        rec_.push_back(v);
        if (rec_.size() > 200000) throw Discard();
        return v;
    }
    int range(int lo, int hi) { return lo + (int)raw((uint64_t)(hi - lo) + 1); }   // inclusive; shrinks to lo
    bool flip() { return raw(2) == 1; }
    bool chance(int num, int den) { return (int)raw(den) >= den - num; }            // shrinks to false
    double unit() { return (double)(raw(1ull << 53)) / (double)(1ull << 53); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size())]; }

    // general real in [lo,hi]: special values, a coarse grid, tiny magnitudes, and uniform values
    double real(double lo, double hi) {
        uint64_t k = raw(16);
        double v;
        if (k < 2) {
            static const double sp[] = {0, 1, -1, 0.5, 2, -0.5, -2, 10};
            uint64_t j = raw(10);
            v = j < 8 ? sp[j] : (j == 8 ? lo : hi);
        } else if (k < 4) {
            v = lo + (hi - lo) * (double)raw(17) / 16.0;
        } else if (k < 5) {
            int e = range(1, 9);
            v = std::pow(10.0, -e) * (flip() ? -1 : 1) * std::fmax(std::fabs(lo), std::fabs(hi));
        } else if (k < 6)
            v = magnitude(1e-7, 1) * (flip() ? -1 : 1) * std::fmax(std::fabs(lo), std::fabs(hi));
        else
            v = lo + (hi - lo) * unit();
        if (!(v >= lo)) v = lo;
        if (v > hi) v = hi;
        return v;
    }
    // any order of magnitude alike
    double magnitude(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
    // plain uniform
    double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // angle: exact multiples of pi/12, values close to multiples of pi/2, and uniform ones
    double angle(double span = 2 * M_PI) {
        uint64_t k = raw(8);
        double v;
        if (k < 2) v = (double)((int)raw(49) - 24) * (M_PI / 12);
        else if (k < 3) {
            v = (double)((int)raw(9) - 4) * (M_PI / 2);
            int e = range(2, 12);
            v += (flip() ? -1 : 1) * std::pow(10.0, -e) * (double)(1 + raw(9));
        } else if (k < 4) v = magnitude(1e-8, 1) * (flip() ? -1 : 1);
        else v = uni(-span, span);
        if (v < -span) v = -span;
        if (v > span) v = span;
        return v;
    }

    // bookkeeping
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    bool is_nontrivial() const { return nontrivial_; }
    void label(const std::string& l) { if (labels) (*labels)[l]++; }
    bool verbose = false;
    std::ostringstream notes;
    std::map<std::string, uint64_t>* labels = nullptr;
    const std::vector<uint64_t>& record() const { return rec_; }
    [[noreturn]] void fail(const std::string& m, const std::string& tag = "") { throw Failure{m, tag}; }
    // "a failure of this particular known class": recorded, never aborts the case
    std::vector<std::string> known_hits;
    [[noreturn]] void discard() { throw Discard(); }

private:
    uint64_t next() {  // splitmix64
        uint64_t z = (st_ += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    bool replay_;
    uint64_t st_;
    std::vector<uint64_t> in_, rec_;
    size_t pos_ = 0;
    bool nontrivial_ = false;
};

struct Law {
    std::string name;
    uint64_t quick;      // cases in the quick tier
    std::string rule;    // how cases are made and what counts as non-trivial
    std::function<void(Src&)> fn;
};
std::vector<Law>& laws();
struct Reg { Reg(const char* n, uint64_t q, const char* rule, std::function<void(Src&)> f) { laws().push_back({n, q, rule, f}); } };

}  // namespace pbt

#define LAW(NAME, QUICK, RULE) \
    static void law_##NAME(pbt::Src&); \
    static pbt::Reg reg_##NAME(#NAME, QUICK, RULE, law_##NAME); \
    static void law_##NAME(pbt::Src& s)

#define NOTE(X) do { if (s.verbose) { s.notes << X << "\n"; } } while (0)
#define FAIL(X) do { std::ostringstream o_; o_.precision(17); o_ << X; throw pbt::Failure{o_.str(), ""}; } while (0)
#define FAILTAG(TAG, X) do { std::ostringstream o_; o_.precision(17); o_ << X; throw pbt::Failure{o_.str(), TAG}; } while (0)
#define EXPECT(C, X) do { if (!(C)) { FAIL("expected " #C ": " << X); } } while (0)
// NaN-safe closeness
#define NEAR(A, B, TOL, X) do { double a_ = (A), b_ = (B), t_ = (TOL); if (!(std::fabs(a_ - b_) <= t_)) { FAIL(X << ": " #A "=" << a_ << " vs " #B "=" << b_ << " diff " << (a_ - b_) << " tol " << t_); } } while (0)
