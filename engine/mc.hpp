// Stateless bounded model-checking kernel: every case is a vector of choices; the explorer enumerates
// the complete tree of choice vectors depth first.  Each leaf runs the real library code.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct CaseFailed {};

struct SharedState { // mapped to a file so that the driver can tell where a crashed worker was
    uint64_t seq;    // cases started
    uint64_t start;  // unix time the case started
    int32_t in_case;
    int32_t section;
    int32_t n;
    int32_t choice[400];
    int32_t arity[400];
    char stage[200];
};

class Run {
  public:
    bool thorough = false;
    int nworkers = 1, worker = 0;
    bool replaying = false;
    // current case
    std::vector<int> choice, arity, prefix;
    std::vector<std::string> labels;
    bool mine_called = false, is_mine = true;
    // statistics
    uint64_t cases = 0, transitions = 0, checks = 0, skipped = 0;
    std::unordered_set<uint64_t> states, outcomes;
    std::string section;
    SharedState *sh = nullptr;
    std::string cur_stage;

    // choose one of n alternatives (0 first)
    int pick(int n, const char *label);
    template <class V>
    typename V::value_type of(const V &values, const char *label) {
        return values[pick((int)values.size(), label)];
    }
    char ch(const char *alternatives, const char *label) { return alternatives[pick((int)strlen(alternatives), label)]; }
    // end of the configuration phase: false if another worker owns this configuration
    bool mine();
    void stage(const char *s);
    void step(uint64_t n = 1) { transitions += n; }
    void state(uint64_t h) { states.insert(h ^ (cfg_hash() * 0x9E3779B97F4A7C15ull)); }
    void outcome(uint64_t h) { outcomes.insert(h); }
    uint64_t cfg_hash() const;
    // a property check; a failure with a signature that is a listed known finding is recorded and the case goes on
    bool check(bool ok, const std::string &sig, const std::function<std::string()> &msg);
    bool check(bool ok, const std::string &sig, const std::string &msg = "") {
        checks++;
        if (ok) return true;
        return check(false, sig, [&] { return msg; });
    }
    void fail(const std::string &sig, const std::string &msg) { check(false, sig, msg); }
    // abandon the case: the precondition of the property does not hold for it
    void skip() { skipped++; throw Skip(); }
    struct Skip {};
    std::string describe() const;
};

typedef void (*SectionFn)(Run &);
struct Registrar {
    Registrar(const char *name, SectionFn fn);
};

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SECTION(name)                                                       \
    static void MC_CAT(mc_section_, __LINE__)(mc::Run &);                      \
    static mc::Registrar MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_section_, __LINE__)); \
    static void MC_CAT(mc_section_, __LINE__)(mc::Run & c)

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_mix(uint64_t h, uint64_t v) { return hash_bytes(&v, sizeof v, h); }

template <class... A>
std::string str(const A &...a) {
    std::ostringstream os;
    os.precision(17);
    int d[] = {0, ((void)(os << a), 0)...};
    (void)d;
    return os.str();
}

} // namespace mc
#endif
