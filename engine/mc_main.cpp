#include "mc.hpp"
#include <algorithm>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace mc {
struct Section { std::string name; SectionFn fn; };
static std::vector<Section> &sections() { static std::vector<Section> s; return s; }
Registrar::Registrar(const char *name, SectionFn fn) { sections().push_back({name, fn}); }

static std::set<std::string> known;
struct Failure { std::string sig, msg, spec, desc; };
static std::vector<Failure> failures;
static std::set<std::string> fail_sigs, known_hit;
static std::map<std::string, std::string> known_msg;

static std::string spec_of(const Run &c) {
    std::string s = c.section + ":";
    for (size_t i = 0; i < c.choice.size(); i++) s += (i ? "," : "") + std::to_string(c.choice[i]);
    return s;
}

int Run::pick(int n, const char *label) {
    if (n <= 0) { fprintf(stderr, "mc: empty choice %s\n", label); _exit(90); }
    size_t i = choice.size();
    int v = 0;
    if (i < prefix.size()) {
        v = prefix[i];
        if (v >= n) { fprintf(stderr, "mc: diverging replay at choice %zu (%s): %d of %d\n", i, label, v, n); _exit(91); }
    }
    choice.push_back(v);
    arity.push_back(n);
    labels.push_back(label);
    if (sh && i < 400) { sh->choice[i] = v; sh->arity[i] = n; sh->n = (int)i + 1; }
    return v;
}
uint64_t Run::cfg_hash() const {
    uint64_t h = hash_bytes(section.data(), section.size());
    for (int v : choice) h = hash_mix(h, v);
    return h;
}
bool Run::mine() {
    mine_called = true;
    uint64_t h = cfg_hash();
    h ^= h >> 31; h *= 0x7fb5d329728ea185ull; h ^= h >> 29;
    is_mine = replaying || (int)(h % (uint64_t)nworkers) == worker;
    if (is_mine) states.insert(cfg_hash());
    return is_mine;
}
void Run::stage(const char *s) {
    cur_stage = s;
    if (sh) { strncpy(sh->stage, s, sizeof(sh->stage) - 1); }
}
std::string Run::describe() const {
    std::string s = section + "{";
    for (size_t i = 0; i < choice.size(); i++) s += (i ? " " : "") + labels[i] + "=" + std::to_string(choice[i]);
    return s + "}";
}
bool Run::check(bool ok, const std::string &sig, const std::function<std::string()> &msg) {
    if (ok) { checks++; return true; }
    if (known.count(sig) && !replaying) {
        if (known_hit.insert(sig).second) known_msg[sig] = msg() + " @ " + spec_of(*this);
        return false;
    }
    if (fail_sigs.insert(sig).second && failures.size() < 30) failures.push_back({sig, msg(), spec_of(*this), describe()});
    throw CaseFailed();
}

static std::string jesc(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}
struct XerblaCalled { std::string what; };
} // namespace mc
using namespace mc;
// an illegal argument to BLAS/LAPACK makes the reference implementation stop the program
extern "C" void xerbla_(const char *name, int *info, long len) { throw XerblaCalled{str("argument ", *info, " of ", std::string(name, len > 0 && len < 32 ? len : 6), " is illegal")}; }


static std::vector<int> parse_ints(const std::string &s) {
    std::vector<int> v;
    std::istringstream is(s);
    std::string t;
    while (std::getline(is, t, ',')) if (!t.empty()) v.push_back(atoi(t.c_str()));
    return v;
}

int main(int argc, char **argv) {
    Run c;
    std::string out, state, replay, resume, only, knownf;
    double budget = 1e9; size_t max_failures = 20;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--tier") c.thorough = next() == "thorough";
        else if (a == "--worker") c.worker = atoi(argv[++i]);
        else if (a == "--nworkers") c.nworkers = atoi(argv[++i]);
        else if (a == "--out") out = next();
        else if (a == "--state") state = next();
        else if (a == "--replay") replay = next();
        else if (a == "--resume") resume = next();
        else if (a == "--section") only = next();
        else if (a == "--known") knownf = next();
        else if (a == "--fast") max_failures = 1;
        else if (a == "--budget") budget = atof(argv[++i]);
    }
    std::sort(sections().begin(), sections().end(), [](const Section &a, const Section &b) { return a.name < b.name; });
    for (int i = 1; i < argc; i++) if (std::string(argv[i]) == "--list") { for (auto &x : sections()) std::cout << x.name << "\n"; std::cout.flush(); _exit(0); }
    if (!knownf.empty()) { std::ifstream f(knownf); std::string l; while (std::getline(f, l)) if (!l.empty()) known.insert(l); }
    if (!state.empty()) {
        int fd = open(state.c_str(), O_RDWR | O_CREAT, 0644);
        if (ftruncate(fd, sizeof(SharedState))) return 92;
        c.sh = (SharedState *)mmap(nullptr, sizeof(SharedState), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        memset((void *)c.sh, 0, sizeof(SharedState));
    }
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec); };

    std::vector<std::string> samples;
    bool capped = false;
    std::map<std::string, uint64_t> per_section;
    std::map<std::string, double> sec_time;
    std::string resume_section; std::vector<int> resume_prefix; bool have_resume = false;
    if (!replay.empty()) {
        auto p = replay.find(':');
        resume_section = replay.substr(0, p); resume_prefix = parse_ints(replay.substr(p + 1));
        c.replaying = true;
    } else if (!resume.empty()) { // already incremented by the driver
        auto p = resume.find(':');
        resume_section = resume.substr(0, p); resume_prefix = parse_ints(resume.substr(p + 1)); have_resume = true;
    }
    for (size_t s = 0; s < sections().size() && !capped; s++) {
        auto &sec = sections()[s];
        if (!only.empty() && sec.name.find(only) == std::string::npos) continue;
        if (c.replaying && sec.name != resume_section) continue;
        if (have_resume && sec.name < resume_section) continue;
        c.section = sec.name;
        double ts = elapsed();
        std::vector<int> prefix;
        if (c.replaying || (have_resume && sec.name == resume_section)) prefix = resume_prefix;
        while (true) {
            c.prefix = prefix;
            c.choice.clear(); c.arity.clear(); c.labels.clear(); c.mine_called = false; c.is_mine = true;
            if (c.sh) { c.sh->n = 0; c.sh->section = (int)s; c.sh->start = time(nullptr); c.sh->seq++; c.sh->stage[0] = 0; c.sh->in_case = 1; }
            bool skipped = false;
            try { sec.fn(c); }
            catch (CaseFailed &) {}
            catch (Run::Skip &) { skipped = true; }
            catch (XerblaCalled &x) { try { c.check(false, "lapack-argument/" + sec.name + "/" + c.cur_stage, x.what); } catch (CaseFailed &) {} }
            catch (std::exception &x) { try { c.check(false, "exception/" + sec.name + "/" + c.cur_stage, x.what()); } catch (CaseFailed &) {} }
            if (c.sh) c.sh->in_case = 0;
            if (!c.mine_called && c.nworkers > 1 && c.worker != 0 && !c.choice.empty() && !skipped) {}
            if (c.is_mine && !skipped) {
                c.cases++; per_section[sec.name]++;
                if (samples.size() < 40 && (c.cases < 8 || (c.cases & (c.cases - 1)) == 0)) samples.push_back(c.describe());
            }
            if (c.replaying) break;
            // next choice vector
            int i = (int)c.choice.size() - 1;
            while (i >= 0 && c.choice[i] + 1 >= c.arity[i]) i--;
            if (i < 0) break;
            prefix.assign(c.choice.begin(), c.choice.begin() + i + 1);
            prefix[i]++;
            if (elapsed() > budget) { capped = true; break; }
            if (failures.size() >= max_failures) { capped = true; break; }
        }
        sec_time[sec.name] += elapsed() - ts;
        if (c.replaying) break;
    }
    std::ostringstream o;
    o << "{\"cases\":" << c.cases << ",\"transitions\":" << c.transitions << ",\"checks\":" << c.checks << ",\"skipped\":" << c.skipped
      << ",\"states\":" << c.states.size() << ",\"outcomes\":" << c.outcomes.size() << ",\"capped\":" << (capped ? "true" : "false")
      << ",\"elapsed\":" << elapsed() << ",\"sections\":{";
    bool first = true;
    for (auto &p : per_section) { o << (first ? "" : ",") << jesc(p.first) << ":[" << p.second << "," << sec_time[p.first] << "]"; first = false; }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jesc(samples[i]);
    o << "],\"known\":[";
    first = true;
    for (auto &p : known_msg) { o << (first ? "" : ",") << "[" << jesc(p.first) << "," << jesc(p.second) << "]"; first = false; }
    o << "],\"failures\":[";
    for (size_t i = 0; i < failures.size(); i++)
        o << (i ? "," : "") << "{\"sig\":" << jesc(failures[i].sig) << ",\"msg\":" << jesc(failures[i].msg) << ",\"spec\":" << jesc(failures[i].spec) << ",\"desc\":" << jesc(failures[i].desc) << "}";
    o << "]}\n";
    if (!out.empty()) { std::ofstream f(out); f << o.str(); }
    if (c.replaying || out.empty()) std::cout << o.str();
    std::cout.flush();
    _exit(failures.empty() ? 0 : 1);
}
