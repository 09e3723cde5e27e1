#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef PBT_ASAN
extern "C" char const* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:"
           "detect_stack_use_after_return=0:symbolize=1:max_allocation_size_mb=4000";
}
#endif

namespace pbt {

static std::uint64_t splitmix(std::uint64_t& x) {
    auto z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

Src::Src(std::uint64_t seed, std::uint64_t index) : random(true) {
    std::uint64_t x = seed * 0x2545f4914f6cdd1dull + 0x1234567;
    std::uint64_t y = splitmix(x) ^ (index + 1) * 0x9e3779b97f4a7c15ull;
    s[0] = splitmix(y);
    s[1] = splitmix(y);
}

Src::Src(std::vector<std::uint64_t> replay) : random(false), input(std::move(replay)) {}

std::uint64_t Src::next() { // xorshift128+
    auto x = s[0];
    auto const y = s[1];
    s[0] = y;
    x ^= x << 23;
    s[1] = x ^ y ^ (x >> 17) ^ (y >> 26);
    return s[1] + y;
}

std::uint64_t Src::draw(std::uint64_t n) {
    std::uint64_t v = 0;
    if (random) {
        v = (n <= 1) ? 0 : next() % n;
    } else {
        v = pos < input.size() ? input[pos] : 0;
        if (n == 0) { v = 0; } else if (v >= n) { v = n - 1; }
        ++pos;
    }
    log.push_back(v);
    if (mirror && log.size() < mirror_capacity) { mirror[log.size()] = v; mirror[0] = log.size(); }
    if (log.size() > 4000000) { throw Discard{}; }
    return v;
}

} // namespace pbt

using namespace pbt;
using Choices = std::vector<std::uint64_t>;
using Clock = std::chrono::steady_clock;

namespace {

bool g_thorough = false;
int const cpu_limit_seconds = 90; // normal cases take milliseconds

enum class Status : int { ok = 0, discard = 1, failure = 2, known = 3 };

struct Outcome {
    Status status = Status::ok;
    std::string msg;
    std::string known_id;
    Choices choices;
};

void arm_cpu_timer() {
    auto t = itimerval{};
    t.it_value.tv_sec = cpu_limit_seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

Outcome run_case(Src& src, Ctx& ctx) {
    ctx.thorough = g_thorough;
    auto out = Outcome{};
    arm_cpu_timer();
    try {
        property.run(src, ctx);
    } catch (Discard const&) {
        out.status = Status::discard;
    } catch (Known const& k) {
        out.status = Status::known;
        out.known_id = k.id;
        out.msg = k.msg;
    } catch (Failure const& f) {
        out.status = Status::failure;
        out.msg = f.msg;
    } catch (std::exception const& e) {
        out.status = Status::failure;
        out.msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        out.status = Status::failure;
        out.msg = "unexpected exception of unknown type";
    }
    out.choices = src.record();
    return out;
}

std::string json_escape(std::string const& s) {
    auto r = std::string();
    for (unsigned char c : s) {
        switch (c) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\t': r += "\\t"; break;
            default:
                if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
                else { r += static_cast<char>(c); }
        }
    }
    return r;
}

/// Run in a forked child: a crash is a failure like any other
Outcome fork_eval_once(Choices const& choices, bool quiet) {
    int fd[2];
    if (pipe(fd) != 0) { perror("pipe"); exit(3); }
    fflush(stdout); fflush(stderr);
    auto const pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        close(fd[0]);
        if (quiet) {
            auto const dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1); dup2(dn, 2);
        }
        auto src = Src(choices);
        auto ctx = Ctx();
        auto const out = run_case(src, ctx);
        auto const f = fdopen(fd[1], "w");
        fprintf(f, "%d\n%s\n%zu\n", int(out.status), out.known_id.c_str(), out.choices.size());
        for (auto c : out.choices) { fprintf(f, "%llu ", (unsigned long long)c); }
        fprintf(f, "\n%s", out.msg.c_str());
        fflush(f);
        _exit(0);
    }
    close(fd[1]);
    auto text = std::string();
    char buf[65536];
    for (;;) {
        auto const n = read(fd[0], buf, sizeof buf);
        if (n > 0) { text.append(buf, static_cast<size_t>(n)); }
        else if (n == 0) { break; }
        else if (errno != EINTR) { break; }
    }
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    auto out = Outcome{};
    if (WIFSIGNALED(status) || WEXITSTATUS(status) != 0 || text.empty()) {
        out.status = Status::failure;
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) {
            out.msg = "does not terminate (cpu limit exceeded)";
        } else if (WIFSIGNALED(status)) {
            out.msg = std::string("crash: ") + strsignal(WTERMSIG(status));
        } else {
            out.msg = "crash: exit status " + std::to_string(WEXITSTATUS(status));
        }
        out.choices = choices;
        return out;
    }
    auto ss = std::istringstream(text);
    int st; size_t n;
    std::string line;
    std::getline(ss, line); st = std::stoi(line);
    std::getline(ss, out.known_id);
    std::getline(ss, line); n = std::stoul(line);
    out.status = Status(st);
    for (size_t i = 0; i < n; ++i) { unsigned long long c; ss >> c; out.choices.push_back(c); }
    ss.ignore(2);
    std::ostringstream rest; rest << ss.rdbuf(); out.msg = rest.str();
    while (!out.msg.empty() && out.msg[0] == '\n') { out.msg.erase(0, 1); }
    return out;
}

Outcome fork_eval(Choices const& choices, bool quiet = true) {
    auto out = fork_eval_once(choices, quiet);
    for (auto i = 1; i < property.repeats && out.status != Status::failure; ++i) { out = fork_eval_once(choices, quiet); }
    return out;
}

bool simpler(Choices const& a, Choices const& b) {
    if (a.size() != b.size()) { return a.size() < b.size(); }
    return a < b;
}

struct Shrinker {
    Choices best;
    std::string msg;
    int evals = 0;
    Clock::time_point deadline;

    bool out_of_budget() const { return evals > 3000 || Clock::now() > deadline; }

    bool attempt(Choices const& c) {
        if (out_of_budget()) { return false; }
        ++evals;
        auto const out = fork_eval(c);
        if (out.status != Status::failure) { return false; }
        auto reduced = out.choices;
        while (!reduced.empty() && reduced.back() == 0) { reduced.pop_back(); }
        auto const& candidate = simpler(reduced, c) ? reduced : c;
        if (!simpler(candidate, best)) { return false; }
        best = candidate;
        msg = out.msg;
        return true;
    }

    void run() {
        { auto c = best; while (!c.empty() && c.back() == 0) { c.pop_back(); } attempt(c); }
        auto improved = true;
        while (improved && !out_of_budget()) {
            improved = false;
            for (auto size = std::max<size_t>(1, best.size() / 2); size >= 1; size /= 2) {
                for (size_t i = 0; i + size <= best.size() && !out_of_budget();) {
                    auto c = best;
                    c.erase(c.begin() + long(i), c.begin() + long(i + size));
                    if (attempt(c)) { improved = true; } else { i += std::max<size_t>(1, size / 2); }
                }
            }
            for (size_t size : {16, 4, 1}) {
                for (size_t i = 0; i < best.size() && !out_of_budget(); i += size) {
                    auto c = best;
                    auto changed = false;
                    for (auto j = i; j < std::min(i + size, c.size()); ++j) {
                        changed = changed || c[j]; c[j] = 0;
                    }
                    if (changed && attempt(c)) { improved = true; }
                }
            }
            for (size_t i = 0; i < best.size() && !out_of_budget(); ++i) {
                while (i < best.size() && best[i] > 0 && !out_of_budget()) {
                    auto c = best;
                    c[i] /= 2;
                    if (attempt(c)) { improved = true; continue; }
                    c = best;
                    c[i] -= 1;
                    if (attempt(c)) { improved = true; continue; }
                    break;
                }
            }
        }
    }
};

struct Shared {
    volatile long current[64];
    volatile long failing[64];
    volatile int stop;
};

std::uint64_t hash_choices(Choices const& c) {
    auto h = std::uint64_t{1469598103934665603ull};
    for (auto v : c) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
    return h;
}

std::string describe(Choices const& choices) {
    // in a child, since the case may crash half way through
    int fd[2];
    if (pipe(fd) != 0) { return ""; }
    fflush(stdout); fflush(stderr);
    auto const pid = fork();
    if (pid == 0) {
        close(fd[0]);
        auto const dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1); dup2(dn, 2);
        static Ctx ctx;
        static int out_fd; out_fd = fd[1];
        static size_t sent; sent = 0;
        ctx.verbose = true;
        ctx.on_describe = [](std::string const& text) { // the case may crash later
            auto const end = std::min<size_t>(text.size(), 6000);
            while (sent < end) { auto const k = write(out_fd, text.data() + sent, end - sent); if (k <= 0) { break; } sent += size_t(k); }
        };
        auto src = Src(choices);
        run_case(src, ctx);
        ctx.on_describe(ctx.desc.str());
        _exit(0);
    }
    close(fd[1]);
    auto text = std::string();
    char buf[4096];
    long n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) { text.append(buf, size_t(n)); }
    close(fd[0]);
    int status; waitpid(pid, &status, 0);
    if (text.size() >= 6000) { text += "..."; }
    return text;
}

Choices read_choices(std::string const& path) {
    auto f = std::ifstream(path);
    std::ostringstream ss; ss << f.rdbuf();
    auto const text = ss.str();
    auto p = text.find("\"choices\"");
    if (p == std::string::npos) { fprintf(stderr, "no choices in %s\n", path.c_str()); exit(3); }
    p = text.find('[', p);
    auto const e = text.find(']', p);
    auto in = std::istringstream(text.substr(p + 1, e - p - 1));
    auto c = Choices();
    std::string tok;
    while (std::getline(in, tok, ',')) { c.push_back(std::stoull(tok)); }
    return c;
}

} // namespace

int main(int argc, char** argv) {
    auto seed = std::uint64_t{1};
    auto cases = 0L;
    auto jobs = 8;
    auto max_seconds = 0.0;
    auto share = 1l;
    auto out_path = std::string(), replay = std::string(), replay_dir = std::string(".");
    auto scratch = std::string("/tmp");
    for (int i = 1; i < argc; ++i) {
        auto const a = std::string(argv[i]);
        auto value = [&] { return std::string(argv[++i]); };
        if (a == "--seed") { seed = std::stoull(value()); }
        else if (a == "--cases") { cases = std::stol(value()); }
        else if (a == "--jobs") { jobs = std::stoi(value()); }
        else if (a == "--thorough") { g_thorough = true; }
        else if (a == "--share") { share = std::max(1l, std::stol(value())); }
        else if (a == "--seconds") { max_seconds = std::stod(value()); }
        else if (a == "--out") { out_path = value(); }
        else if (a == "--replay") { replay = value(); }
        else if (a == "--replay-dir") { replay_dir = value(); }
        else if (a == "--scratch") { scratch = value(); }
        else if (a == "--probe") { return 0; } // can it be started at all?
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    jobs = std::max(1, std::min(jobs, 60));

    if (!replay.empty()) {
        auto const choices = read_choices(replay);
        printf("%s\n", describe(choices).c_str());
        auto const out = fork_eval(choices, /*quiet*/false);
        if (out.status == Status::failure) {
            printf("FAILS: %s\n", out.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", property.id, replay.c_str());
            return 1;
        }
        printf("%s %s\n", out.status == Status::known ? "KNOWN" : "holds", out.msg.c_str());
        return 0;
    }

    auto const t0 = Clock::now();
    if (cases == 0) { cases = (g_thorough ? property.thorough_cases : property.quick_cases) / share + 1; }
    if (max_seconds == 0) { max_seconds = (g_thorough ? 600.0 : 150.0) / double(share); }
    auto elapsed = [&] { return std::chrono::duration<double>(Clock::now() - t0).count(); };

    auto* shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                             MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (auto w = 0; w < jobs; ++w) { shared->current[w] = -1; shared->failing[w] = -1; }
    auto const prefix = scratch + "/pbt." + std::to_string(getpid()) + ".";

    auto pids = std::vector<pid_t>();
    for (auto w = 0; w < jobs; ++w) {
        fflush(stdout); fflush(stderr);
        auto const pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (pid == 0) {
            auto const log_fd = open((prefix + std::to_string(w) + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(log_fd, 2);
            auto classes = std::map<std::string, long>();
            auto known = std::map<std::string, long>();
            auto hashes = std::unordered_set<std::uint64_t>();
            auto evaluated = 0L, discarded = 0L, nontrivial = 0L;
            auto samples = std::vector<Choices>();
            for (auto i = long(w); i < cases && !shared->stop; i += jobs) {
                if (elapsed() > max_seconds) { break; }
                shared->current[w] = i;
                auto src = Src(seed, std::uint64_t(i));
                auto ctx = Ctx();
                auto const out = run_case(src, ctx);
                if (out.status == Status::failure) {
                    shared->failing[w] = i;
                    shared->stop = 1;
                    break;
                }
                if (out.status == Status::discard) { ++discarded; continue; }
                ++evaluated;
                if (out.status == Status::known) { ++known[out.known_id]; }
                for (auto const& c : ctx.classes) { classes[c.first] += c.second ? 1 : 0; }
                if (ctx.nontrivial) {
                    ++nontrivial;
                    hashes.insert(hash_choices(out.choices));
                    if (samples.size() < 1) { samples.push_back(out.choices); }
                }
            }
            shared->current[w] = -1;
            auto f = std::ofstream(prefix + std::to_string(w));
            f << evaluated << ' ' << discarded << ' ' << nontrivial << '\n';
            f << classes.size() << '\n';
            for (auto const& c : classes) { f << c.second << ' ' << c.first << '\n'; }
            f << known.size() << '\n';
            for (auto const& c : known) { f << c.second << ' ' << c.first << '\n'; }
            f << samples.size() << '\n';
            for (auto const& c : samples) { f << c.size(); for (auto v : c) { f << ' ' << v; } f << '\n'; }
            f << hashes.size() << '\n';
            for (auto h : hashes) { f << h << '\n'; }
            f.close();
            _exit(0);
        }
        pids.push_back(pid);
    }

    auto failing = -1L;
    auto first_crash = std::string();
    for (auto k = 0; k < jobs; ++k) {
        int status = 0;
        auto const pid = wait(&status);
        auto const w = int(std::find(pids.begin(), pids.end(), pid) - pids.begin());
        if (w >= jobs) { continue; }
        if (WIFSIGNALED(status) || (WIFEXITED(status) && WEXITSTATUS(status) != 0)) {
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) { continue; } // out of memory: inconclusive
            shared->failing[w] = shared->current[w];
            shared->stop = 1;
        }
    }
    for (auto w = 0; w < jobs; ++w) {
        if (shared->failing[w] >= 0 && (failing < 0 || shared->failing[w] < failing)) { failing = shared->failing[w]; }
    }
    auto const search_seconds = elapsed();

    auto evaluated = 0L, discarded = 0L, nontrivial = 0L;
    auto classes = std::map<std::string, long>();
    auto known = std::map<std::string, long>();
    auto samples = std::vector<Choices>();
    auto hashes = std::unordered_set<std::uint64_t>();
    auto crash_log = std::string();
    for (auto w = 0; w < jobs; ++w) {
        auto const path = prefix + std::to_string(w);
        {
            auto f = std::ifstream(path);
            long a, b, c;
            if (f >> a >> b >> c) {
                evaluated += a; discarded += b; nontrivial += c;
                size_t n; std::string name; long v;
                f >> n; while (n--) { f >> v; std::getline(f, name); classes[name.substr(1)] += v; }
                f >> n; while (n--) { f >> v; std::getline(f, name); known[name.substr(1)] += v; }
                f >> n; while (n--) { size_t m; f >> m; auto cs = Choices(m); for (auto& x : cs) { f >> x; } samples.push_back(cs); }
                f >> n; std::uint64_t h; while (n--) { f >> h; hashes.insert(h); }
            }
        }
        if (failing >= 0 && shared->failing[w] == failing) {
            auto f = std::ifstream(path + ".log");
            std::ostringstream ss; ss << f.rdbuf();
            crash_log = ss.str().substr(0, 6000);
        }
        unlink(path.c_str());
        unlink((path + ".log").c_str());
    }

    auto violation = false, unreproduced = false;
    auto replay_path = std::string();
    if (failing >= 0) {
        // Regenerate the choices of the failing case. They are only known after a complete run,
        // so a crashing case is replayed from its random stream via a pre-recorded prefix.
        auto original = Choices();
        auto orig_msg = std::string();
        {
            // run in a child which logs every draw through shared memory
            auto const cap = size_t{8} << 20;
            auto* log = static_cast<std::uint64_t*>(mmap(nullptr, cap, PROT_READ | PROT_WRITE,
                                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            auto const pid = fork();
            if (pid == 0) {
                auto const dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1); dup2(dn, 2);
                auto src = Src(seed, std::uint64_t(failing));
                src.mirror_to(log, cap / 8);
                auto ctx = Ctx();
                run_case(src, ctx);
                _exit(0);
            }
            int status; waitpid(pid, &status, 0);
            original.assign(log + 1, log + 1 + log[0]);
            munmap(log, cap);
        }
        auto count_failures = [](Choices const& c, int n) {
            auto k = 0;
            for (auto i = 0; i < n; ++i) { k += fork_eval(c).status == Status::failure; }
            return k;
        };
        auto k = count_failures(original, 3);
        if (k == 0) { k = count_failures(original, 12); }
        if (k == 0) {
            unreproduced = true;
        } else {
            auto s = Shrinker{};
            s.best = original;
            s.msg = fork_eval(original).msg;
            s.deadline = Clock::now() + std::chrono::seconds(60);
            s.run();
            auto best = s.best;
            auto msg = s.msg;
            if (k >= 3 && count_failures(best, 3) < 3) { best = original; msg = fork_eval(original).msg; }
            violation = true;
            replay_path = replay_dir + "/" + property.id + ".seed" + std::to_string(seed) + (g_thorough ? ".thorough" : ".quick") + ".json";
            auto const text = describe(best);
            auto f = std::ofstream(replay_path);
            f << "{\"property\": \"" << property.id << "\", \"seed\": " << seed << ", \"case\": " << failing
              << ", \"message\": \"" << json_escape(msg) << "\", \"description\": \"" << json_escape(text)
              << "\", \"crash_log\": \"" << json_escape(crash_log) << "\", \"original_choices\": " << original.size()
              << ", \"thorough\": " << (g_thorough ? "true" : "false")
              << ", \"choices\": [";
            for (size_t i = 0; i < best.size(); ++i) { f << (i ? "," : "") << best[i]; }
            f << "]}\n";
            f.close();
            printf("Property %s fails (case %ld, shrunk from %zu to %zu choices in %d runs)\n%s\n%s\n%s\n",
                   property.id, failing, original.size(), best.size(), s.evals, text.c_str(), msg.c_str(), crash_log.c_str());
        }
    }

    auto out = std::ofstream(out_path.empty() ? "/dev/stdout" : out_path);
    out << "{\"evaluations\": " << evaluated << ", \"discarded\": " << discarded
        << ", \"nontrivial\": " << nontrivial << ", \"distinct_nontrivial\": " << hashes.size()
        << ", \"requested\": " << cases << ", \"search_seconds\": " << search_seconds
        << ", \"seed\": " << seed << ", \"rule\": \"" << json_escape(property.rule) << "\", \"classes\": {";
    auto first = true;
    for (auto const& c : classes) { out << (first ? "" : ", ") << '"' << json_escape(c.first) << "\": " << c.second; first = false; }
    out << "}, \"known\": {";
    first = true;
    for (auto const& c : known) { out << (first ? "" : ", ") << '"' << json_escape(c.first) << "\": " << c.second; first = false; }
    out << "}, \"assumptions\": [";
    first = true;
    for (auto const& c : property.assumptions) { out << (first ? "" : ", ") << '"' << json_escape(c) << '"'; first = false; }
    out << "], \"samples\": [";
    for (size_t i = 0; i < std::min<size_t>(samples.size(), 3); ++i) {
        auto text = describe(samples[i]);
        if (text.size() > 1500) { text.resize(1500); text += "..."; }
        out << (i ? ", " : "") << '"' << json_escape(text) << '"';
    }
    out << "], \"violation\": " << (violation ? "true" : "false")
        << ", \"unreproduced\": " << (unreproduced ? "true" : "false")
        << ", \"replay\": \"" << json_escape(replay_path) << "\"}\n";
    out.close();
    if (violation) {
        printf("VIOLATION property=%s replay=%s\n", property.id, replay_path.c_str());
        return 1;
    }
    return 0;
}
