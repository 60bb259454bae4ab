// Verification framework: deterministic, exhaustive enumeration of cases over the real code in forked workers,
// with shared counters, crash/hang isolation, replay artefacts, known findings and evidence.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf
{
    inline std::string fmt(const char* f, ...)
    {
        va_list ap;
        va_start(ap, f);
        va_list ap2;
        va_copy(ap2, ap);
        int n = vsnprintf(nullptr, 0, f, ap);
        va_end(ap);
        std::string s(static_cast<size_t>(n), '\0');
        vsnprintf(&s[0], static_cast<size_t>(n) + 1, f, ap2);
        va_end(ap2);
        return s;
    }

    inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        const unsigned char* c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; i++)
        {
            h ^= c[i];
            h *= 1099511628211ull;
        }
        return h ? h : 1;
    }
    inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull)
    {
        return fnv(s.data(), s.size(), h);
    }

    inline double now()
    {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
    }

    struct HashSet  // shared between processes, insert only
    {
        static const size_t   N = size_t{1} << 22;
        std::atomic<uint64_t> count;
        std::atomic<uint64_t> slot[N];
        bool                  insert(uint64_t h)
        {
            if (!h)
                h = 1;
            size_t i = (h * 0x9E3779B97F4A7C15ull) >> 42;
            for (size_t k = 0; k < 4096; k++, i = (i + 1) & (N - 1))
            {
                uint64_t v = slot[i].load(std::memory_order_relaxed);
                if (v == h)
                    return false;
                if (v == 0)
                {
                    uint64_t e = 0;
                    if (slot[i].compare_exchange_strong(e, h))
                    {
                        count++;
                        return true;
                    }
                    if (e == h)
                        return false;
                }
            }
            return false;  // full: under-report
        }
    };

    const int MAXV = 64;
    const int MAXW = 16;
    struct Shared
    {
        std::atomic<long> next_case;
        std::atomic<long> cases_done;
        std::atomic<long> evaluations;  // executions of the real code compared with the oracle
        std::atomic<long> transitions;  // steps of the real code
        std::atomic<long> comparisons;  // individual oracle comparisons
        std::atomic<int>  nviol;
        std::atomic<int>  nsample;
        std::atomic<long> counters[32];  // driver specific
        std::atomic<long> knownhit[64];  // occurrences of listed known findings
        struct
        {
            std::atomic<long>   idx;
            std::atomic<double> since;
            char                what[512];
        } w[MAXW];
        struct
        {
            std::atomic<int> ready;
            char             key[256];
            char             msg[3000];
            char             replay[256];
        } viol[MAXV];
        char    sample[8][1500];
        HashSet states;    // canonical observed states
        HashSet outcomes;  // distinct observed outcomes of whole executions
    };

    struct Ctx
    {
        std::string              prop;
        std::string              tier   = "quick";
        long                     seed   = 1;
        bool                     replay = false;
        std::string              replay_case;
        std::string              verif = "/verif";
        Shared*                  sh    = nullptr;
        int                      worker = -1;
        std::string              cur_case;
        std::vector<std::string> assumptions;
        std::vector<std::string> counter_names;
        double                   t0 = 0;
        std::string              scratch;  // removed at exit
        bool                     capped = false;
        std::string              bounds;
        bool                     thorough() const
        {
            return tier == "thorough";
        }
    };
    inline Ctx& C()
    {
        static Ctx c;
        return c;
    }

    inline void eval(long n = 1)
    {
        C().sh->evaluations += n;
    }
    inline void step(long n = 1)
    {
        C().sh->transitions += n;
    }
    inline void state(uint64_t h)
    {
        C().sh->states.insert(h);
    }
    inline void state(const std::string& s)
    {
        C().sh->states.insert(fnv(s));
    }
    inline void outcome(const std::string& s)
    {
        C().sh->outcomes.insert(fnv(s));
    }
    inline void cmp(long n = 1)
    {
        C().sh->comparisons += n;
    }
    inline void count(const std::string& name, long n = 1)
    {
        auto& v = C().counter_names;
        for (size_t i = 0; i < v.size(); i++)
            if (v[i] == name)
            {
                C().sh->counters[i] += n;
                return;
            }
        abort();
    }
    inline void sample(const std::string& s)
    {
        int k = C().sh->nsample.fetch_add(1);
        if (k < 8)
            snprintf(C().sh->sample[k], sizeof(C().sh->sample[k]), "%s", s.c_str());
    }
    // describe what this worker does now: survives a crash, goes to the replay file
    inline void doing(const std::string& s)
    {
        if (C().worker >= 0)
            snprintf(C().sh->w[C().worker].what, sizeof(C().sh->w[0].what), "%s", s.c_str());
    }

    struct Known
    {
        std::string key, text;
    };
    inline const std::vector<Known>& known();
    // returns true when this is a listed known finding (the exploration then goes on)
    inline bool violation(const std::string& key, const std::string& msg, const std::string& detail = "")
    {
        for (size_t i = 0; i < known().size() && i < 64; i++)
            if (known()[i].key == key)
            {
                C().sh->knownhit[i]++;
                return true;
            }
        int k = C().sh->nviol.fetch_add(1);
        if (C().replay)
        {
            printf("REPLAY-VIOLATION key=%s\n%s\n%s\n", key.c_str(), msg.c_str(), detail.c_str());
            fflush(stdout);
        }
        if (k >= MAXV)
            return false;
        auto& v = C().sh->viol[k];
        snprintf(v.key, sizeof(v.key), "%s", key.c_str());
        snprintf(v.msg, sizeof(v.msg), "%s", msg.c_str());
        std::string dir = C().verif + "/replays";
        mkdir(dir.c_str(), 0755);
        snprintf(v.replay, sizeof(v.replay), "%s/%s-%d.txt", dir.c_str(), C().prop.c_str(), k);
        std::ofstream f(v.replay);
        f << "property: " << C().prop << "\ncase: " << C().cur_case << "\nkey: " << key << "\n\n" << msg << "\n\n" << detail << "\n";
        f.close();
        v.ready = 1;
        return false;
    }

    inline bool give_up()  // enough violations collected
    {
        static const int limit = getenv("VF_MAXVIOL") ? atoi(getenv("VF_MAXVIOL")) : 40;
        return C().sh->nviol > limit;
    }

    struct Case
    {
        std::string           name;
        std::function<void()> fn;
    };

    inline std::string json_str(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                o += '\\';
                o += static_cast<char>(c);
            }
            else if (c == '\n')
                o += "\\n";
            else if (c < 32 || c > 126)
                o += fmt("\\u%04x", c);
            else
                o += static_cast<char>(c);
        }
        return o + "\"";
    }

    inline void init(int argc, char** argv, const char* prop, std::vector<std::string> counters = {})
    {
        Ctx& c = C();
        c.prop = prop;
        c.t0   = now();
        if (getenv("VERIF_TIER"))
            c.tier = getenv("VERIF_TIER");
        if (getenv("VERIF_SEED"))
            c.seed = atol(getenv("VERIF_SEED"));
        if (getenv("VERIF_DIR"))
            c.verif = getenv("VERIF_DIR");
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            if (a == "--tier" && i + 1 < argc)
                c.tier = argv[++i];
            else if (a == "--prop" && i + 1 < argc)
                c.prop = argv[++i];
            else if (a == "--case" && i + 1 < argc)
            {
                c.replay      = true;
                c.replay_case = argv[++i];
            }
        }
        if (c.tier != "thorough")
            c.tier = "quick";
        c.counter_names = counters;
        known();
        c.sh            = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        char tmpl[]     = "/tmp/vfXXXXXX";
        c.scratch       = mkdtemp(tmpl);
        if (chdir(c.scratch.c_str()) != 0)
            abort();
    }

    inline void silence()
    {
        fflush(stdout);
        if (C().replay && getenv("VF_VERBOSE"))
            return;
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        if (!getenv("VF_STDERR"))
            dup2(fd, 2);
        close(fd);
    }

    // Runs fn in a forked child. Returns 0: ended normally; >0: killed by that signal; -1: timeout; -2: exited non-zero.
    inline int isolated(const std::function<void()>& fn, double timeout_s = 60)
    {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0)
        {
            fn();
            fflush(stdout);
            _exit(0);
        }
        double t0 = now();
        int    st = 0;
        int    spin = 0;
        while (true)
        {
            pid_t r = waitpid(p, &st, spin < 1 && timeout_s > 1e6 ? 0 : WNOHANG);
            if (r == p)
                break;
            if (now() - t0 > timeout_s)
            {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                return -1;
            }
            if (++spin > 50)
                usleep(200);
            else
                sched_yield();
        }
        if (WIFSIGNALED(st))
            return WTERMSIG(st);
        return WEXITSTATUS(st) == 0 ? 0 : -2;
    }

    // Explore all cases on all cores. A crash or hang of the code under test is itself a violation.
    inline void run(const std::vector<Case>& cases, double case_timeout = 120, bool stop_on_violation = true)
    {
        Ctx& c = C();
        if (c.replay)
        {
            for (auto& k : cases)
                if (k.name == c.replay_case)
                {
                    c.cur_case = k.name;
                    int saved  = dup(1);
                    int r = isolated(
                        [&]()
                        {
                            silence();
                            k.fn();
                        },
                        600);
                    dup2(saved, 1);
                    if (r != 0)
                        violation("crash:" + k.name, fmt("case %s ended abnormally (%d)", k.name.c_str(), r));
                }
            return;
        }
        long n = static_cast<long>(cases.size());
        c.sh->next_case = 0;
        int                nw = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
        nw                    = nw > 8 ? 8 : nw;
        std::vector<pid_t> pid(static_cast<size_t>(nw), 0);
        fflush(stdout);
        auto start = [&](int w)
        {
            pid_t p = fork();
            if (p == 0)
            {
                c.worker = w;
                silence();
                std::string d = c.scratch + fmt("/w%d", w);
                mkdir(d.c_str(), 0755);
                if (chdir(d.c_str()) != 0)
                    _exit(99);
                while (true)
                {
                    if (stop_on_violation && give_up())
                        break;
                    long i = c.sh->next_case.fetch_add(1);
                    if (i >= n)
                        break;
                    c.cur_case           = cases[static_cast<size_t>(i)].name;
                    c.sh->w[w].since     = now();
                    c.sh->w[w].what[0]   = 0;
                    c.sh->w[w].idx       = i;
                    cases[static_cast<size_t>(i)].fn();
                    c.sh->w[w].idx = -1;
                    c.sh->cases_done++;
                }
                c.sh->w[w].idx = -1;
                _exit(0);
            }
            pid[static_cast<size_t>(w)] = p;
        };
        for (int w = 0; w < nw; w++)
        {
            c.sh->w[w].idx = -1;
            start(w);
        }
        int alive = nw;
        while (alive > 0)
        {
            int   st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0)
            {
                for (int w = 0; w < nw; w++)
                    if (pid[static_cast<size_t>(w)] == p)
                    {
                        long i = c.sh->w[w].idx;
                        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                        {
                            pid[static_cast<size_t>(w)] = 0;
                            alive--;
                        }
                        else
                        {
                            c.cur_case = i >= 0 ? cases[static_cast<size_t>(i)].name : "?";
                            std::string how = WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st)) : fmt("exit %d", WEXITSTATUS(st));
                            violation("crash:" + c.cur_case,
                                      "the code under test ended the process (" + how + ") in case " + c.cur_case,
                                      c.sh->w[w].what);
                            c.sh->w[w].idx = -1;
                            if (give_up())
                            {
                                pid[static_cast<size_t>(w)] = 0;
                                alive--;
                            }
                            else
                                start(w);
                        }
                    }
                continue;
            }
            for (int w = 0; w < nw; w++)
            {
                long i = c.sh->w[w].idx;
                if (pid[static_cast<size_t>(w)] && i >= 0 && now() - c.sh->w[w].since > case_timeout)
                {
                    kill(pid[static_cast<size_t>(w)], SIGKILL);
                    waitpid(pid[static_cast<size_t>(w)], &st, 0);
                    c.sh->w[w].idx = -1;
                    c.cur_case     = cases[static_cast<size_t>(i)].name;
                    std::string what = c.sh->w[w].what;
                    // once more, alone, with a longer limit, before calling it a hang
                    int r = isolated(
                        [&]()
                        {
                            silence();
                            cases[static_cast<size_t>(i)].fn();
                        },
                        3 * case_timeout);
                    if (r != 0)
                        violation("hang:" + c.cur_case, fmt("case %s did not end within %.0f s", c.cur_case.c_str(), 3 * case_timeout), what);
                    start(w);
                }
            }
            usleep(2000);
        }
    }

    // known_findings.txt: lines "known: property=<id> key=<key> <text>" (blanks in a key are written as _)
    inline const std::vector<Known>& known()
    {
        static std::vector<Known> v;
        static bool               done = false;
        if (done)
            return v;
        done = true;
        std::ifstream f(C().verif + "/known_findings.txt");
        std::string   l, pre = "known: property=" + C().prop + " key=";
        while (std::getline(f, l))
            if (l.compare(0, pre.size(), pre) == 0)
            {
                std::string r = l.substr(pre.size());
                size_t      p = r.find(' ');
                v.push_back({r.substr(0, p), p == std::string::npos ? "" : r.substr(p + 1)});
            }
        return v;
    }

    inline int finish(const std::string& bounds, std::vector<std::string> assumptions = {}, bool exhaustive = true)
    {
        Ctx& c = C();
        if (chdir("/") != 0)
        {
        }
        if (c.scratch.compare(0, 7, "/tmp/vf") == 0)
        {
            std::string cmd = "rm -rf '" + c.scratch + "'";
            if (system(cmd.c_str()) != 0)
            {
            }
        }
        if (c.replay)
        {
            printf("replayed case %s: %d violation(s), %ld evaluations\n", c.replay_case.c_str(), c.sh->nviol.load(), c.sh->evaluations.load());
            return c.sh->nviol ? 1 : 0;
        }
        int         bad = 0;
        std::string first;
        for (size_t i = 0; i < known().size() && i < 64; i++)
            if (c.sh->knownhit[i])
                printf("KNOWN-FINDING: property=%s %s %s\n", c.prop.c_str(), known()[i].key.c_str(), known()[i].text.c_str());
        for (int i = 0; i < c.sh->nviol && i < MAXV; i++)
        {
            auto& v = c.sh->viol[i];
            bad++;
            if (bad <= 5)
                printf("violation %s: %s\n", v.key, v.msg);
            if (first.empty())
                first = v.replay;
        }
        if (c.sh->nviol > MAXV)
            bad++;
        double      wall = now() - c.t0;
        std::string j    = "{\n";
        j += " \"property\": " + json_str(c.prop) + ",\n \"tier\": " + json_str(c.tier) + fmt(",\n \"seed\": %ld,\n", c.seed);
        j += " \"level\": \"model_checking\",\n \"coverage\": {\n";
        j += fmt("  \"states\": %llu,\n", static_cast<unsigned long long>(c.sh->states.count.load()));
        j += fmt("  \"transitions\": %ld,\n", c.sh->transitions.load());
        j += fmt("  \"traces_validated_against_impl\": %ld,\n", c.sh->evaluations.load());
        j += fmt("  \"oracle_comparisons\": %ld,\n", c.sh->comparisons.load());
        j += fmt("  \"distinct_outcomes\": %llu,\n", static_cast<unsigned long long>(c.sh->outcomes.count.load()));
        j += fmt("  \"configurations\": %ld,\n", c.sh->cases_done.load());
        for (size_t i = 0; i < c.counter_names.size(); i++)
            j += "  " + json_str(c.counter_names[i]) + fmt(": %ld,\n", c.sh->counters[i].load());
        j += std::string("  \"exhaustive\": ") + (exhaustive && !c.capped && bad == 0 ? "true" : "false") + ",\n";
        j += "  \"bounds\": " + json_str(bounds) + ",\n  \"samples\": [";
        int ns = c.sh->nsample;
        for (int i = 0; i < ns && i < 8; i++)
            j += (i ? ", " : "") + json_str(c.sh->sample[i]);
        j += "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); i++)
            j += (i ? ", " : "") + json_str(assumptions[i]);
        j += fmt("],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, bad);
        mkdir((c.verif + "/evidence").c_str(), 0755);
        std::ofstream(c.verif + "/evidence/" + c.prop + ".json") << j;
        printf("%s %s: configurations=%ld executions=%ld steps=%ld states=%llu outcomes=%llu comparisons=%ld wall=%.1fs\n",
               c.prop.c_str(),
               c.tier.c_str(),
               c.sh->cases_done.load(),
               c.sh->evaluations.load(),
               c.sh->transitions.load(),
               static_cast<unsigned long long>(c.sh->states.count.load()),
               static_cast<unsigned long long>(c.sh->outcomes.count.load()),
               c.sh->comparisons.load(),
               wall);
        for (size_t i = 0; i < c.counter_names.size(); i++)
            printf("  %s=%ld\n", c.counter_names[i].c_str(), c.sh->counters[i].load());
        if (bad)
        {
            printf("VIOLATION property=%s replay=%s\n", c.prop.c_str(), first.empty() ? "none" : first.c_str());
            return 1;
        }
        // vacuity guard: an exploration that compared nothing has decided nothing
        if (c.sh->comparisons == 0 || c.sh->evaluations == 0)
        {
            fprintf(stderr, "vacuous exploration\n");
            return 3;
        }
        return 0;
    }
}  // namespace vf
