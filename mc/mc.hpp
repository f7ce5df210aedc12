// Small explicit-enumeration model-checking driver.
//
// A property binary defines
//     namespace harness { static mc::Info info(); }            what it is, its level, its rule
//     namespace harness { static void explore(mc::Ctx &c); }   the complete enumeration
// and ends with MC_MAIN. explore() runs once in each of N forked shards; a shard executes the cases whose number is its
// own modulo N. A case that crashes, aborts, throws or hangs is a violation of its own and the shard goes on behind it.
// Nothing is sampled: the same numbering is produced on every run and every case is executed exactly once, unless a cap
// is hit, in which case "exhaustive" is false in the evidence.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <bits/stdc++.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
    using u64 = uint64_t;

    inline u64 mix(u64 x) {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }

    inline u64 hash(const void *p, size_t n, u64 h = 1469598103934665603ull) {
        auto b = static_cast<const unsigned char *>(p);
        for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
        return mix(h);
    }

    inline u64 hash(const std::string &s, u64 h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

    inline u64 hash(const std::vector<float> &v, u64 h = 1469598103934665603ull) {
        return hash(v.data(), v.size() * sizeof(float), h ^ v.size());
    }

    struct Info {
        std::string id;
        std::string level = "model_checking";
        std::string rule;                       // how cases are made, what a state / transition is
        std::vector<std::string> assumptions;
        std::vector<std::string> bounds_quick, bounds_thorough;
        double case_timeout = 20;               // seconds without progress before a case counts as a hang
        double deadline_quick = 600, deadline_thorough = 820;
        int shards = 8;
        bool limit_memory = true;
    };

    // printable form of a string
    inline std::string show(const std::string &s) {
        std::string r = "\"";
        for (unsigned char ch: s) {
            if (ch == '\n') r += "\\n";
            else if (ch == '\r') r += "\\r";
            else if (ch == '\t') r += "\\t";
            else if (ch == '"') r += "\\\"";
            else if (ch == '\\') r += "\\\\";
            else if (ch < 32 || ch >= 127) {
                char b[8];
                snprintf(b, sizeof b, "\\x%02x", ch);
                r += b;
            } else r += (char) ch;
        }
        return r + "\"";
    }

    inline std::string show(const std::vector<std::string> &v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + show(v[i]);
        return r + "]";
    }

    inline std::string show(float f) {
        char b[40];
        snprintf(b, sizeof b, "%.9g", f);
        return b;
    }

    inline std::string show(double f) {
        char b[40];
        snprintf(b, sizeof b, "%.17g", f);
        return b;
    }

    inline std::string show(const std::vector<float> &v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + show(v[i]);
        return r + "]";
    }

    inline std::string json(const std::string &s) {
        std::string r = "\"";
        for (unsigned char ch: s) {
            if (ch == '"' || ch == '\\') {
                r += '\\';
                r += (char) ch;
            } else if (ch == '\n') r += "\\n";
            else if (ch == '\t') r += "\\t";
            else if (ch < 32 || ch >= 127) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", ch);
                r += b;
            } else r += (char) ch;
        }
        return r + "\"";
    }

    struct Shared {
        volatile u64 case_no;       // last case started
        volatile u64 beat;          // progress
        volatile u64 cases, transitions, traces, capped, done;
        volatile u64 enumerated;    // cases this shard has counted, its own and those of others
        char desc[8192];
    };

    // Thrown by fail_stop to end one case.
    struct StopCase {};

    class Ctx {
    public:
        bool thorough = false;
        int shard = 0, shards = 1;
        u64 resume_after = 0;        // skip cases up to this number (inclusive)
        long long only = -1;         // run only this case
        Shared *sh = nullptr;
        std::string dir;             // this shard's own directory; the working directory is dir + "/w"
        double deadline = 1e18;
        int seed = 1;

        // ---- cases
        u64 enumerated() const { return counter; }

        bool take() {
            u64 n = ++counter;
            if (only >= 0) {
                if (n != (u64) only) return false;
            } else {
                if ((int) (n % shards) != shard) return false;
                if (n <= resume_after) return false;
                if (over()) return false;
            }
            sh->case_no = n;
            sh->beat = sh->beat + 1;
            sh->cases = sh->cases + 1;
            sh->desc[0] = 0;
            return true;
        }

        bool over() {
            if (stopped) return true;
            if ((++deadline_poll & 63) == 0 || deadline_poll < 4) {
                if (now() > deadline) {
                    stopped = true;
                    sh->capped = 1;
                }
            }
            return stopped;
        }

        void desc(const std::string &s) {
            size_t n = std::min(s.size(), sizeof(sh->desc) - 1);
            memcpy(sh->desc, s.data(), n);
            sh->desc[n] = 0;
            sh->beat = sh->beat + 1;
            if (samples.size() < 2 || (samples.size() < 6 && (sh->cases & (sh->cases - 1)) == 0)) samples.push_back(s);
        }

        std::string desc() const { return sh->desc; }

        bool begin(const std::string &s) {
            if (!take()) return false;
            desc(s);
            return true;
        }

        // run one case body; an escaping exception is a violation
        template<class F>
        void run(F f) {
            try { f(); }
            catch (StopCase &) {}
            catch (std::exception &e) { fail("exception", std::string("escaped: ") + e.what()); }
            catch (const char *e) { fail("exception", std::string("escaped: ") + e); }
            catch (std::string &e) { fail("exception", std::string("escaped: ") + e); }
            catch (...) { fail("exception", "escaped: unknown"); }
        }

        // ---- measures
        void beat() { sh->beat = sh->beat + 1; }

        void state(u64 h) {
            beat();
            if (states.size() < state_cap) {
                if (states.insert(h).second) {
                    pending.push_back(h);
                    if (pending.size() >= 4096) flush_states();
                }
            } else sh->capped = 1;
        }

        void transition(u64 n = 1) { sh->transitions = sh->transitions + n; sh->beat = sh->beat + 1; }

        void trace(u64 n = 1) { sh->traces = sh->traces + n; }

        void count(const std::string &what, u64 n = 1) { counts[what] += n; }

        // ---- violations
        // cls: which clause of the property; the identity of the violation is "cls @ description of the case"
        void fail(const std::string &cls, const std::string &detail) { fail_key(cls + " @ " + desc(), detail); }

        void fail_key(const std::string &key, const std::string &detail) {
            if (!seen_keys.insert(key).second) return;
            n_fail++;
            if (n_fail > 400) {
                if (n_fail == 401) sh->capped = 1;
                stopped = true;
                return;
            }
            std::string line = std::to_string(sh->case_no) + "\t" + esc(key) + "\t" + esc(detail) + "\n";
            int fd = open((dir + "/violations").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
            if (fd >= 0) {
                (void) !write(fd, line.data(), line.size());
                close(fd);
            }
        }

        bool check(bool ok, const char *cls, const std::string &detail) {
            if (!ok) fail(cls, detail);
            return ok;
        }

        [[noreturn]] void fail_stop(const std::string &cls, const std::string &detail) {
            fail(cls, detail);
            throw StopCase();
        }

        // ---- scratch
        // a fresh empty directory below the shard's directory; the previous one of that name is removed
        std::string fresh(const std::string &name) {
            std::string p = dir + "/" + name;
            std::error_code ec;
            std::filesystem::remove_all(p, ec);
            std::filesystem::create_directories(p, ec);
            return p;
        }

        static std::string esc(const std::string &s) {
            std::string r;
            for (char ch: s) {
                if (ch == '\n') r += "\\n";
                else if (ch == '\t') r += "\\t";
                else if (ch == '\r') r += "\\r";
                else if (ch == '\0') r += "\\0";
                else r += ch;
            }
            return r;
        }

        static double now() {
            timespec t{};
            clock_gettime(CLOCK_MONOTONIC, &t);
            return t.tv_sec + t.tv_nsec * 1e-9;
        }

        void flush_states() {
            if (pending.empty()) return;
            int fd = open((dir + "/states").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
            if (fd >= 0) {
                (void) !write(fd, pending.data(), pending.size() * sizeof(u64));
                close(fd);
            }
            pending.clear();
        }

        void finish() {
            flush_states();
            std::ofstream o(dir + "/counts", std::ios::app);
            for (auto &k: counts) o << k.second << "\t" << esc(k.first) << "\n";
            std::ofstream s(dir + "/samples", std::ios::app);
            for (auto &k: samples) s << esc(k) << "\n";
        }

        u64 counter = 0;
    private:
        bool stopped = false;
        u64 deadline_poll = 0;
        u64 n_fail = 0;
        size_t state_cap = 12000000;
        std::unordered_set<u64> states;
        std::vector<u64> pending;
        std::map<std::string, u64> counts;
        std::vector<std::string> samples;
        std::unordered_set<std::string> seen_keys;
    };

    // Depth-first enumeration of nondeterministic choices: while (c.more()) { body calls c.pick(n) ...; }
    class Choices {
    public:
        bool more() {
            if (first) {
                first = false;
                pos = 0;
                return true;
            }
            while (!stack.empty() && stack.back().first + 1 >= stack.back().second) stack.pop_back();
            if (stack.empty()) return false;
            stack.back().first++;
            pos = 0;
            return true;
        }

        int pick(int n) {
            if (n <= 1) return 0;
            if (pos < stack.size()) {
                if (stack[pos].second != n) {
                    fprintf(stderr, "mc: divergence while replaying a prefix\n");
                    abort();
                }
                return stack[pos++].first;
            }
            stack.push_back({0, n});
            pos++;
            return 0;
        }

        std::string str() const {
            std::string r = "<";
            for (size_t i = 0; i < stack.size(); i++) r += (i ? "," : "") + std::to_string(stack[i].first);
            return r + ">";
        }

    private:
        bool first = true;
        size_t pos = 0;
        std::vector<std::pair<int, int>> stack;
    };

    // all sequences over {0..k-1} of length n
    template<class F>
    void sequences(int k, int n, F f) {
        std::vector<int> v(n, 0);
        while (true) {
            f(v);
            int i = n - 1;
            while (i >= 0 && v[i] == k - 1) v[i--] = 0;
            if (i < 0) break;
            v[i]++;
        }
    }

    // all strings over an alphabet with length lo..hi, shortest first
    template<class F>
    void strings(const std::vector<std::string> &alphabet, int lo, int hi, F f) {
        for (int n = lo; n <= hi; n++)
            sequences((int) alphabet.size(), n, [&](const std::vector<int> &v) {
                std::string s;
                for (int i: v) s += alphabet[i];
                f(s);
            });
    }

    inline std::string slurp(const std::string &p) {
        std::ifstream i(p, std::ios::binary);
        std::stringstream s;
        s << i.rdbuf();
        return s.str();
    }

    inline void spit(const std::string &p, const std::string &d) {
        std::ofstream o(p, std::ios::binary | std::ios::trunc);
        o << d;
    }

    inline std::vector<std::string> tree(const std::string &root) {
        std::vector<std::string> r;
        std::error_code ec;
        if (!std::filesystem::exists(root, ec)) return r;
        for (auto &e: std::filesystem::recursive_directory_iterator(root, ec))
            r.push_back(std::filesystem::relative(e.path(), root).string() + (e.is_directory() ? "/" : ""));
        std::sort(r.begin(), r.end());
        return r;
    }

    struct Violation {
        u64 case_no;
        std::string key, detail;
    };

    inline void quiet_output() {
        if (getenv("MC_DEBUG")) return;
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 0);
        dup2(fd, 1);
        dup2(fd, 2);
        if (fd > 2) close(fd);
    }

    // ends the process with status 3 when an exception escapes explore() itself
    template<class F>
    [[noreturn]] void child_main(Ctx &c, const Info &in, F explore) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        std::error_code ec;
        std::filesystem::create_directories(c.dir + "/w", ec);
        if (chdir((c.dir + "/w").c_str()) != 0) _exit(99);
        quiet_output();
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        if (in.limit_memory) {
            rlimit as{(rlim_t) 3500 << 20, (rlim_t) 3500 << 20};
            setrlimit(RLIMIT_AS, &as);
        }
        signal(SIGPIPE, SIG_IGN);
        try {
            explore(c);
        } catch (StopCase &) {
        } catch (std::exception &e) {
            c.fail("exception", std::string("escaped: ") + e.what());
            c.flush_states();
            _exit(3);
        } catch (...) {
            c.fail("exception", "escaped: unknown");
            c.flush_states();
            _exit(3);
        }
        c.finish();
        c.sh->enumerated = c.enumerated();
        c.sh->done = 1;
        _exit(0);
    }

    template<class F>
    int main_impl(int argc, char **argv, const Info &in, F explore) {
        std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
        std::string verif = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
        long long only = -1;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            if (a == "--tier" && i + 1 < argc) tier = argv[++i];
            else if (a == "--case" && i + 1 < argc) only = atoll(argv[++i]);
        }
        int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
        double t0 = Ctx::now();
        char tmpl[32] = "/dev/shm/mcXXXXXX";
        if (access("/dev/shm", W_OK) != 0 || !mkdtemp(tmpl)) strcpy(tmpl, "/tmp/mcXXXXXX");
        if (strncmp(tmpl, "/tmp", 4) == 0 && !mkdtemp(tmpl)) {
            perror("mkdtemp");
            return 2;
        }
        std::string root = tmpl;
        int shards = only >= 0 ? 1 : in.shards;
        auto *shm = (Shared *) mmap(nullptr, sizeof(Shared) * (shards + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        double deadline = t0 + (tier == "thorough" ? in.deadline_thorough : in.deadline_quick);
        std::vector<Violation> viol;
        bool incomplete = false;
        std::vector<std::string> errors;

        auto make = [&](int s, u64 resume, long long one) {
            Ctx c;
            c.thorough = tier == "thorough";
            c.shard = s;
            c.shards = shards;
            c.resume_after = resume;
            c.only = one;
            c.sh = &shm[s];
            c.dir = root + "/s" + std::to_string(s);
            c.deadline = deadline;
            c.seed = seed;
            return c;
        };
        struct S {
            pid_t pid = 0;
            u64 beat = 0;
            double since = 0;
            int crashes = 0;
            bool running = false;
        };
        auto launch = [&](int s, u64 resume, long long one) {
            fflush(nullptr);
            shm[s].done = 0;
            pid_t p = fork();
            if (p == 0) {
                Ctx c = make(s, resume, one);
                child_main(c, in, explore);
            }
            return p;
        };
        // runs one case alone; returns "" when it passes, else how it ended
        auto rerun = [&](u64 n) {
            int s = shards;
            memset((void *) &shm[s], 0, sizeof(Shared));
            fflush(nullptr);
            pid_t p = fork();
            if (p == 0) {
                Ctx c = make(s, 0, (long long) n);
                c.deadline = 1e18;
                c.shards = 1;
                child_main(c, in, explore);
            }
            double st = Ctx::now();
            while (true) {
                int w;
                pid_t r = waitpid(p, &w, WNOHANG);
                if (r == p) {
                    kill(-p, SIGKILL);
                    if (WIFEXITED(w) && WEXITSTATUS(w) == 0) return std::string();
                    if (WIFSIGNALED(w)) return "crash (signal " + std::to_string(WTERMSIG(w)) + ")";
                    return "abnormal exit " + std::to_string(WEXITSTATUS(w));
                }
                if (Ctx::now() - st > in.case_timeout * 4 + 30) {
                    kill(-p, SIGKILL);
                    waitpid(p, &w, 0);
                    return std::string("hang");
                }
                usleep(20000);
            }
        };

        std::vector<S> sh(shards);
        for (int s = 0; s < shards; s++) {
            sh[s].pid = launch(s, 0, only);
            sh[s].running = true;
            sh[s].since = Ctx::now();
        }
        int running = shards;
        std::vector<std::pair<u64, Violation>> deaths;
        while (running > 0) {
            usleep(10000);
            for (int s = 0; s < shards; s++) {
                if (!sh[s].running) continue;
                int w;
                pid_t r = waitpid(sh[s].pid, &w, WNOHANG);
                std::string how;
                if (r == sh[s].pid) {
                    kill(-sh[s].pid, SIGKILL);
                    if (WIFEXITED(w) && WEXITSTATUS(w) == 0 && shm[s].done) {
                        sh[s].running = false;
                        running--;
                        continue;
                    }
                    if (WIFSIGNALED(w)) how = "crash (signal " + std::to_string(WTERMSIG(w)) + ")";
                    else if (WEXITSTATUS(w) == 3) how = "exception";
                    else how = "abnormal exit " + std::to_string(WEXITSTATUS(w));
                } else {
                    double t = Ctx::now();
                    if (shm[s].beat != sh[s].beat) {
                        sh[s].beat = shm[s].beat;
                        sh[s].since = t;
                        continue;
                    } else if (t - sh[s].since > in.case_timeout) {
                        kill(-sh[s].pid, SIGKILL);
                        waitpid(sh[s].pid, &w, 0);
                        how = "hang";
                    } else continue;
                }
                u64 n = shm[s].case_no;
                std::string d(shm[s].desc, strnlen(shm[s].desc, sizeof(shm[s].desc)));
                if (how != "exception") deaths.push_back({n, Violation{n, Ctx::esc(how + " @ " + d), how}});
                sh[s].crashes++;
                if (sh[s].crashes >= 12 || only >= 0 || n == 0) {
                    incomplete = true;
                    if (n == 0) errors.push_back("shard ended before its first case: " + how);
                    sh[s].running = false;
                    running--;
                } else {
                    sh[s].pid = launch(s, n, -1);
                    sh[s].since = Ctx::now();
                }
            }
        }
        // replay before report
        int replays = 0;
        for (auto &d: deaths) {
            if (only >= 0 || replays >= 6) {
                viol.push_back(d.second);
                continue;
            }
            replays++;
            std::string again = rerun(d.first);
            if (!again.empty()) {
                d.second.detail += "; replayed alone: " + again;
                viol.push_back(d.second);
            } else if (d.second.detail.rfind("hang", 0) == 0 || d.second.detail.find("signal 9") != std::string::npos) {
                // a slow machine or a process ended from outside: the case passes on its own
            } else {
                d.second.detail += "; only after the preceding cases of its shard";
                viol.push_back(d.second);
            }
        }
        // gather
        u64 cases = 0, transitions = 0, traces = 0;
        std::vector<u64> st;
        std::map<std::string, u64> counts;
        std::vector<std::string> samples;
        for (int s = 0; s < shards; s++) {
            cases += shm[s].cases;
            transitions += shm[s].transitions;
            traces += shm[s].traces;
            if (shm[s].capped) incomplete = true;
        }
        for (int s = 0; s <= shards; s++) {
            std::string d = root + "/s" + std::to_string(s);
            std::ifstream v(d + "/violations");
            std::string line;
            while (std::getline(v, line)) {
                size_t a = line.find('\t'), b = line.find('\t', a + 1);
                if (a == std::string::npos || b == std::string::npos) continue;
                viol.push_back({strtoull(line.c_str(), nullptr, 10), line.substr(a + 1, b - a - 1), line.substr(b + 1)});
            }
            if (s == shards) continue;
            std::string bin = slurp(d + "/states");
            size_t k = st.size();
            st.resize(k + bin.size() / sizeof(u64));
            memcpy(st.data() + k, bin.data(), bin.size() / sizeof(u64) * sizeof(u64));
            std::ifstream cn(d + "/counts");
            while (std::getline(cn, line)) {
                size_t a = line.find('\t');
                counts[line.substr(a + 1)] += strtoull(line.c_str(), nullptr, 10);
            }
            std::ifstream sa(d + "/samples");
            while (std::getline(sa, line)) if (samples.size() < 16) samples.push_back(line);
        }
        std::sort(st.begin(), st.end());
        st.erase(std::unique(st.begin(), st.end()), st.end());
        {
            std::set<std::string> k;
            std::vector<Violation> u;
            std::sort(viol.begin(), viol.end(), [](const Violation &a, const Violation &b) { return a.case_no < b.case_no; });
            for (auto &v: viol) if (k.insert(v.key).second) u.push_back(v);
            viol = u;
        }
        // every shard must have counted the same cases, and together they must have run all of them
        if (only < 0 && !incomplete && deaths.empty() && viol.empty())
            for (int s = 0; s < shards; s++)
                if (shm[s].enumerated != cases)
                    errors.push_back("shard " + std::to_string(s) + " counted " + std::to_string(shm[s].enumerated) + " cases, but " + std::to_string(cases) + " were run");
        // known findings
        std::set<std::string> known;
        {
            std::ifstream f(verif + "/known_findings.txt");
            std::string line, pre = "known: property=" + in.id + " key=";
            while (std::getline(f, line)) if (line.rfind(pre, 0) == 0) known.insert(line.substr(pre.size()));
        }
        std::error_code ec;
        std::filesystem::create_directories(verif + "/evidence/replay/" + in.id, ec);
        if (only < 0) {
            std::filesystem::remove_all(verif + "/evidence/replay/" + in.id, ec);
            std::filesystem::create_directories(verif + "/evidence/replay/" + in.id, ec);
        }
        int reported = 0, known_seen = 0;
        for (auto &v: viol) {
            if (known.count(v.key)) {
                known_seen++;
                printf("KNOWN-FINDING: property=%s %s: %s\n", in.id.c_str(), v.key.c_str(), v.detail.c_str());
                continue;
            }
            reported++;
            if (reported > 15) continue;
            std::string path = verif + "/evidence/replay/" + in.id + "/" + (only >= 0 ? "case-" + std::to_string(only) + "-" : "") + std::to_string(reported) + ".txt";
            std::ofstream o(path);
            o << "property: " << in.id << "\ntier: " << tier << "\ncase: " << v.case_no << "\nviolation: " << v.key << "\ndetail: "
              << v.detail << "\nreplay: bash " << verif << "/run.sh " << in.id << " " << tier << " --case " << v.case_no << "\n";
            o.close();
            printf("VIOLATION property=%s replay=%s\n    %s\n    %s\n", in.id.c_str(), path.c_str(), v.key.substr(0, 1200).c_str(),
                   v.detail.substr(0, 1200).c_str());
        }
        if (reported > 15) printf("    ... and %d more violations\n", reported - 15);
        std::filesystem::remove_all(root, ec);
        double wall = Ctx::now() - t0;
        bool exhaustive = !incomplete && errors.empty();
        // evidence
        if (only < 0) {
            std::ofstream e(verif + "/evidence/" + in.id + ".json");
            e << "{\n \"property\": " << json(in.id) << ",\n \"tier\": " << json(tier) << ",\n \"seed\": " << seed << ",\n \"level\": "
              << json(in.level) << ",\n \"coverage\": {\n";
            if (in.level == "model_checking")
                e << "  \"states\": " << st.size() << ",\n  \"transitions\": " << transitions << ",\n  \"traces_validated_against_impl\": "
                  << traces << ",\n  \"cases\": " << cases << ",\n";
            else
                e << "  \"evaluations\": " << cases << ",\n  \"distinct_nontrivial\": " << st.size() << ",\n  \"transitions\": " << transitions
                  << ",\n";
            e << "  \"rule\": " << json(in.rule) << ",\n  \"bounds\": [";
            auto &bs = tier == "thorough" && !in.bounds_thorough.empty() ? in.bounds_thorough : in.bounds_quick;
            for (size_t i = 0; i < bs.size(); i++) e << (i ? ", " : "") << json(bs[i]);
            e << "],\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"known_findings_seen\": " << known_seen << ",\n  \"outcomes\": {";
            bool f = true;
            for (auto &k: counts) {
                e << (f ? "" : ", ") << json(k.first) << ": " << k.second;
                f = false;
            }
            e << "},\n  \"samples\": [";
            for (size_t i = 0; i < samples.size(); i++) e << (i ? ", " : "") << json(samples[i]);
            e << "]\n },\n \"assumptions\": [";
            for (size_t i = 0; i < in.assumptions.size(); i++) e << (i ? ", " : "") << json(in.assumptions[i]);
            e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << reported << "\n}\n";
        }
        printf("%s %s: %llu cases, %zu states, %llu transitions, %llu traces validated, exhaustive=%s, %d violation(s), %d known, %.1f s\n",
               in.id.c_str(), tier.c_str(), (unsigned long long) cases, st.size(), (unsigned long long) transitions, (unsigned long long) traces,
               exhaustive ? "yes" : "no", reported, known_seen, wall);
        for (auto &e: errors) printf("harness error: %s\n", e.c_str());
        if (reported) return 1;
        if (!errors.empty()) return 2;
        return 0;
    }
}

#define MC_MAIN int main(int argc, char **argv) { return mc::main_impl(argc, argv, harness::info(), harness::explore); }

#endif
