#include "vf.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>

extern char** environ;

namespace vf {

using Clock = std::chrono::steady_clock;
static double now() {
    return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------------------------------------ helpers

std::string readFile(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

void writeFile(const std::string& p, const std::string& d) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write(d.data(), d.size());
    f.close();
    if (!f) {
        fprintf(stderr, "harness: cannot write %s\n", p.c_str());
        _exit(90);
    }
}

std::string hex(const std::string& s, size_t max) {
    std::string r;
    char b[4];
    for (size_t i = 0; i < s.size() && i < max; i++) {
        snprintf(b, sizeof b, "%02x", (unsigned char)s[i]);
        r += b;
    }
    if (s.size() > max)
        r += "...";
    return r;
}

std::string quote(const std::string& s, size_t max) {
    std::string r = "\"";
    char b[8];
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c < 32 || c > 126 || c == '"' || c == '\\') {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else
            r += c;
    }
    r += "\"";
    if (s.size() > max)
        r += "...";
    return r;
}

static void rmTree(const std::string& p, bool self) {
    // only ever called on directories below the run's scratch directory
    if (p.compare(0, 8, "/tmp/vf.") != 0)
        return;
    if (DIR* d = opendir(p.c_str())) {
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            std::string q = p + "/" + n;
            struct stat st;
            if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
                rmTree(q, true);
            else
                unlink(q.c_str());
        }
        closedir(d);
    }
    if (self)
        rmdir(p.c_str());
}
void rmContents(const std::string& dir) {
    rmTree(dir, false);
}

RunResult run(const std::vector<std::string>& argv, const std::string& cwd, const std::vector<std::string>& env,
              double timeout_s) {
    RunResult r;
    static int seq = 0;
    std::string base = cwd + "/.vf_run" + std::to_string(seq++ % 4);
    std::string fo = base + ".out", fe = base + ".err";
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addopen(&fa, 2, fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
    std::vector<char*> av, ev;
    for (auto& a : argv)
        av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    for (auto& e : env)
        ev.push_back(const_cast<char*>(e.c_str()));
    for (char** e = environ; *e; e++)
        ev.push_back(*e);
    ev.push_back(nullptr);
    posix_spawnattr_t at;
    posix_spawnattr_init(&at);
    sigset_t none;
    sigemptyset(&none);
    posix_spawnattr_setsigmask(&at, &none);
    posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGMASK);
    pid_t pid;
    int rc = posix_spawn(&pid, av[0], &fa, &at, av.data(), ev.data());
    posix_spawn_file_actions_destroy(&fa);
    posix_spawnattr_destroy(&at);
    if (rc != 0) {
        fprintf(stderr, "harness: cannot spawn %s: %s\n", av[0], strerror(rc));
        _exit(90);
    }
    double t0 = now();
    int st;
    useconds_t us = 200;
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid)
            break;
        if (now() - t0 > timeout_s) {
            r.timeout = true;
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(us);
        if (us < 5000)
            us += 200;
    }
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.out    = readFile(fo);
    r.err    = readFile(fe);
    unlink(fo.c_str());
    unlink(fe.c_str());
    return r;
}

// ------------------------------------------------------------------------------------------------ shared state

struct WorkerShm {
    volatile int64_t current;   // case index being run, -1: none
    volatile int sub;
    volatile double started;
    volatile uint64_t done;
    volatile uint64_t next;  // first case not run yet, as numbered over the whole run
    ChoiceLog log;
};
struct Shm {
    volatile int stop;
    WorkerShm w[0];
};

static std::string jsonStr(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        }
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126) {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}

struct Options {
    std::string tier = "quick", evidence, replayDir = "replays", knownFile, replayFile, only;
    uint64_t seed = 1;
    int workers   = 8;
    double timecap = 240, caseTimeout = 60;
    double scale   = 1;
    double shrink  = -1;  // seconds
};

static std::string g_scratch;
static uint64_t caseSeed(const Options& o, const SubProp& sp, uint64_t i) {
    uint64_t h = mix(o.seed * 0x51ed2701ull + 17);
    for (char c : sp.name)
        h = mix(h ^ (unsigned char)c);
    return mix(h ^ (i * 0x2545F4914F6CDD1Dull));
}

// Runs one case in this process.  0: ok, 1: fail, 2: discard
static int runCase(SubProp& sp, Ctx& c, std::string& msg) {
    try {
        sp.fn(c);
        return 0;
    }
    catch (Failure& f) {
        msg = f.msg;
        return 1;
    }
    catch (Discard&) {
        return 2;
    }
    catch (std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        return 1;
    }
    catch (...) {
        msg = "unexpected exception of unknown type";
        return 1;
    }
}

static void redirectOutput(const std::string& file) {
    int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        fflush(stdout);
        fflush(stderr);
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
    }
}

// Which case of which sub-property the k-th case of a run is: that of the sub-property furthest behind its share.
class Schedule {
    const std::vector<uint64_t>& counts_;
    std::vector<uint64_t> given_;

public:
    explicit Schedule(const std::vector<uint64_t>& counts) : counts_(counts), given_(counts.size(), 0) {}
    std::pair<int, uint64_t> next() {
        int best     = -1;
        double bestv = 2;
        for (size_t i = 0; i < counts_.size(); i++)
            if (given_[i] < counts_[i]) {
                double v = double(given_[i]) / counts_[i];
                if (v < bestv) {
                    bestv = v;
                    best  = int(i);
                }
            }
        return {best, given_[best]++};
    }
};

using History = std::vector<std::pair<int, uint64_t>>;  // cases run one after the other in a process

struct Failed {
    History history;  // of the process, the case that failed last
    int sub = -1;
    uint64_t index = 0;
    std::vector<uint64_t> choices;
    std::string msg;
};

// Runs a list of choices in a forked child; true if it fails (or crashes, or hangs).
static bool childFails(Suite& s, const Options& o, int sub, std::vector<uint64_t>& choices, std::string& msg,
                       ChoiceLog* log, std::vector<std::string>* notes = nullptr, const std::string& artifactDir = "",
                       uint64_t seedMode = 0, bool useSeed = false) {
    std::string dir = g_scratch + "/shrink";
    mkdir(dir.c_str(), 0700);
    rmContents(dir);
    std::string notef = g_scratch + "/notes.txt", outf = g_scratch + "/child.log";
    unlink(notef.c_str());
    log->n  = 0;
    pid_t p = fork();
    if (p == 0) {
        redirectOutput(outf);
        Ctx c;
        c.g.mode = useSeed ? Src::RANDOM : Src::REPLAY;
        c.g.state = seedMode;
        c.g.list = choices;
        c.g.log  = log;
        c.tmp    = dir;
        c.thorough = o.tier == "thorough";
        c.artifactDir = artifactDir;
        c.verbose     = notes != nullptr;
        std::string m;
        if (s.init)
            s.init();
        int rc = runCase(s.subs[sub], c, m);
        std::ofstream f(notef);
        for (auto& ch : m)
            if (ch == '\n')
                ch = ' ';
        f << (rc == 1 ? "FAIL " : "OK ") << m << "\n";
        for (auto& n : c.notes)
            f << n << "\n";
        f.close();
        fflush(nullptr);
        _exit(rc == 1 ? 77 : 0);
    }
    double t0 = now();
    int st;
    bool hang = false;
    useconds_t us = 100;
    while (waitpid(p, &st, WNOHANG) != p) {
        if (now() - t0 > o.caseTimeout) {
            hang = true;
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            break;
        }
        usleep(us);
        if (us < 5000)
            us += 100;
    }
    choices.assign(log->v, log->v + log->n);
    bool failed = false;
    if (hang) {
        failed = true;
        msg    = "the case did not finish within " + std::to_string(int(o.caseTimeout)) + " s";
    }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        failed = false;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 90) {
        fprintf(stderr, "harness error, see below\n%s\n", readFile(outf).c_str());
        exit(3);
    }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        failed = true;
        std::ifstream f(notef);
        std::getline(f, msg);
        if (msg.compare(0, 5, "FAIL ") == 0)
            msg = msg.substr(5);
    }
    else {
        failed = true;
        std::string log = readFile(outf);
        msg = "process died: " +
              (WIFEXITED(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st)));
        size_t k = log.find("ERROR: AddressSanitizer");
        if (k == std::string::npos)
            k = log.find("WARNING: ThreadSanitizer");
        if (k == std::string::npos)
            k = log.find("runtime error:");
        if (k != std::string::npos) {
            msg += "; " + log.substr(k, log.find('\n', k) - k);
            size_t f = log.find("#", k);
            int n    = 0;
            while (f != std::string::npos && n < 14) {
                size_t e        = log.find('\n', f);
                std::string fr  = log.substr(f, e - f);
                if (fr.find(" in ") != std::string::npos && fr.find("/repo/") != std::string::npos) {
                    msg += " | " + fr.substr(fr.find(" in ") + 4);
                    if (++n >= 4)
                        break;
                }
                f = log.find("#", e);
            }
        }
        else if (log.size()) {
            msg += "; output ends: " + log.substr(log.size() > 300 ? log.size() - 300 : 0);
        }
    }
    if (notes) {
        std::ifstream f(notef);
        std::string l;
        std::getline(f, l);
        while (std::getline(f, l))
            notes->push_back(l);
    }
    return failed;
}

// Shrinking keeps to failures of one kind.
// Runs generated cases one after the other in a forked child; true if one fails (or crashes).
static bool historyFails(Suite& s, const Options& o, const History& h, std::string& msg, std::vector<std::string>* notes, double limit,
                         ChoiceLog* log) {
    std::string dir = g_scratch + "/shrink";
    mkdir(dir.c_str(), 0700);
    rmContents(dir);
    std::string notef = g_scratch + "/notes.txt", outf = g_scratch + "/child.log";
    unlink(notef.c_str());
    pid_t p = fork();
    if (p == 0) {
        redirectOutput(outf);
        if (s.init)
            s.init();
        for (auto& k : h) {
            Ctx c;
            c.g.mode   = Src::RANDOM;
            c.g.state  = caseSeed(o, s.subs[k.first], k.second);
            c.g.log    = log;
            log->n     = 0;
            c.caseNo   = k.second;
            c.tmp      = dir;
            c.thorough = o.tier == "thorough";
            std::string m;
            int rc = runCase(s.subs[k.first], c, m);
            if (rc == 1) {
                std::ofstream f(notef);
                for (auto& ch : m)
                    if (ch == '\n')
                        ch = ' ';
                f << m << "\n";
                for (auto& n : c.notes)
                    f << n << "\n";
                f.close();
                fflush(nullptr);
                _exit(77);
            }
            rmContents(dir);
        }
        fflush(nullptr);
        _exit(0);
    }
    double t0 = now();
    int st;
    while (waitpid(p, &st, WNOHANG) != p) {
        if (now() - t0 > limit) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            return false;  // n.b. no answer
        }
        usleep(1000);
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 90))
        return false;
    std::ifstream f(notef);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        std::getline(f, msg);
        std::string l;
        while (notes && std::getline(f, l))
            notes->push_back(l);
    }
    else
        msg = "process died: " + (WIFEXITED(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st)));
    return true;
}

// A failure that needs the cases before it: the fewest of them that are found to do.
static bool shrinkHistory(Suite& s, const Options& o, Failed& f, ChoiceLog* log, double budget) {
    double t0 = now(), limit = std::max(120., o.timecap);
    std::string msg;
    bool found = false;
    for (size_t n = 1;; n *= 4) {
        size_t from = f.history.size() > n + 1 ? f.history.size() - n - 1 : 0;
        History h(f.history.begin() + long(from), f.history.end());
        for (int i = 0; i < 2 && !found; i++)
            if (historyFails(s, o, h, msg, nullptr, limit, log)) {
                f.history = h;
                f.msg     = msg;
                found     = true;
            }
        if (found || from == 0)
            break;
    }
    if (!found)
        return false;
    for (size_t chunk = std::max<size_t>(f.history.size() / 2, 1); now() - t0 < budget; chunk /= 2) {
        for (size_t at = 0; at + 1 < f.history.size() && now() - t0 < budget;) {
            History h(f.history);
            h.erase(h.begin() + long(at), h.begin() + long(std::min(at + chunk, h.size() - 1)));
            if (historyFails(s, o, h, msg, nullptr, limit, log)) {
                f.history = h;
                f.msg     = msg;
            }
            else
                at += chunk;
        }
        if (chunk == 1)
            break;
    }
    return true;
}

static std::string kindOf(const std::string& m) {
    if (m.find("did not finish") != std::string::npos)
        return "did not finish";
    size_t a = m.find("unexpected error");
    if (a == std::string::npos)
        a = m.find("crash");
    if (a == std::string::npos)
        return "";
    return m.substr(a, 34);
}

static void shrink(Suite& s, const Options& o, Failed& f, ChoiceLog* log, double budget) {
    double t0 = now();
    std::vector<uint64_t> best = f.choices;
    std::string kind = kindOf(f.msg);
    int execs = 0;
    auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        return a.size() != b.size() ? a.size() < b.size() : a < b;
    };
    auto tryit = [&](std::vector<uint64_t> cand) {
        if (now() - t0 > budget || execs > 4000)
            return false;
        execs++;
        std::string m;
        std::vector<uint64_t> used = cand;
        if (childFails(s, o, f.sub, used, m, log) && kindOf(m) == kind) {
            if (used.size() > cand.size())
                used = cand;
            if (less(used, best)) {
                best  = used;
                f.msg = m;
                return true;
            }
        }
        return false;
    };
    bool improved = true;
    while (improved && now() - t0 < budget && execs < 4000) {
        improved = false;
        // delete blocks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size();) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + len);
                if (tryit(c))
                    improved = true;
                else
                    i += std::max<size_t>(1, len / 2);
                if (now() - t0 > budget)
                    break;
            }
            if (len == 1)
                break;
        }
        // zero blocks
        for (size_t len = std::min<size_t>(32, best.size()); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size(); i += len) {
                std::vector<uint64_t> c(best);
                bool any = false;
                for (size_t k = i; k < i + len; k++)
                    if (c[k]) {
                        c[k] = 0;
                        any  = true;
                    }
                if (any && tryit(c))
                    improved = true;
            }
            if (len == 1)
                break;
        }
        // minimise single values
        for (size_t i = 0; i < best.size(); i++) {
            uint64_t lo = 0;
            for (int k = 0; k < 40 && i < best.size() && best[i] > lo; k++) {
                std::vector<uint64_t> c(best);
                uint64_t mid = lo + (best[i] - lo) / 2;
                c[i]         = mid;
                if (tryit(c))
                    improved = true;
                else
                    lo = mid + 1;
                // also lower this one while deleting the next (length prefixes)
                if (now() - t0 > budget)
                    break;
            }
            if (i + 1 < best.size() && best[i] > 0) {
                std::vector<uint64_t> c(best);
                c[i]--;
                c.erase(c.begin() + i + 1);
                if (tryit(c))
                    improved = true;
            }
        }
    }
    fprintf(stderr, "shrunk %zu -> %zu choices in %d executions, %.1f s\n", f.choices.size(), best.size(), execs,
            now() - t0);
    f.choices = best;
}

static void worker(Suite& s, const Options& o, int w, Shm* shm, std::vector<uint64_t> counts, uint64_t startIdx, double t0) {
    std::string dir = g_scratch + "/w" + std::to_string(w);
    mkdir(dir.c_str(), 0700);
    redirectOutput(g_scratch + "/w" + std::to_string(w) + ".log");
    if (s.init)
        s.init();
    WorkerShm& ws = shm->w[w];
    Stats st;
    auto flush = [&]() {
        std::ofstream f(g_scratch + "/stats." + std::to_string(w) + "." + std::to_string(getpid()));
        f << st.evaluations << " " << st.discarded << " " << st.nontrivial << "\n";
        f << st.distinct.size() << "\n";
        for (auto d : st.distinct)
            f << d << "\n";
        f << st.labels.size() << "\n";
        for (auto& l : st.labels)
            f << l.second << " " << l.first << "\n";
        f << st.samples.size() << "\n";
        for (auto& l : st.samples)
            f << jsonStr(l) << "\n";
    };
    // The sub-properties are interleaved, so that a cap on time thins all of them rather than dropping the last.
    uint64_t total = 0;
    for (auto c : counts)
        total += c;
    uint64_t seq = 0;
    Schedule schedule(counts);
    for (uint64_t k = 0; k < total; k++) {
        std::pair<int, uint64_t> which = schedule.next();
        int best     = which.first;
        uint64_t idx = which.second;
        if (int(k % o.workers) != w)
            continue;
        if (k < startIdx)
            continue;
        ws.next = k;
        if (shm->stop || now() - t0 > o.timecap) {
            if (!shm->stop)
                st.labels["(time cap reached)"]++;
            break;
        }
        seq++;
        Ctx c;
        c.g.mode  = Src::RANDOM;
        c.g.state = caseSeed(o, s.subs[best], idx);
        c.g.log   = &ws.log;
        ws.log.n  = 0;
        c.caseNo  = idx;
        c.tmp     = dir;
        c.thorough = o.tier == "thorough";
        ws.next    = k + 1;
        ws.sub     = best;
        ws.started = now();
        ws.current = int64_t(k);
        std::string msg;
        int rc     = runCase(s.subs[best], c, msg);
        ws.current = -1;
        ws.done    = ws.done + 1;
        if (rc == 1) {
            flush();
            for (auto& ch : msg)
                if (ch == '\n')
                    ch = ' ';  // one line
            std::ofstream f(g_scratch + "/fail." + std::to_string(w));
            f << best << " " << k << "\n" << msg << "\n" << ws.log.n << "\n";
            for (uint64_t i = 0; i < ws.log.n; i++)
                f << ws.log.v[i] << "\n";
            f.close();
            fflush(nullptr);
            _exit(77);
        }
        rmContents(dir);
        if (rc == 2) {
            st.discarded++;
            continue;
        }
        st.evaluations++;
        st.labels[s.subs[best].name]++;
        for (auto& l : c.labels)
            st.labels[s.subs[best].name + ": " + l]++;
        if (c.nontrivial) {
            st.nontrivial++;
            uint64_t h = mix(best + 1);
            for (uint64_t i = 0; i < ws.log.n; i++)
                h = mix(h ^ ws.log.v[i]);
            st.distinct.insert(h);
            if (st.samples.size() < 2 || (st.samples.size() < 6 && seq % 97 == 0)) {
                std::string t = s.subs[best].name + " #" + std::to_string(idx) + ": ";
                for (auto& n : c.notes) {
                    t += n + "; ";
                    if (t.size() > 900)
                        break;
                }
                st.samples.push_back(t.substr(0, 1000));
            }
        }
    }
    flush();
    fflush(nullptr);
    _exit(0);
}

static std::vector<std::string> knownFindings(const std::string& file, const std::string& prop,
                                              std::vector<std::string>& texts) {
    std::vector<std::string> ids;
    std::ifstream f(file);
    std::string l;
    while (std::getline(f, l)) {
        // finding: property=C10 id=KF1 <text>
        if (l.compare(0, 9, "finding: ") != 0)
            continue;
        std::istringstream is(l.substr(9));
        std::string a, b, rest;
        is >> a >> b;
        std::getline(is, rest);
        if (a == "property=" + prop && b.compare(0, 3, "id=") == 0) {
            ids.push_back(b.substr(3));
            texts.push_back(b.substr(3) + ":" + rest);
        }
    }
    return ids;
}

static void cleanup() {
    if (!g_scratch.empty())
        rmTree(g_scratch, true);
}

int main(int argc, char** argv, Suite& s) {
    Options o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val      = [&]() { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--tier")
            o.tier = val();
        else if (a == "--seed")
            o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence")
            o.evidence = val();
        else if (a == "--replaydir")
            o.replayDir = val();
        else if (a == "--known")
            o.knownFile = val();
        else if (a == "--replay")
            o.replayFile = val();
        else if (a == "--workers")
            o.workers = atoi(val().c_str());
        else if (a == "--timecap")
            o.timecap = atof(val().c_str());
        else if (a == "--casetimeout")
            o.caseTimeout = atof(val().c_str());
        else if (a == "--scale")
            o.scale = atof(val().c_str());
        else if (a == "--shrink")
            o.shrink = atof(val().c_str());
        else if (a == "--only")
            o.only = val();
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    g_scratch = "/tmp/vf." + s.property + "." + std::to_string(getpid());
    mkdir(g_scratch.c_str(), 0700);
    atexit(cleanup);
    pid_t mainPid = getpid();
    (void)mainPid;
    signal(SIGPIPE, SIG_IGN);

    size_t shmSize = sizeof(Shm) + sizeof(WorkerShm) * (o.workers + 1);
    Shm* shm = (Shm*)mmap(nullptr, shmSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) {
        perror("mmap");
        return 2;
    }
    ChoiceLog* spare = &shm->w[o.workers].log;

    if (!o.replayFile.empty()) {
        std::ifstream f(o.replayFile);
        std::string l, sub;
        Failed fl;
        while (std::getline(f, l)) {
            if (l.compare(0, 5, "sub: ") == 0)
                sub = l.substr(5);
            else if (l.compare(0, 6, "seed: ") == 0)
                o.seed = strtoull(l.c_str() + 6, nullptr, 10);
            else if (l.compare(0, 6, "tier: ") == 0)
                o.tier = l.substr(6);
            else if (l.compare(0, 7, "cases: ") == 0) {
                std::istringstream is(l.substr(7));
                std::pair<int, uint64_t> c;
                char colon;
                while (is >> c.first >> colon >> c.second)
                    if (c.first >= 0 && size_t(c.first) < s.subs.size())
                        fl.history.push_back(c);
            }
            else if (l.compare(0, 9, "choices: ") == 0) {
                std::istringstream is(l.substr(9));
                uint64_t v;
                while (is >> v)
                    fl.choices.push_back(v);
            }
        }
        for (size_t i = 0; i < s.subs.size(); i++)
            if (s.subs[i].name == sub)
                fl.sub = int(i);
        if (fl.history.size()) {
            std::vector<std::string> notes;
            std::string msg;
            bool bad = historyFails(s, o, fl.history, msg, &notes, 600, spare);
            for (auto& n : notes)
                printf("  %s\n", n.c_str());
            printf("%s: %s\n", bad ? "FAILS" : "passes", msg.c_str());
            fputs(readFile(g_scratch + "/child.log").c_str(), stderr);
            return bad ? 1 : 0;
        }
        if (fl.sub < 0) {
            fprintf(stderr, "unknown sub-property '%s'\n", sub.c_str());
            return 2;
        }
        std::vector<std::string> notes;
        std::string msg;
        bool bad = childFails(s, o, fl.sub, fl.choices, msg, spare, &notes, o.replayDir);
        for (auto& n : notes)
            printf("  %s\n", n.c_str());
        printf("%s: %s\n", bad ? "FAILS" : "passes", msg.c_str());
        fputs(readFile(g_scratch + "/child.log").c_str(), stderr);
        return bad ? 1 : 0;
    }

    double t0 = now();

    // listed findings, each demonstrated by its own input
    std::vector<std::string> texts;
    std::vector<std::string> ids = knownFindings(o.knownFile, s.property, texts);
    for (size_t k = 0; k < ids.size(); k++) {
        for (auto& fn : s.findings)
            if (fn.first == ids[k]) {
                std::string dir = g_scratch + "/kf";
                mkdir(dir.c_str(), 0700);
                rmContents(dir);
                fflush(nullptr);
                pid_t p = fork();
                if (p == 0) {
                    redirectOutput(g_scratch + "/kf.log");
                    Ctx c;
                    c.g.mode = Src::REPLAY;
                    c.tmp    = dir;
                    if (s.init)
                        s.init();
                    bool still = false;
                    try {
                        still = fn.second(c);
                    }
                    catch (...) {
                        still = true;
                    }
                    _exit(still ? 1 : 0);
                }
                int st;
                waitpid(p, &st, 0);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                    printf("KNOWN-FINDING: property=%s %s\n", s.property.c_str(), texts[k].c_str());
            }
    }
    fflush(stdout);

    std::vector<uint64_t> counts;
    for (auto& sp : s.subs) {
        uint64_t n = uint64_t((o.tier == "thorough" ? sp.thorough : sp.quick) * o.scale);
        if (!o.only.empty() && sp.name.find(o.only) == std::string::npos)
            n = 0;
        counts.push_back(n);
    }

    std::vector<pid_t> pids(o.workers, 0);
    std::vector<Failed> failures;
    const double tRun = now();
    auto spawn = [&](int w, uint64_t from) {
        shm->w[w].current = -1;
        pid_t p           = fork();
        if (p == 0)
            worker(s, o, w, shm, counts, from, tRun);
        pids[w] = p;
    };
    bool harnessError = false;
    int exitCode = 0, violations = 0;
    std::vector<uint64_t> starts(o.workers, 0);
    uint64_t total = 0;
    for (auto c : counts)
        total += c;
    // n.b. once, unless there are failures that cannot be reproduced: the run goes on after these
    for (int round = 0; round < 6 && !violations && !harnessError; round++) {
    failures.clear();
    shm->stop = 0;
    int alive = 0;
    for (int w = 0; w < o.workers; w++) {
        if (round)
            starts[w] = shm->w[w].next;
        if (starts[w] < total) {
            spawn(w, starts[w]);
            alive++;
        }
    }
    if (!alive)
        break;
    while (alive > 0) {
        bool any = false;
        for (int w = 0; w < o.workers; w++) {
            if (!pids[w])
                continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            bool hang = false;
            if (r == 0) {
                if (shm->w[w].current >= 0 && now() - shm->w[w].started > o.caseTimeout) {
                    hang = true;
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                }
                else
                    continue;
            }
            any     = true;
            pids[w] = 0;
            alive--;
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0)
                continue;
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 90) {
                harnessError = true;
                fprintf(stderr, "%s\n", readFile(g_scratch + "/w" + std::to_string(w) + ".log").c_str());
                shm->stop = 1;
                continue;
            }
            shm->stop = 1;
            Failed f;
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 77) {
                std::ifstream in(g_scratch + "/fail." + std::to_string(w));
                uint64_t n;
                in >> f.sub >> f.index;
                in.ignore();
                std::getline(in, f.msg);
                in >> n;
                f.choices.resize(n);
                for (auto& v : f.choices)
                    in >> v;
            }
            else {
                f.sub   = shm->w[w].sub;
                f.index = uint64_t(shm->w[w].current);
                f.msg   = hang ? "hang" : "crash";
                f.choices.assign(shm->w[w].log.v, shm->w[w].log.v + shm->w[w].log.n);
                if (shm->w[w].current < 0) {
                    fprintf(stderr, "harness: worker died outside a case\n%s\n",
                            readFile(g_scratch + "/w" + std::to_string(w) + ".log").c_str());
                    harnessError = true;
                    continue;
                }
            }
            if (f.msg != "hang") {
                Schedule schedule(counts);
                for (uint64_t k = 0; k <= f.index; k++) {
                    std::pair<int, uint64_t> c = schedule.next();
                    if (k >= starts[w] && int(k % o.workers) == w)
                        f.history.push_back(c);
                }
            }
            failures.push_back(f);
        }
        if (!any)
            usleep(2000);
    }
    if (harnessError && failures.empty())
        return 2;
    if (failures.empty())
        break;

    std::sort(failures.begin(), failures.end(), [](const Failed& a, const Failed& b) { return a.index < b.index; });
    for (auto& f : failures) {
        std::string msg;
        int fails = 0, tries = 3;
        for (int i = 0; i < tries; i++) {
            std::vector<uint64_t> ch = f.choices;
            if (childFails(s, o, f.sub, ch, msg, spare)) {
                fails++;
                f.msg = msg;
            }
            if (i == 2 && fails < 3 && tries == 3)
                tries = 20;  // not deterministic: look harder
        }
        bool sequence = false;
        if (!fails && f.history.size() > 1 && shrinkHistory(s, o, f, spare, o.shrink >= 0 ? o.shrink : o.tier == "thorough" ? 120 : 45)) {
            // it is not the case alone
            sequence = true;
            fails = tries = 1;
        }
        if (!fails) {
            fprintf(stderr, "note: a failure of %s case %llu did not reproduce in %d replays: %s\n",
                    s.subs[f.sub].name.c_str(), (unsigned long long)f.index, tries, f.msg.c_str());
            std::string log = readFile(g_scratch + "/child.log");
            continue;
        }
        fprintf(stderr, "failure of %s (case %llu): %s\n", s.subs[f.sub].name.c_str(), (unsigned long long)f.index,
                f.msg.c_str());
        if (!sequence && fails == tries && f.msg.find("did not finish") == std::string::npos)
            shrink(s, o, f, spare, o.shrink >= 0 ? o.shrink : o.tier == "thorough" ? 120 : 45);
        std::vector<std::string> notes;
        std::vector<uint64_t> ch = f.choices;
        char name[64];
        uint64_t h = 0;
        for (auto v : ch)
            h = mix(h ^ v);
        if (sequence)
            for (auto& c : f.history)
                h = mix(h ^ (uint64_t(c.first) << 48) ^ c.second);
        snprintf(name, sizeof name, "%s-%016llx", s.property.c_str(), (unsigned long long)h);
        std::string dir = o.replayDir + "/" + name;
        mkdir(o.replayDir.c_str(), 0755);
        mkdir(dir.c_str(), 0755);
        for (int i = 0; sequence && i < 5 && !historyFails(s, o, f.history, msg, &notes, 300, spare); i++)
            notes.clear();
        for (int i = 0; !sequence && i < 5 && !childFails(s, o, f.sub, ch, msg, spare, &notes, dir); i++)
            notes.clear();
        std::ofstream out(dir + "/case.txt");
        out << "property: " << s.property << "\nsub: " << s.subs[f.sub].name << "\nseed: " << o.seed
            << "\ntier: " << o.tier << "\nmessage: " << f.msg << "\nreproduced: " << fails << "/" << tries;
        if (sequence) {
            out << "\ncases:";  // of a process, in order; the last fails
            for (auto& c : f.history)
                out << " " << c.first << ":" << c.second;
        }
        else {
            out << "\nchoices:";
            for (auto v : f.choices)
                out << " " << v;
        }
        out << "\nnotes:\n";
        for (auto& n : notes)
            out << "  " << n << "\n";
        out << "output:\n" << readFile(g_scratch + "/child.log").substr(0, 20000);
        out.close();
        fprintf(stderr, "message: %s\n", f.msg.c_str());
        if (sequence)
            fprintf(stderr, "as the last of %zu cases in one process\n", f.history.size());
        for (size_t i = 0; i < notes.size() && i < 40; i++)
            fprintf(stderr, "    %s\n", notes[i].c_str());
        printf("VIOLATION property=%s replay=%s/case.txt\n", s.property.c_str(), dir.c_str());
        fflush(stdout);
        exitCode = 1;
        violations++;
        break;
    }
    }

    // collect statistics
    Stats tot;
    if (DIR* d = opendir(g_scratch.c_str())) {
        while (dirent* e = readdir(d)) {
            if (strncmp(e->d_name, "stats.", 6) != 0)
                continue;
            std::ifstream f(g_scratch + "/" + e->d_name);
            uint64_t a, b, c, n;
            f >> a >> b >> c >> n;
            tot.evaluations += a;
            tot.discarded += b;
            tot.nontrivial += c;
            for (uint64_t i = 0; i < n; i++) {
                uint64_t h;
                f >> h;
                tot.distinct.insert(h);
            }
            f >> n;
            for (uint64_t i = 0; i < n; i++) {
                uint64_t k;
                std::string l;
                f >> k;
                f.ignore();
                std::getline(f, l);
                tot.labels[l] += k;
            }
            f >> n;
            f.ignore();
            for (uint64_t i = 0; i < n; i++) {
                std::string l;
                std::getline(f, l);
                if (tot.samples.size() < 8)
                    tot.samples.push_back(l);
            }
        }
        closedir(d);
    }

    if (!o.evidence.empty()) {
        std::ofstream e(o.evidence);
        e << "{\n \"property\": " << jsonStr(s.property) << ",\n \"tier\": " << jsonStr(o.tier)
          << ",\n \"seed\": " << o.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << tot.evaluations << ",\n  \"discarded\": " << tot.discarded
          << ",\n  \"nontrivial\": " << tot.nontrivial << ",\n  \"distinct_nontrivial\": " << tot.distinct.size()
          << ",\n  \"rule\": " << jsonStr(s.rule) << ",\n  \"distribution\": {";
        bool first = true;
        for (auto& l : tot.labels) {
            e << (first ? "\n" : ",\n") << "   " << jsonStr(l.first) << ": " << l.second;
            first = false;
        }
        e << "},\n  \"samples\": [";
        first = true;
        if (tot.samples.empty())
            tot.samples.push_back("\"(none)\"");
        for (auto& l : tot.samples) {
            e << (first ? "\n" : ",\n") << "   " << l;
            first = false;
        }
        e << "]\n },\n \"assumptions\": [";
        first = true;
        for (auto& l : s.assumptions) {
            e << (first ? "\n" : ",\n") << "   " << jsonStr(l);
            first = false;
        }
        char b[64];
        snprintf(b, sizeof b, "%.2f", now() - t0);
        e << "],\n \"wall_s\": " << b << ",\n \"violations\": " << violations << "\n}\n";
    }
    fprintf(stderr, "%s %s seed=%llu: %llu cases (%llu discarded), %zu distinct non-trivial, %.1f s\n",
            s.property.c_str(), o.tier.c_str(), (unsigned long long)o.seed, (unsigned long long)tot.evaluations,
            (unsigned long long)tot.discarded, tot.distinct.size(), now() - t0);
    return exitCode;
}

}  // namespace vf
