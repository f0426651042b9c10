#include "tools.h"
#include "capi.h"

#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <csignal>
#include <exception>
#include <iostream>

int odc_main(int argc, char** argv);

namespace tools {

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

static int devOpen(const std::string& p, int flags) {
    return open(p.c_str(), flags, 0644);
}

// forks; the child runs body with output to files in a private directory (with a limit: to pipes), and exits with its
// result
static vf::RunResult child(const std::string& cwd, const std::function<int()>& body, double timeout,
                           const Limit* limit = nullptr) {
    static int counter = 0;
    std::string base   = cwd + "/.vf" + std::to_string(counter++);
    std::string fo = base + ".out", fe = base + ".err";
    std::cout.flush();
    std::cerr.flush();
    fflush(nullptr);
    vf::RunResult r;
    int po[2] = {-1, -1}, pe[2] = {-1, -1};
    if (limit) {
        if ((limit->out.empty() && pipe(po) != 0) || pipe(pe) != 0)
            throw vf::Failure{"cannot create a pipe"};
        for (int fd : {po[0], pe[0]})
            if (fd >= 0)
                fcntl(fd, F_SETFL, O_NONBLOCK);
    }
    pid_t p = fork();
    if (p < 0)
        throw vf::Failure{"cannot fork"};
    if (p == 0) {
        setpgid(0, 0);
        int i = devOpen("/dev/null", O_RDONLY),
            o = limit && limit->out.empty() ? po[1] : devOpen(limit ? limit->out : fo, O_WRONLY | O_CREAT | O_TRUNC),
            e = limit ? pe[1] : devOpen(fe, O_WRONLY | O_CREAT | O_TRUNC);
        if (i < 0 || o < 0 || e < 0 || chdir(cwd.c_str()) != 0)
            _exit(99);
        dup2(i, 0);
        dup2(o, 1);
        dup2(e, 2);
        close(i), close(o), close(e);
        rlimit rl{256u << 20, 256u << 20};
        if (limit) {
            rl.rlim_cur = rl.rlim_max = limit->bytes;
            signal(SIGXFSZ, SIG_IGN);
            rlimit core{0, 0};
            setrlimit(RLIMIT_CORE, &core);
        }
        setrlimit(RLIMIT_FSIZE, &rl);
        int rc = body();
        std::cout.flush();
        std::cerr.flush();
        fflush(nullptr);
        _exit(rc & 0xff);
    }
    double t0 = now();
    int st    = 0;
    useconds_t nap = 200;
    for (int fd : {po[1], pe[1]})
        if (fd >= 0)
            close(fd);
    auto collect = [&] {
        char buf[4096];
        ssize_t n;
        while (po[0] >= 0 && (n = ::read(po[0], buf, sizeof buf)) > 0)
            r.out.append(buf, size_t(n));
        while (pe[0] >= 0 && (n = ::read(pe[0], buf, sizeof buf)) > 0)
            r.err.append(buf, size_t(n));
    };
    while (true) {
        collect();
        pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p)
            break;
        if (now() - t0 > timeout) {
            r.timeout = true;
            kill(-p, SIGKILL);
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            break;
        }
        usleep(nap);
        if (nap < 5000)
            nap += nap / 4;
    }
    if (limit) {
        collect();
        for (int fd : {po[0], pe[0]})
            if (fd >= 0)
                close(fd);
    }
    else {
        r.out = vf::readFile(fo);
        r.err = vf::readFile(fe);
        unlink(fo.c_str());
        unlink(fe.c_str());
    }
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    return r;
}

std::string text(const std::vector<std::string>& args) {
    std::string s = "odc";
    for (auto& a : args)
        s += " " + (a.find_first_of(" '\"\t;*") == std::string::npos && !a.empty() ? a : vf::quote(a, 400));
    return s;
}

static void crashed(const vf::RunResult& r, const std::string& what) {
    size_t at = r.err.find("ERROR: AddressSanitizer");
    if (at == std::string::npos)
        at = r.err.find("runtime error:");
    if (at == std::string::npos)
        at = r.err.find("WARNING: ThreadSanitizer");
    if (r.timeout)
        throw vf::Failure{what + " does not end"};
    if (r.status >= 1000 || at != std::string::npos)
        throw vf::Failure{what + " crashes: status " + std::to_string(r.status) + "\n" +
                          (at == std::string::npos ? r.err.substr(r.err.size() > 1500 ? r.err.size() - 1500 : 0)
                                                   : r.err.substr(at, 2500))};
}

vf::RunResult odc(const std::vector<std::string>& args, const std::string& cwd, double timeout, const Limit* limit) {
    vf::RunResult r = child(
        cwd,
        [&] {
            std::vector<std::string> a{"odc"};
            a.insert(a.end(), args.begin(), args.end());
            std::vector<char*> v;
            for (auto& s : a)
                v.push_back(const_cast<char*>(s.c_str()));
            v.push_back(nullptr);
            return odc_main(int(a.size()), v.data());
        },
        timeout, limit);
    crashed(r, text(args));
    return r;
}

std::string lib(const std::string& cwd, const std::function<std::string()>& fn, std::string* error, double timeout,
                const Limit* limit) {
    const std::string mark = "@@result@@";
    static int counter = 0;
    std::string res    = cwd + "/.vfl" + std::to_string(counter++);
    vf::RunResult r    = child(
        cwd,
        [&] {
            std::string s;
            try {
                capi::init();
                s = "=" + fn();
            }
            catch (vf::Failure& f) {
                s = "F" + f.msg;
            }
            catch (std::exception& e) {
                s = std::string("E") + e.what();
            }
            catch (...) {
                s = "Eunknown exception";
            }
            if (limit)
                std::cout << mark << s;
            else
                vf::writeFile(res, s);
            return 0;
        },
        timeout, limit);
    std::string s;
    if (limit) {
        size_t at = r.out.find(mark);
        if (at != std::string::npos)
            s = r.out.substr(at + mark.size());
    }
    else if (access(res.c_str(), R_OK) == 0)
        s = vf::readFile(res);
    unlink(res.c_str());
    crashed(r, "library call");
    if (s.empty())
        throw vf::Failure{"library call ends the process: status " + std::to_string(r.status) + " " + r.err.substr(0, 500)};
    if (s[0] == 'F')
        throw vf::Failure{s.substr(1)};
    if (s[0] == 'E') {
        if (!error)
            throw vf::Failure{"unexpected error: " + s.substr(1)};
        *error = s.size() > 1 ? s.substr(1) : "error";
        return "";
    }
    if (error)
        error->clear();
    return s.substr(1);
}

std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> v;
    std::istringstream is(s);
    std::string l;
    while (std::getline(is, l))
        v.push_back(l);
    return v;
}

}  // namespace tools
