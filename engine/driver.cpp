// Driver of the property-based-testing engine; see pbt.hpp.
#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <exception>
#include <fstream>
#include <map>
#include <iostream>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#   define PBT_ASAN 1
#elif defined(__has_feature)
#   if __has_feature(address_sanitizer)
#       define PBT_ASAN 1
#   endif
#endif

#if PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options();
const char* __asan_default_options()
{
    return "symbolize=0:exitcode=99:detect_leaks=0:max_allocation_size_mb=512:"
        "allocator_may_return_null=0:detect_stack_use_after_return=0:print_legend=0:"
        "quarantine_size_mb=32:handle_abort=0:handle_segv=1";
}
#endif

namespace pbt
{
std::vector<Target>& targets()
{
    static std::vector<Target> t;
    return t;
}

Recorder* g_recorder = nullptr;

namespace
{
Recorder g_rec_obj{};
constexpr int max_workers = 64;
constexpr size_t table_size = size_t(1) << 22;
constexpr int max_labels = 512;
constexpr int max_samples = 4;
constexpr size_t msg_size = 8192;
constexpr size_t trace_size = 65536;

struct LabelSlot { std::atomic<uint64_t> hash; std::atomic<uint64_t> count; char text[96]; };

struct WorkerSlot
{
    std::atomic<uint64_t> cur;      // case index in flight (or idle = ~0)
    std::atomic<uint64_t> started;  // number of cases started
    std::atomic<uint64_t> evals;
    std::atomic<uint64_t> nontrivial;
    char msg[msg_size];
    std::atomic<uint64_t> sample_idx[max_samples];
    std::atomic<uint64_t> samples;
};

struct Shared
{
    WorkerSlot w[max_workers];
    LabelSlot labels[max_labels];
    std::atomic<uint64_t> distinct;
    std::atomic<uint64_t> table[table_size];
    // replay area
    volatile uint64_t r_count;
    std::atomic<int> r_nontrivial;
    char r_msg[msg_size];
    char r_trace[trace_size];
    uint64_t r_choices[Source::max_choices + 1];
};

Shared* g_sh = nullptr;
char* g_msg = nullptr;          // where fail_impl writes
Source* g_src = nullptr;        // source in flight
bool g_in_child = false;
bool g_record = false;

double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

uint64_t fnv(const char* s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
    return h;
}

void dump_source()
{
    if (g_record && g_src) g_sh->r_nontrivial = g_src->is_nontrivial();
}

void on_cpu_limit(int)
{
    if (g_msg && !g_msg[0]) std::snprintf(g_msg, msg_size, "case exceeded its CPU time limit (does not terminate?)");
    dump_source();
    _exit(78);
}

void on_crash(int sig)
{
    if (g_msg && !g_msg[0]) std::snprintf(g_msg, msg_size, "killed by signal %d (%s)", sig, strsignal(sig));
    dump_source();
    _exit(79);
}

bool table_insert(uint64_t h)
{
    if (h == 0) h = 1;
    size_t i = h & (table_size - 1);
    for (int probe = 0; probe < 64; ++probe)
    {
        uint64_t cur = g_sh->table[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0)
        {
            if (g_sh->table[i].compare_exchange_strong(cur, h)) return true;
            if (cur == h) return false;
        }
        i = (i + 1) & (table_size - 1);
    }
    return false; // table full here: not counted
}

void set_cpu_timer(double sec)
{
    itimerval t{};
    t.it_value.tv_sec = long(sec);
    t.it_value.tv_usec = long((sec - double(long(sec))) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}

long long allocated()
{
#if PBT_ASAN
    return (long long)__sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

constexpr double cpu_limit = 12;

void call_target(const Target& t, Source& src)
{
    g_src = &src;
    try
    {
        t.fn(src);
    }
    catch (std::exception& e)
    {
        fail_impl(std::string("unexpected exception: ") + e.what());
    }
    catch (...)
    {
        fail_impl("unexpected exception of unknown type");
    }
    g_src = nullptr;
}

uint64_t case_seed(uint64_t seed, const Target& t, uint64_t idx)
{
    return mix64(mix64(seed * 0x9e3779b97f4a7c15ull + fnv(t.name)) ^ (idx * 0xd1342543de82ef95ull));
}

// run a choice list with leak verification; never returns on failure
void check_leak(const Target& t, const std::vector<uint64_t>& choices)
{
    long long d[2];
    for (int i = 0; i < 2; ++i)
    {
        auto a = allocated();
        {
            Source s(&choices);
            call_target(t, s);
        }
        d[i] = allocated() - a;
    }
    if (d[0] > 0 && d[1] > 0)
    {
        Source s(&choices);
        g_src = nullptr;
        char b[128];
        std::snprintf(b, sizeof b, "memory leak: %lld bytes allocated by the case were never freed", d[1]);
        fail_impl(b);
    }
}

void install_child_handlers()
{
    std::signal(SIGPROF, on_cpu_limit);
    std::signal(SIGABRT, on_crash);
#if !PBT_ASAN && !defined(__SANITIZE_THREAD__)
    std::signal(SIGSEGV, on_crash);
    std::signal(SIGBUS, on_crash);
    std::signal(SIGFPE, on_crash);
    std::signal(SIGILL, on_crash);
#endif
}

void redirect_stderr(int fd)
{
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
}

[[noreturn]] void worker_main(int wid, int nworkers, const Target& t, uint64_t seed, uint64_t ncases, double deadline, int errfd)
{
    g_in_child = true;
    auto& w = g_sh->w[wid];
    w.msg[0] = 0;
    g_msg = w.msg;
    install_child_handlers();
    redirect_stderr(errfd);
    for (uint64_t idx = uint64_t(wid); idx < ncases; idx += uint64_t(nworkers))
    {
        if (now() > deadline) break;
        w.cur = idx;
        ++w.started;
        set_cpu_timer(cpu_limit);
        auto before = allocated();
        uint64_t h = 0;
        bool nt = false;
        std::vector<uint64_t>* used = nullptr;
        bool suspicious = false;
        {
            Source s(case_seed(seed, t, idx));
            call_target(t, s);
            h = s.hash();
            nt = s.is_nontrivial();
        }
        if (!(t.flags & F_NOLEAK) && allocated() - before > 0) suspicious = true;
        if (suspicious)
        {
            // statics may have been initialized: confirm by running the very same choices again
            {
                Source s(case_seed(seed, t, idx));
                call_target(t, s);
                used = new std::vector<uint64_t>(s.used());
            }
            check_leak(t, *used);
            delete used;
        }
        ++w.evals;
        if (nt)
        {
            ++w.nontrivial;
            if (table_insert(mix64(h ^ fnv(t.name))))
            {
                ++g_sh->distinct;
                auto k = w.samples.load();
                if (k < max_samples && (idx / uint64_t(nworkers)) >= k * 40) { w.sample_idx[k] = idx; w.samples = k + 1; }
            }
        }
        w.cur = ~uint64_t(0);
    }
    set_cpu_timer(0);
    _exit(0);
}

struct Outcome
{
    bool failed = false;
    std::string msg;
    std::string trace;
    std::vector<uint64_t> choices;
    bool nontrivial = false;
};

std::string read_fd_tail(int fd)
{
    std::string out;
    lseek(fd, 0, SEEK_SET);
    char b[4096];
    ssize_t n;
    while (out.size() < 16000 && (n = read(fd, b, sizeof b)) > 0) out.append(b, size_t(n));
    return out;
}

std::string sanitizer_summary(const std::string& err)
{
    // first informative line(s)
    std::istringstream in(err);
    std::string line, res;
    int taken = 0;
    while (std::getline(in, line))
    {
        if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos
            || line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("Assertion") != std::string::npos
            || line.find("terminate called") != std::string::npos || line.find("SUMMARY") != std::string::npos)
        {
            if (taken) res += " | ";
            res += line;
            if (++taken >= 3) break;
        }
    }
    return res;
}

int tmp_fd()
{
    int fd = memfd_create("pbt-err", 0);
    if (fd < 0)
    {
        char name[] = "/tmp/pbt-err-XXXXXX";
        fd = mkstemp(name);
        if (fd >= 0) unlink(name);
    }
    return fd;
}

// wait for a child, with a wall-clock watchdog for targets with threads
int wait_child(pid_t pid, double wall_limit, bool& hung)
{
    hung = false;
    int st = 0;
    double start = now();
    useconds_t nap = 50;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return st;
        if (r < 0 && errno != EINTR) return 0;
        if (now() - start > wall_limit)
        {
            hung = true;
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return st;
        }
        usleep(nap);
        if (nap < 2000) nap = nap * 3 / 2 + 1;
    }
}

double replay_wall(const Target& t) { return (t.flags & F_THREADS) ? 30 : 600; }

Outcome run_child(const Target& t, const std::vector<uint64_t>* choices, uint64_t seed, const std::vector<uint8_t>* bytes, bool trace)
{
    Outcome o;
    g_sh->r_count = 0;
    g_sh->r_msg[0] = 0;
    g_sh->r_trace[0] = 0;
    g_sh->r_nontrivial = 0;
    int efd = tmp_fd();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        g_in_child = true;
        g_msg = g_sh->r_msg;
        g_record = true;
        install_child_handlers();
        redirect_stderr(efd);
        set_cpu_timer(cpu_limit);
        g_rec_obj = {g_sh->r_choices, &g_sh->r_count, g_sh->r_trace, trace_size - 1, 0};
        g_recorder = &g_rec_obj;
        auto body = [&](Source& s) {
            s.tracing = trace;
            call_target(t, s);
            g_sh->r_nontrivial = s.is_nontrivial();
        };
        auto before = allocated();
        if (choices) { Source s(choices); body(s); }
        else if (bytes) { Source s(bytes->data(), bytes->size()); body(s); }
        else { Source s(seed); body(s); }
        g_recorder = nullptr;
        if (!(t.flags & F_NOLEAK) && choices && allocated() - before > 0)
        {
            check_leak(t, *choices);
        }
        else if (!(t.flags & F_NOLEAK) && !choices)
        {
            std::vector<uint64_t> ch(g_sh->r_choices, g_sh->r_choices + g_sh->r_count);
            // statics are initialized by now
            check_leak(t, ch);
        }
        _exit(0);
    }
    bool hung = false;
    int st = wait_child(pid, replay_wall(t), hung);
    o.choices.assign(g_sh->r_choices, g_sh->r_choices + g_sh->r_count);
    o.trace = g_sh->r_trace;
    o.nontrivial = g_sh->r_nontrivial != 0;
    if (hung)
    {
        o.failed = true;
        o.msg = "deadlock: no progress within the watchdog time";
    }
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
        o.failed = true;
        o.msg = g_sh->r_msg;
        auto err = sanitizer_summary(read_fd_tail(efd));
        if (!err.empty()) o.msg += (o.msg.empty() ? "" : " | ") + err;
        if (o.msg.empty()) o.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
    }
    if (efd >= 0) close(efd);
    if (o.failed && o.choices.empty() && choices) o.choices = *choices;
    return o;
}

bool fails(const Target& t, const std::vector<uint64_t>& c, std::vector<uint64_t>& norm)
{
    auto o = run_child(t, &c, 0, nullptr, false);
    if (o.failed)
    {
        norm = o.choices.empty() ? c : o.choices;
        if (norm.size() > c.size()) norm = c;
    }
    return o.failed;
}

std::vector<uint64_t> shrink(const Target& t, std::vector<uint64_t> best, double budget_s, uint64_t& attempts)
{
    double end = now() + budget_s;
    std::vector<uint64_t> norm;
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (now() > end) return false;
        ++attempts;
        if (fails(t, c, norm))
        {
            best = norm;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end)
    {
        progress = false;
        auto start = best;
        // truncate
        for (size_t len = best.size() / 2; len > 0 && len < best.size();)
        {
            std::vector<uint64_t> c(best.begin(), best.begin() + long(len));
            if (attempt(c)) { len = best.size() / 2; }
            else { size_t step = (best.size() - len) / 2; if (step == 0) break; len += step; }
        }
        // delete chunks
        for (size_t chunk : {size_t(64), size_t(32), size_t(16), size_t(8), size_t(7), size_t(6), size_t(5), size_t(4), size_t(3), size_t(2), size_t(1)})
        {
            if (chunk > best.size()) continue;
            for (size_t i = best.size(); i >= chunk && i > 0 && now() < end;)
            {
                if (i > best.size()) { i = best.size(); if (i < chunk) break; }
                std::vector<uint64_t> c(best.begin(), best.begin() + long(i - chunk));
                c.insert(c.end(), best.begin() + long(i), best.end());
                if (c.size() < best.size() && attempt(c)) { i = i >= chunk ? i - chunk : 0; }
                else i = i > (chunk > 2 ? chunk / 2 : 1) ? i - (chunk > 2 ? chunk / 2 : 1) : 0;
            }
        }
        // minimize values
        for (size_t i = 0; i < best.size() && now() < end; ++i)
        {
            if (best[i] == 0) continue;
            auto c = best;
            c[i] = 0;
            if (attempt(c)) continue;
            uint64_t lo = 0;
            while (i < best.size() && best[i] - lo > 1 && now() < end)
            {
                auto c2 = best;
                c2[i] = lo + (best[i] - lo) / 2;
                uint64_t tried = c2[i];
                if (!attempt(c2)) lo = tried;
                else if (i < best.size() && best[i] < lo) break;
            }
        }
        progress = best != start;
    }
    return best;
}

std::string jesc(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

std::string jchoices(const std::vector<uint64_t>& c)
{
    std::string r = "[";
    for (size_t i = 0; i < c.size(); ++i) { if (i) r += ","; r += std::to_string(c[i]); }
    return r + "]";
}

const Target* find(const std::string& n)
{
    for (auto& t : targets()) if (n == t.name) return &t;
    return nullptr;
}

void reset_workers()
{
    for (auto& w : g_sh->w)
    {
        w.cur = ~uint64_t(0);
        w.started = 0; w.evals = 0; w.nontrivial = 0; w.samples = 0; w.msg[0] = 0;
    }
}

int main_replay(const std::string& target, const std::vector<uint64_t>& choices, const std::vector<uint8_t>* bytes, bool do_shrink, const std::string& out)
{
    auto t = find(target);
    if (!t) { std::cerr << "no such target: " << target << "\n"; return 2; }
    Outcome o = bytes ? run_child(*t, nullptr, 0, bytes, true) : run_child(*t, &choices, 0, nullptr, true);
    auto ch = bytes ? o.choices : choices;
    if (o.failed && bytes && ch.empty())
    {
        // the crash did not leave its choices behind; decode without running
        std::cerr << "no choices recovered\n";
    }
    uint64_t attempts = 0;
    if (o.failed && do_shrink)
    {
        ch = shrink(*t, ch, 40, attempts);
        o = run_child(*t, &ch, 0, nullptr, true);
    }
    std::cout << (o.failed ? "FAILED" : "passed") << " target=" << target << "\n" << o.msg << "\n--- trace\n" << o.trace << "\n";
    if (!out.empty())
    {
        std::ofstream f(out);
        f << "{\"failed\": " << (o.failed ? "true" : "false") << ", \"target\": " << jesc(target) << ", \"message\": " << jesc(o.msg)
          << ", \"trace\": " << jesc(o.trace) << ", \"choices\": " << jchoices(ch) << "}\n";
    }
    return o.failed ? 1 : 0;
}

} // anonymous

void fail_impl(const std::string& msg)
{
#ifdef PBT_LIBFUZZER
    std::fprintf(stderr, "PBT FAILURE: %s\n", msg.c_str());
    abort();
#else
    if (g_msg)
    {
        std::snprintf(g_msg, msg_size, "%s", msg.c_str());
    }
    else
    {
        std::fprintf(stderr, "PBT FAILURE: %s\n", msg.c_str());
    }
    dump_source();
    _exit(77);
#endif
}

void fail_at(const char* file, int line, const char* msg)
{
    fail_impl(std::string(file) + ":" + std::to_string(line) + ": " + msg);
}

void label_impl(const char* lab)
{
    if (!g_sh) return;
    uint64_t h = fnv(lab);
    if (!h) h = 1;
    size_t i = h % max_labels;
    for (int p = 0; p < max_labels; ++p)
    {
        auto& l = g_sh->labels[i];
        uint64_t cur = l.hash.load(std::memory_order_relaxed);
        if (cur == 0)
        {
            if (l.hash.compare_exchange_strong(cur, h)) { std::snprintf(l.text, sizeof l.text, "%s", lab); cur = h; }
        }
        if (cur == h) { l.count.fetch_add(1, std::memory_order_relaxed); return; }
        i = (i + 1) % max_labels;
    }
}

} // namespace pbt

#ifdef PBT_LIBFUZZER

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    using namespace pbt;
    static const Target* t = [] {
        auto n = getenv("PBT_FUZZ_TARGET");
        return n ? find(n) : &targets().front();
    }();
    Source s(data, size);
    try { t->fn(s); }
    catch (std::exception& e) { fail_impl(std::string("unexpected exception: ") + e.what()); }
    catch (...) { fail_impl("unexpected exception"); }
    return 0;
}

#else

int main(int argc, char** argv)
{
    using namespace pbt;
    std::map<std::string, std::string> arg;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto eq = a.find('=');
        if (eq == std::string::npos) arg[a] = "1";
        else arg[a.substr(0, eq)] = a.substr(eq + 1);
    }
    g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (g_sh == MAP_FAILED) { perror("mmap"); return 2; }

    if (arg.count("list"))
    {
        for (auto& t : targets()) std::cout << t.name << " " << t.quick_cases << " " << t.flags << "\n";
        return 0;
    }
    if (arg.count("replay"))
    {
        std::vector<uint64_t> ch;
        std::istringstream in(arg["choices"]);
        std::string tok;
        while (std::getline(in, tok, ',')) if (!tok.empty()) ch.push_back(std::strtoull(tok.c_str(), nullptr, 10));
        return main_replay(arg["target"], ch, nullptr, arg.count("shrink") != 0, arg["out"]);
    }
    if (arg.count("sequence"))
    {
        // sequence=seed,worker,nworkers,idx
        unsigned long long v[4] = {};
        std::sscanf(arg["sequence"].c_str(), "%llu,%llu,%llu,%llu", v, v + 1, v + 2, v + 3);
        auto t = find(arg["target"]);
        if (!t) return 2;
        reset_workers();
        pid_t p = fork();
        if (p == 0) worker_main(int(v[1]), int(v[2]), *t, v[0], v[3] + 1, now() + 600, -1);
        bool hung;
        int st = wait_child(p, 600, hung);
        bool failed = hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        std::cout << (failed ? "FAILED " : "passed ") << g_sh->w[v[1]].msg << "\n";
        return failed;
    }
    if (arg.count("bytes"))
    {
        std::ifstream f(arg["bytes"], std::ios::binary);
        std::vector<uint8_t> b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        return main_replay(arg["target"], {}, &b, true, arg["out"]);
    }

    const uint64_t seed = std::strtoull(arg.count("seed") ? arg["seed"].c_str() : "1", nullptr, 10);
    const double scale = arg.count("scale") ? std::atof(arg["scale"].c_str()) : 1;
    const double wall = arg.count("wall") ? std::atof(arg["wall"].c_str()) : 200;
    int nworkers = arg.count("workers") ? std::atoi(arg["workers"].c_str()) : int(sysconf(_SC_NPROCESSORS_ONLN));
    nworkers = std::max(1, std::min(nworkers, max_workers));
    const std::string only = arg["only"];
    const double t0 = now();
    const double deadline = t0 + wall;

    std::ostringstream js;
    js << "{\"targets\": [";
    bool first = true;
    std::string failure;
    uint64_t total = 0, total_nt = 0;
    std::vector<std::string> samples;
    bool truncated = false;

    size_t tcount = 0, tdone = 0;
    for (auto& t : targets()) if (only.empty() || only == t.name) ++tcount;

    for (auto& t : targets())
    {
        if (!only.empty() && only != t.name) continue;
        ++tdone;
        reset_workers();
        const double tstart = now();
        // share what is left of the wall budget fairly
        const double tdeadline = std::min(deadline, tstart + 3 * std::max(5.0, (deadline - tstart) / double(tcount - tdone + 1)));
        uint64_t n = uint64_t(double(t.quick_cases) * scale);
        if (n < 1) n = 1;
        std::vector<pid_t> pids;
        std::vector<int> fds;
        fflush(nullptr);
        int nw = int(std::min<uint64_t>(uint64_t(nworkers), n));
        for (int w = 0; w < nw; ++w)
        {
            int fd = tmp_fd();
            pid_t p = fork();
            if (p == 0) worker_main(w, nw, t, seed, n, tdeadline, fd);
            pids.push_back(p);
            fds.push_back(fd);
        }
        std::vector<int> status(size_t(nw), -1);
        std::vector<uint64_t> last_started(size_t(nw), 0);
        std::vector<double> last_change(size_t(nw), now());
        int alive = nw;
        int bad = -1;
        bool hang = false;
        while (alive > 0 && bad < 0)
        {
            for (int w = 0; w < nw; ++w)
            {
                if (status[size_t(w)] != -1) continue;
                int st;
                pid_t r = waitpid(pids[size_t(w)], &st, WNOHANG);
                if (r == pids[size_t(w)])
                {
                    status[size_t(w)] = st;
                    --alive;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad = w; break; }
                }
                else if (t.flags & F_THREADS)
                {
                    auto sN = g_sh->w[w].started.load();
                    if (sN != last_started[size_t(w)]) { last_started[size_t(w)] = sN; last_change[size_t(w)] = now(); }
                    else if (now() - last_change[size_t(w)] > 60) { bad = w; hang = true; break; }
                }
            }
            usleep(2000);
        }
        for (int w = 0; w < nw; ++w)
        {
            if (status[size_t(w)] == -1)
            {
                kill(pids[size_t(w)], SIGKILL);
                int st;
                waitpid(pids[size_t(w)], &st, 0);
            }
        }
        uint64_t ev = 0, nt = 0;
        for (int w = 0; w < nw; ++w) { ev += g_sh->w[w].evals; nt += g_sh->w[w].nontrivial; }
        total += ev;
        total_nt += nt;
        if (bad < 0 && ev < n) truncated = true;
        js << (first ? "" : ", ") << "{\"name\": " << jesc(t.name) << ", \"cases\": " << ev << ", \"nontrivial\": " << nt << ", \"wall_s\": " << (now() - tstart) << "}";
        first = false;

        if (bad < 0)
        {
            // a sample of this target's non-trivial cases
            int got = 0;
            for (int k = 0; k < max_samples && got < 2; ++k)
                for (int w = 0; w < nw && got < 2; ++w)
                {
                    if (uint64_t(k) >= g_sh->w[w].samples) continue;
                    auto o = run_child(t, nullptr, case_seed(seed, t, g_sh->w[w].sample_idx[k]), nullptr, true);
                    if (o.failed || o.trace.empty()) { got = 2; break; }
                    if (o.trace.size() > 1200) o.trace = o.trace.substr(0, 1200) + "...";
                    samples.push_back(std::string(t.name) + ": " + o.trace);
                    ++got;
                }
        }
        else
        {
            const uint64_t idx = g_sh->w[bad].cur;
            std::string msg = g_sh->w[bad].msg;
            auto err = sanitizer_summary(read_fd_tail(fds[size_t(bad)]));
            if (!err.empty()) msg += (msg.empty() ? "" : " | ") + err;
            if (hang) msg = "deadlock: no progress within the watchdog time";
            // recover the choices: run the same seed again, recording
            auto o = run_child(t, nullptr, case_seed(seed, t, idx), nullptr, false);
            std::vector<uint64_t> ch = o.choices;
            uint64_t attempts = 0;
            int reproduced = 0;
            if (o.failed)
            {
                if (!hang) ch = shrink(t, ch, 45, attempts);
                int tries = hang ? 1 : 3;
                for (int k = 0; k < tries; ++k)
                {
                    auto r = run_child(t, &ch, 0, nullptr, k == 0);
                    if (r.failed) { ++reproduced; if (k == 0) { msg = r.msg; o.trace = r.trace; } }
                }
                // schedule-dependent failures: retry more often
                if (reproduced < tries && (t.flags & F_THREADS))
                    for (int k = 0; k < 60 && reproduced < 3; ++k) if (run_child(t, &ch, 0, nullptr, false).failed) ++reproduced;
            }
            else if (t.flags & F_THREADS)
            {
                // schedule-dependent: retry the same case
                ch = o.choices;
                for (int k = 0; k < 300 && reproduced < 2; ++k)
                {
                    auto r = run_child(t, &ch, 0, nullptr, true);
                    if (r.failed) { ++reproduced; msg = r.msg; o.trace = r.trace; }
                }
            }
            bool sequence = false;
            if (reproduced == 0 && !hang)
            {
                // the failure may need what earlier cases left behind (heap contents, globals):
                // repeat this worker's cases up to the failing one
                int again = 0;
                for (int k = 0; k < 3; ++k)
                {
                    reset_workers();
                    int fd = tmp_fd();
                    fflush(nullptr);
                    pid_t p = fork();
                    if (p == 0) worker_main(bad, nw, t, seed, idx + 1, now() + 300, fd);
                    bool hung;
                    int st = wait_child(p, 400, hung);
                    if (!hung && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ++again;
                    close(fd);
                }
                if (again == 3) { reproduced = 3; sequence = true; ch.clear(); }
            }
            std::ostringstream f;
            f << "{\"sequence\": " << (sequence ? PBT_STR("[" << seed << "," << bad << "," << nw << "," << idx << "]") : "null") << ", \"target\": " << jesc(t.name) << ", \"message\": " << jesc(msg) << ", \"trace\": " << jesc(o.trace)
              << ", \"choices\": " << jchoices(ch) << ", \"case\": " << idx << ", \"shrink_attempts\": " << attempts
              << ", \"reproduced\": " << reproduced << "}";
            failure = f.str();
        }
        for (int fd : fds) if (fd >= 0) close(fd);
        if (!failure.empty()) break;
    }

    js << "], \"evaluations\": " << total << ", \"nontrivial\": " << total_nt << ", \"distinct_nontrivial\": " << g_sh->distinct.load()
       << ", \"truncated\": " << (truncated ? "true" : "false") << ", \"wall_s\": " << (now() - t0) << ", \"labels\": {";
    first = true;
    for (auto& l : g_sh->labels)
    {
        if (!l.hash.load()) continue;
        js << (first ? "" : ", ") << jesc(l.text) << ": " << l.count.load();
        first = false;
    }
    js << "}, \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) js << (i ? ", " : "") << jesc(samples[i]);
    js << "], \"failure\": " << (failure.empty() ? "null" : failure) << "}\n";
    if (arg.count("out")) { std::ofstream(arg["out"]) << js.str(); }
    else std::cout << js.str();
    return 0;
}

#endif
