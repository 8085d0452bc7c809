// Runs the cases of one suite in forked workers. Does not include the library (to compile fast).
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <new>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
struct Fail { std::string msg; };
struct Case { std::string name; std::function<void()> run; };
void register_cases(uint64_t seed, bool thorough);
extern "C" { long xt_live = 0; size_t xt_live_bytes = 0; }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); ++xt_live; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); ++xt_live; return p; }
void operator delete(void* p) noexcept { if(p) { --xt_live; free(p); } }
void operator delete[](void* p) noexcept { if(p) { --xt_live; free(p); } }
void operator delete(void* p, size_t) noexcept { if(p) { --xt_live; free(p); } }
void operator delete[](void* p, size_t) noexcept { if(p) { --xt_live; free(p); } }
const char* xt_prop = "?";
std::string xt_case;
long xt_evals = 0;
std::vector<Case> xt_cases;
static std::string clean(std::string s) { for(char& c : s) if((unsigned char)c < 32) c = ' '; return s.substr(0, 1500); }
static std::string run_case(size_t i)
{
    try { xt_cases[i].run(); }
    catch(const Fail& f) { return f.msg + (xt_case.empty() ? "" : " [" + xt_case + "]"); }
    catch(const std::exception& e) { return std::string("unexpected exception: ") + e.what(); }
    catch(...) { return "unexpected foreign exception"; }
    return "";
}
struct Worker { pid_t pid = 0; int fd = -1; std::string buf; size_t cur = 0; bool running = false; };
// usage: harness <prop> <seed> <quick|thorough> [--case N | --limit seconds]
int main(int argc, char** argv)
{
    if(argc < 4) return 2;
    xt_prop = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    bool thorough = !strcmp(argv[3], "thorough");
    register_cases(seed, thorough);
    if(argc > 5 && !strcmp(argv[4], "--case"))
    {
        size_t i = strtoull(argv[5], nullptr, 10);
        if(i >= xt_cases.size()) { printf("no such case\n"); return 2; }
        printf("case %zu: %s\n", i, xt_cases[i].name.c_str()); fflush(stdout);
        std::string m = run_case(i);
        if(!m.empty()) { printf("FAIL %zu %s :: %s\n", i, xt_cases[i].name.c_str(), clean(m).c_str()); return 1; }
        printf("ok\n");
        return 0;
    }
    long limit = argc > 5 && !strcmp(argv[4], "--limit") ? atol(argv[5]) : 100000;
    size_t n = xt_cases.size(), W = 8, fails = 0;
    long evals = 0, done = 0;
    std::set<std::string> names;   // distinct cases that checked at least one condition
    std::vector<Worker> ws(W);
    auto spawn = [&](size_t w, size_t from) {
        int fd[2]; if(pipe(fd)) exit(2);
        fflush(stdout);
        pid_t p = fork();
        if(p == 0)
        {
            close(fd[0]);
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if(!getenv("XT_STDERR")) dup2(nul, 2);
            FILE* o = fdopen(fd[1], "w");
            for(size_t i = from; i < xt_cases.size(); i += W)
            {
                fprintf(o, "S %zu\n", i); fflush(o);
                itimerval tv{}; tv.it_value.tv_sec = 120; setitimer(ITIMER_PROF, &tv, nullptr);   // CPU time of one case
                xt_case.clear(); xt_evals = 0;
                std::string m = run_case(i);
                if(!m.empty()) fprintf(o, "F %zu %s :: %s\n", i, xt_cases[i].name.c_str(), clean(m).c_str());
                fprintf(o, "E %zu %ld\n", i, xt_evals); fflush(o);
            }
            fclose(o);
            _exit(0);
        }
        close(fd[1]);
        ws[w].pid = p; ws[w].fd = fd[0]; ws[w].buf.clear(); ws[w].running = false;
    };
    for(size_t w = 0; w < W; ++w) spawn(w, w);
    time_t start = time(nullptr);
    bool cut = false;
    for(;;)
    {
        std::vector<pollfd> pf; std::vector<size_t> ix;
        for(size_t w = 0; w < W; ++w) if(ws[w].fd >= 0) { pf.push_back({ws[w].fd, POLLIN, 0}); ix.push_back(w); }
        if(pf.empty()) break;
        if(fails >= 8 || time(nullptr) - start > limit) { cut = true; for(auto& x : ws) if(x.fd >= 0) { kill(x.pid, SIGKILL); waitpid(x.pid, nullptr, 0); } break; }
        poll(pf.data(), pf.size(), 1000);
        for(size_t k = 0; k < pf.size(); ++k) if(pf[k].revents)
        {
            Worker& x = ws[ix[k]]; char b[65536]; ssize_t r = read(x.fd, b, sizeof b);
            if(r > 0)
            {
                x.buf.append(b, size_t(r)); size_t p;
                while((p = x.buf.find('\n')) != std::string::npos)
                {
                    std::string l = x.buf.substr(0, p); x.buf.erase(0, p + 1); size_t i; long e;
                    if(l[0] == 'S') { x.cur = strtoull(l.c_str() + 2, nullptr, 10); x.running = true; }
                    else if(l[0] == 'E' && sscanf(l.c_str() + 2, "%zu %ld", &i, &e) == 2)
                    {
                        evals += e; ++done; x.running = false;
                        if(e > 0 && names.insert(xt_cases[i].name).second && names.size() <= 400 && (names.size() & (names.size() - 1)) == 0)
                            printf("SAMPLE %zu %s :: %ld conditions checked\n", i, clean(xt_cases[i].name).c_str(), e);
                    }
                    else if(l[0] == 'F') { ++fails; printf("FAIL %s\n", l.c_str() + 2); fflush(stdout); }
                }
                continue;
            }
            int st = 0; waitpid(x.pid, &st, 0); close(x.fd); x.fd = -1;
            if(x.running)
            {
                ++fails; ++done;
                bool slow = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
                printf("FAIL %zu %s :: the process died (%s %d%s) while running this case\n", x.cur, xt_cases[x.cur].name.c_str(),
                    WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), slow ? ", over 120 s of processor time" : "");
                fflush(stdout);
                if(x.cur + W < n) spawn(ix[k], x.cur + W);
            }
        }
    }
    printf("SUMMARY cases=%zu done=%ld evaluations=%ld distinct=%zu fails=%zu cut=%d\n", n, done, evals, names.size(), fails, int(cut));
    return fails ? 1 : 0;
}
