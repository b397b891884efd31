// Runs one function per JSON line in forked workers; a crash, exit or hang of
// the library ends only the worker and is reported for the line at fault.
#pragma once
#include <chrono>

static int current_step = 0;
static int err_fd = -1;
static void about_to_die() { if (err_fd >= 0) { fflush(stderr); if (ftruncate(err_fd, 0)) {} lseek(err_fd, 0, SEEK_SET); } }

struct Shared { volatile long next[64]; volatile long done[64]; volatile int step[64]; volatile long fails; };

static std::string slurp_fd(int fd, size_t max = 3000) {
    std::string r; char buf[4096]; lseek(fd, 0, SEEK_SET); ssize_t n;
    while (r.size() < max && (n = read(fd, buf, sizeof buf)) > 0) r.append(buf, n);
    return r.substr(0, max);
}
static std::string oneline(std::string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static int make_err_fd() { char t[] = "/tmp/verif_errXXXXXX"; int f = mkstemp(t); if (f >= 0) unlink(t); return f; }

template <class F, class G> static int run_all(const char *file, int jobs, F one, G dies) {
    std::ifstream in(file); std::vector<std::string> lines; std::string l;
    while (std::getline(in, l)) if (!l.empty()) lines.push_back(l);
    long N = (long) lines.size();
    Shared *sh = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (jobs > 64) jobs = 64;
    std::map<pid_t, int> who; std::vector<int> efd(jobs), rfd(jobs);
    for (int j = 0; j < jobs; j++) { sh->next[j] = j; sh->done[j] = 0; efd[j] = make_err_fd(); rfd[j] = make_err_fd(); }
    int tmo = getenv("CASE_TIMEOUT") ? atoi(getenv("CASE_TIMEOUT")) : 20;
    auto worker = [&](int j) {
        err_fd = efd[j]; dup2(efd[j], 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
        FILE *rep = fdopen(dup(rfd[j]), "a");
        while (sh->next[j] < N) {
            long k = sh->next[j];
            about_to_die();
            std::string msg; bool bad = false, harness = false;
            J c;
            try { c = jparse(lines[k]); } catch (std::exception &e) { fprintf(rep, "HARNESS %ld %s\n", k, oneline(e.what()).c_str()); fflush(rep); sh->next[j] = k + jobs; continue; }
            if (dies(c)) {
                fflush(0);
                pid_t p = fork();
                if (p == 0) {
                    alarm(tmo);
                    try { one(c); } catch (Mismatch &e) { fprintf(rep, "MSG %s\n", oneline(e.what()).c_str()); fflush(rep); _exit(77); }
                    catch (std::exception &e) { fprintf(rep, "HMSG %s\n", oneline(e.what()).c_str()); fflush(rep); _exit(78); }
                    _exit(77);
                }
                int st; waitpid(p, &st, 0);
                std::string err = slurp_fd(efd[j], 20000);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 78) harness = true, msg = "harness";
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) bad = true, msg = "a mismatch, or a result returned, where the process must stop with an error";
                else if (WIFSIGNALED(st)) bad = true, msg = cat("killed by signal ", WTERMSIG(st), " instead of an orderly error exit");
                else if (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98) bad = true, msg = "sanitizer: " + oneline(err.substr(0, 600));
                else if (WEXITSTATUS(st) == 0) bad = true, msg = "exit status 0 for a request that must be refused";
                else {
                    bool has = false; std::istringstream is(err); std::string x;
                    while (std::getline(is, x)) if (!x.empty() && x.compare(0, 9, "[WARNING]") != 0) has = true;
                    if (!has) bad = true, msg = "no message on the error stream";
                }
            } else {
                alarm(tmo);
                try { one(c); } catch (Mismatch &e) { bad = true; msg = cat("step ", current_step, ": ", e.what()); }
                catch (std::exception &e) { harness = true; msg = e.what(); }
                alarm(0);
            }
            if (bad) fprintf(rep, "FAIL %ld %s\n", k, oneline(msg).c_str());
            else if (harness) fprintf(rep, "HARNESS %ld %s\n", k, oneline(msg).c_str());
            fflush(rep);
            sh->done[j] = sh->done[j] + 1;
            sh->next[j] = k + jobs;
            if (bad) { fflush(0); _exit(0); }     // a fresh process after every mismatch
        }
        fflush(0); _exit(0);
    };
    fflush(0);
    auto spawn = [&](int j) { pid_t p = fork(); if (p == 0) worker(j); who[p] = j; };
    for (int j = 0; j < jobs; j++) spawn(j);
    std::vector<std::string> extra; int hangs = 0;
    while (!who.empty()) {
        int st; pid_t p = wait(&st); if (p < 0) break;
        auto it = who.find(p); if (it == who.end()) continue;
        int j = it->second; who.erase(it);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && sh->next[j] < N) {
            long k = sh->next[j];
            std::string err = slurp_fd(efd[j]);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hangs++;
            std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("hang (no result within the time limit)") : cat("killed by signal ", WTERMSIG(st)))
                              : cat("process exited with status ", WEXITSTATUS(st));
            extra.push_back(cat("FAIL ", k, " ", why, "; stderr: ", oneline(err.substr(0, 1200))));
            sh->done[j] = sh->done[j] + 1;
            sh->next[j] = k + jobs;
        } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) extra.push_back("HARNESS -1 worker ended abnormally");
        if (sh->next[j] < N && extra.size() < 200 && hangs < 12) spawn(j);
    }
    long done = 0;
    std::string all;
    for (int j = 0; j < jobs; j++) { done += sh->done[j]; all += slurp_fd(rfd[j], 1000000); }
    for (auto &x : extra) all += x + "\n";
    fputs(all.c_str(), stdout);
    printf("DONE %ld OF %ld\n", done, N);
    return 0;
}
