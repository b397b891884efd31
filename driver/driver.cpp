// Conformance driver: replays specification behaviours on the real library.
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <fstream>
#include <iostream>
#include "session.h"
#include "runner.h"
#ifdef WITH_IO
#include "io_replay.h"
#endif

static void replay_one(const J &c, std::vector<std::vector<uint32_t>> *pure = nullptr, bool second = false) {
    Session *s = new Session(); s->pure = pure; s->second = second;     // on failure the process state is not reused
    const J &acts = c["acts"], &log = c["log"];
    for (size_t i = 0; i < acts.size(); i++) {
        current_step = (int) i;
        bool die = log[i]["o"]["k"].str() == "die";
        if (die) about_to_die();
        s->apply(acts[i], log[i]);
        if (die) throw Mismatch(cat("step ", i, " (", acts[i]["op"].str(), ") returned although it must stop the process"));
    }
    delete s;
}

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));     // only in builds with it
// With LEAKS set, the scenario is replayed again and must end with as many bytes allocated as the first time.
template <class F> static void balanced(const J &c, F one) {
    one(c);
    if (!getenv("LEAKS")) return;
    long long before = (long long) __sanitizer_get_current_allocated_bytes();
    one(c);
    long long after = (long long) __sanitizer_get_current_allocated_bytes();
    if (after != before) throw Mismatch(cat("the history leaves ", after - before, " bytes behind"));
}
static bool ends_in_death(const J &c) { auto &l = c["log"]; return l.size() && l[l.size() - 1]["o"]["k"].str() == "die"; }

int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: driver replay FILE [jobs]\n"); return 2; }
    std::string mode = argv[1];
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (mode == "replay")
        return run_all(argv[2], jobs, [](const J &c) { 
            if (getenv("PURE") && !ends_in_death(c)) { std::vector<std::vector<uint32_t>> kept; replay_one(c, &kept); replay_one(c, &kept, true); }
            else if (ends_in_death(c)) replay_one(c); else balanced(c, [](const J &d) { replay_one(d); }); }, ends_in_death);
#ifdef WITH_IO
    if (mode == "io")
        return run_all(argv[2], jobs, [](const J &c) { balanced(c, io_one); }, [](const J &) { return false; });
#endif
    return 2;
}
