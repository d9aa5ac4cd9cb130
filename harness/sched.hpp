// A controlled scheduler and data-race detector that stands in for the OpenMP runtime and the ThreadSanitizer runtime.
//
// The library is compiled with -fopenmp -fsanitize=thread and linked against this file instead of libgomp and libtsan, so
// every parallel region, critical section, lock, atomic operation, barrier and shared loop of the real code ends up here,
// and so does every memory access. One thread runs at a time; at every synchronisation operation the explorer chooses which
// thread goes on (all choices, up to a bound on preemptions). A happens-before race detector checks every access, so code between
// two synchronisation operations need not be interleaved: where there is no race, doing so cannot be observed.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Config
{
    int max_threads = 1;      // omp_get_max_threads()
    int limit = 8;            // a team never has more threads than this (the runtime may provide fewer than asked for)
    int focus = -1;           // parallel region whose schedules are explored; all others use the first schedule. -1: none
    int preemptions = 0;      // bound, in the region in focus
    bool detect = true;       // race detection (in the region in focus; everywhere if there is none)
    std::function<int(int)> choose;
};
extern Config cfg;

struct Report
{
    int regions = 0;          // parallel regions with more than one thread so far
    long syncs = 0, accesses = 0, switches = 0, choices = 0;
    std::vector<std::string> races, errors;
    std::vector<int> region_syncs;   // per region, synchronisation operations inside
    std::vector<const void*> region_site;
};
extern Report rep;

// Run f under the scheduler; returns false if the threads got stuck (rep.errors says how).
bool run(const std::function<void()>& f);
// Run user threads concurrently (call inside run()).
void together(const std::vector<std::function<void()>>& f);
}
