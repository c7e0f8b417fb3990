// A deterministic OpenMP runtime under the control of the conformance driver.
//
// The driver (and with it the headers of the repository) is compiled with -fopenmp and with the
// instrumentation of ThreadSanitizer, but linked with vomp.cpp instead of libgomp/libtsan: threads of
// a parallel region are real threads of which exactly one runs at a time; at every memory access
// the next one can be chosen by a schedule.  Every access is recorded.
#ifndef VERIF_VOMP_HPP_
#define VERIF_VOMP_HPP_

extern "C" {
// max: what omp_get_max_threads() returns; actual: size of the team that a region really gets
// policy: 0 run to completion in order, 1 in reverse order, 2 random switches, 3 pattern of thread numbers
void vomp_setup(int max, int actual, int policy, unsigned long seed, const int* pattern, long length);
// JSON list of the epochs (region, barrier to barrier) recorded since the last call; malloc'ed
char* vomp_take();
// number of switches between threads since the last setup
long vomp_switches();
}

#endif
