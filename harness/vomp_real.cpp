// the interface of vomp.hpp on the real OpenMP runtime: teams only, no schedules, nothing recorded
#include "vomp.hpp"

#include <cstdlib>
#include <cstring>

#include <omp.h>

extern "C" {
void vomp_setup(int max, int actual, int, unsigned long, const int*, long)
{
    // the real runtime gives no smaller teams than it announces
    omp_set_dynamic(0);
    omp_set_num_threads(max < actual ? max : actual);
}
char* vomp_take() { return strdup("[]"); }
long vomp_switches() { return 0; }
}
