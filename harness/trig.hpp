// tables of cos and sin for the specification (computed here, not by the code under test)
#ifndef VERIF_TRIG_HPP_
#define VERIF_TRIG_HPP_
#include "rec.hpp"
namespace trig
{
    inline void emit(rec::Ev& e, long M)
    {
        std::vector<long> c, s;
        for(long j = 0; j < M; ++j) {
            const long double a = 2.L * 3.14159265358979323846264338327950288L * static_cast<long double>(j) / static_cast<long double>(M);
            c.push_back(std::lround(10000.L * cosl(a)));
            s.push_back(std::lround(10000.L * sinl(a)));
        }
        e.kv("M", M).kv("cos", c).kv("sin", s);
    }
    inline double turn(long k, long M) { return 2. * 3.14159265358979323846 * static_cast<double>(k) / static_cast<double>(M); }
} // namespace trig
#endif
