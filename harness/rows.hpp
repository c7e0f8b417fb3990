// recording rows of sparse matrices
#ifndef ROWS_HPP
#define ROWS_HPP
#include "hub.hpp"

inline double re(double x, bool) { return x; }
inline double re(std::complex<double> x, bool times_i)
{
    if(times_i) x = {x.imag(), -x.real()};
    if(x.imag() != 0) rec::bad("imaginary part");
    return x.real();
}

template <typename M>
void matrix(const char* kind, const M& m, long J, long U, long den, const std::string& g, double scale, bool times_i = false, std::size_t sample = 0)
{
    rec::Ev e("matrix");
    e.kv("kind", kind).kv("J", J).kv("U", U).kv("den", den).raw("g", g);
    e.raw("size", "[" + rec::v(m.rows()) + "," + rec::v(m.columns()) + "]").kv("finalized", m.finalized());
    // all rows, or first, last and some others
    std::vector<std::size_t> which;
    rec::Rng rng(sample);
    for(std::size_t i = 0; i < m.rows(); ++i)
        if(!sample || i == 0 || i + 1 == m.rows() || rng.in(0, static_cast<long>(m.rows() - 1)) < static_cast<long>(sample)) which.push_back(i);
    e.kv("which", which);
    std::string r = "[";
    for(std::size_t i : which) {
        r += i ? ",[" : "[";
        bool first = true;
        for(auto it = m.begin(i); it != m.end(i); ++it) {
            if(!first) r += ",";
            first = false;
            r += "[" + rec::v(it->index()) + "," + rec::num(re(it->value(), times_i) * scale) + "]";
        }
        r += "]";
    }
    e.raw("rows", r + "]");
}

template <typename B>
void basis(const char* kind, const B& b)
{
    rec::Ev("basis").kv("kind", kind).raw("els", hub::elements(b));
}


#endif
