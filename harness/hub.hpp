// shared by the drivers of the Hubbard model code (bases, matrices, observables)
#ifndef VERIF_HUB_HPP_
#define VERIF_HUB_HPP_

#include <string>
using namespace std; // kronecker.hpp relies on an unqualified to_string (see DESIGN.md)

#include "rec.hpp"

#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>

namespace hub
{
    using Op       = ieompp::algebra::Operator<uint64_t, bool>;
    using Monomial = ieompp::algebra::Monomial<Op>;
    using Chain    = ieompp::lattices::PeriodicChain<double, uint64_t>;
    using Square   = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;

    inline std::string enc(const Op& o)
    {
        return "[" + rec::v(o.creator) + "," + rec::v(o.index1) + "," + rec::v(static_cast<bool>(o.index2)) + "]";
    }
    template <typename M>
    std::string element(const M& m)
    {
        return rec::list(m, [](const typename M::Operator& o) { return "[" + rec::v(o.creator) + "," + rec::v(o.index1) + "," + rec::v(static_cast<bool>(o.index2)) + "]"; });
    }
    template <typename B>
    std::string elements(const B& b)
    {
        return rec::list(b, [](const typename B::Monomial& m) { return element(m); });
    }
    inline std::vector<long> extents(const Chain& c) { return {static_cast<long>(c.size())}; }
    inline std::vector<long> extents(const Square& s) { return {static_cast<long>(s.size_x()), static_cast<long>(s.size_y())}; }
    inline std::vector<long> position(const Chain&, uint64_t i) { return {static_cast<long>(i)}; }
    inline std::vector<long> position(const Square& s, uint64_t i) { return {static_cast<long>(s.x_index(i)), static_cast<long>(s.y_index(i))}; }
    template <typename L>
    void geometry(const L& l)
    {
        std::vector<std::vector<long>> pos;
        for(uint64_t i = 0; i < l.size(); ++i) pos.push_back(position(l, i));
        rec::Ev("geometry").kv("d", extents(l)).kv("pos", pos);
    }
} // namespace hub

#endif
