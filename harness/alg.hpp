// helpers for the drivers of the operator algebra
#ifndef VERIF_ALG_HPP_
#define VERIF_ALG_HPP_

#include <string>
using namespace std; // kronecker.hpp relies on an unqualified to_string (see DESIGN.md)

#include "rec.hpp"

#include <ieompp/algebra/operator.hpp>

#include <complex>
#include <tuple>

namespace alg
{
    using namespace ieompp::algebra;

    // Build operators from a plain list of index values.
    template <typename Op>
    struct Make;

    template <typename T>
    T conv(long x)
    {
        return static_cast<T>(x);
    }

    // index values are only compared for equality by the specification, so they travel as text
    // (TLC's integers have 32 bits)
    template <typename T>
    std::string ix(T x)
    {
        return "\"" + std::to_string(x) + "\"";
    }

    template <typename A>
    struct Make<Operator<A>> {
        static Operator<A> make(bool c, const std::vector<long>& i)
        {
            return Operator<A>{c, conv<A>(i[0])};
        }
        static std::string idx(const Operator<A>& o) { return "[" + ix(+o.index) + "]"; }
    };
    template <typename A, typename B>
    struct Make<Operator<A, B>> {
        static Operator<A, B> make(bool c, const std::vector<long>& i)
        {
            return Operator<A, B>{c, conv<A>(i[0]), conv<B>(i[1])};
        }
        static std::string idx(const Operator<A, B>& o)
        {
            return "[" + ix(+o.index1) + "," + ix(+o.index2) + "]";
        }
    };
    template <typename A, typename B, typename C>
    struct Make<Operator<A, B, C>> {
        static Operator<A, B, C> make(bool c, const std::vector<long>& i)
        {
            return Operator<A, B, C>{c, std::make_tuple(conv<A>(i[0]), conv<B>(i[1]), conv<C>(i[2]))};
        }
        static std::string idx(const Operator<A, B, C>& o)
        {
            return "[" + ix(+std::get<0>(o.indices)) + "," + ix(+std::get<1>(o.indices)) + ","
                   + ix(+std::get<2>(o.indices)) + "]";
        }
    };
    template <typename A, typename B, typename C, typename D>
    struct Make<Operator<A, B, C, D>> {
        static Operator<A, B, C, D> make(bool c, const std::vector<long>& i)
        {
            return Operator<A, B, C, D>{
                c, std::make_tuple(conv<A>(i[0]), conv<B>(i[1]), conv<C>(i[2]), conv<D>(i[3]))};
        }
        static std::string idx(const Operator<A, B, C, D>& o)
        {
            return "[" + ix(+std::get<0>(o.indices)) + "," + ix(+std::get<1>(o.indices)) + ","
                   + ix(+std::get<2>(o.indices)) + "," + ix(+std::get<3>(o.indices)) + "]";
        }
    };

    template <typename Op>
    std::string op(const Op& o)
    {
        return rec::Obj().kv("c", o.creator).raw("i", Make<Op>::idx(o)).done();
    }
    template <typename C>
    std::string ops(const C& l)
    {
        return rec::list(l, [](const typename C::value_type& o) { return op(o); });
    }

    // prefactors are reported as Gaussian integers
    inline std::string pref(double p) { return rec::v(std::complex<double>(p, 0)); }
    inline std::string pref(float p) { return rec::v(std::complex<float>(p, 0)); }
    inline std::string pref(int p) { return "[" + rec::v(p) + ",0]"; }
    inline std::string pref(const std::complex<double>& p) { return rec::v(p); }
    inline std::string pref(const std::complex<float>& p) { return rec::v(p); }

    template <typename P>
    struct MakePref {
        static P make(long re, long) { return static_cast<P>(re); }
    };
    template <typename T>
    struct MakePref<std::complex<T>> {
        static std::complex<T> make(long re, long im)
        {
            return std::complex<T>(static_cast<T>(re), static_cast<T>(im));
        }
    };

    template <typename T>
    std::string term(const T& t)
    {
        return rec::Obj().raw("p", pref(t.prefactor)).raw("ops", ops(t.operators)).done();
    }
    template <typename C>
    std::string terms(const C& l)
    {
        return rec::list(l, [](const typename C::value_type& t) { return term(t); });
    }
} // namespace alg

#endif
