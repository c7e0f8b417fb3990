// symbolic operators and prefactors
#ifndef VERIF_SYM_HPP_
#define VERIF_SYM_HPP_

#include "alg.hpp"

#include <ieompp/algebra/kronecker.hpp>
#include <ieompp/symbolic/prefactor.hpp>

namespace sym
{
    using namespace alg;
    namespace sy = ieompp::symbolic;

    template <typename T>
    struct Ix {
        static T make(const std::string& s) { return static_cast<T>(std::stol(s)); }
        static std::string text(const T& t) { return ix(t); }
        static const char* sym() { return "false"; }
    };
    template <>
    struct Ix<std::string> {
        static std::string make(const std::string& s) { return s; }
        static std::string text(const std::string& s) { return rec::str(s); }
        static const char* sym() { return "true"; }
    };

    template <typename Op>
    struct S;
    template <typename A>
    struct S<Operator<A>> {
        static Operator<A> make(bool c, const std::vector<std::string>& i)
        {
            return Operator<A>{c, Ix<A>::make(i[0])};
        }
        static std::string idx(const Operator<A>& o) { return "[" + Ix<A>::text(o.index) + "]"; }
        static std::string flags() { return std::string("[") + Ix<A>::sym() + "]"; }
    };
    template <typename A, typename B>
    struct S<Operator<A, B>> {
        static Operator<A, B> make(bool c, const std::vector<std::string>& i)
        {
            return Operator<A, B>{c, Ix<A>::make(i[0]), Ix<B>::make(i[1])};
        }
        static std::string idx(const Operator<A, B>& o)
        {
            return "[" + Ix<A>::text(o.index1) + "," + Ix<B>::text(o.index2) + "]";
        }
        static std::string flags()
        {
            return std::string("[") + Ix<A>::sym() + "," + Ix<B>::sym() + "]";
        }
    };
    template <typename A, typename B, typename C, typename... Ds>
    struct S<Operator<A, B, C, Ds...>> {
        using Op  = Operator<A, B, C, Ds...>;
        using Seq = std::make_index_sequence<3 + sizeof...(Ds)>;
        using Tup = std::tuple<A, B, C, Ds...>;
        template <std::size_t... I>
        static Tup tup(const std::vector<std::string>& i, std::index_sequence<I...>)
        {
            return Tup(Ix<typename std::tuple_element<I, Tup>::type>::make(i[I])...);
        }
        template <std::size_t... I>
        static std::string txt(const Tup& t, std::index_sequence<I...>)
        {
            std::string parts[] = {Ix<typename std::tuple_element<I, Tup>::type>::text(std::get<I>(t))...};
            std::string r       = "[";
            for(std::size_t i = 0; i < sizeof...(I); ++i) {
                r += (i ? "," : "") + parts[i];
            }
            return r + "]";
        }
        static Op make(bool c, const std::vector<std::string>& i) { return Op{c, tup(i, Seq())}; }
        static std::string idx(const Op& o) { return txt(o.indices, Seq()); }
        static std::string flags()
        {
            std::string parts[] = {Ix<A>::sym(), Ix<B>::sym(), Ix<C>::sym(), Ix<Ds>::sym()...};
            std::string r       = "[";
            for(std::size_t i = 0; i < 3 + sizeof...(Ds); ++i) {
                r += (i ? "," : "") + parts[i];
            }
            return r + "]";
        }
    };

    template <typename K>
    std::string krons(const std::vector<K>& ks)
    {
        return rec::list(ks, [](const K& k) { return "[" + rec::str(k.a) + "," + rec::str(k.b) + "]"; });
    }
    template <typename T>
    std::string sterm(const T& t)
    {
        using Op = typename T::Operator;
        return rec::Obj()
            .raw("p", pref(t.prefactor.value))
            .raw("ks", krons(t.prefactor.kroneckers))
            .raw("ops", rec::list(t.operators,
                                  [](const Op& o) {
                                      return rec::Obj().kv("c", o.creator).raw("i", S<Op>::idx(o)).done();
                                  }))
            .done();
    }
    template <typename C>
    std::string sterms(const C& l)
    {
        return rec::list(l, [](const typename C::value_type& t) { return sterm(t); });
    }
} // namespace sym

#endif
