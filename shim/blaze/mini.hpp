// A small stand-in for the parts of Blaze that the repository uses (Blaze itself is not installed).
// Values and interfaces follow Blaze 3: eager evaluation instead of expression templates, and the
// preconditions that Blaze asserts for the low level append interface are checked always.
#ifndef VERIF_MINI_BLAZE_HPP_
#define VERIF_MINI_BLAZE_HPP_

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <initializer_list>
#include <iostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

namespace blaze
{
    using std::size_t;
    constexpr bool columnVector = false;
    constexpr bool rowVector    = true;
    constexpr bool rowMajor     = false;
    constexpr bool columnMajor  = true;

    inline void require(bool c, const char* what)
    {
        if(!c) {
            std::cerr << "blaze: " << what << std::endl;
            std::abort();
        }
    }

    // ---------------------------------------------------------------- static vector
    template <typename T, size_t N, bool TF = columnVector>
    class StaticVector
    {
        T _v[N] = {};

    public:
        using ElementType = T;
        using Iterator      = T*;
        using ConstIterator = const T*;
        StaticVector()      = default;
        explicit StaticVector(const T& x) { std::fill(_v, _v + N, x); }
        StaticVector(std::initializer_list<T> l)
        {
            require(l.size() <= N, "invalid setup of static vector");
            std::copy(l.begin(), l.end(), _v);
        }
        T& operator[](size_t i) { return _v[i]; }
        const T& operator[](size_t i) const { return _v[i]; }
        T& at(size_t i)
        {
            if(i >= N) throw std::out_of_range("Invalid vector access index");
            return _v[i];
        }
        const T& at(size_t i) const
        {
            if(i >= N) throw std::out_of_range("Invalid vector access index");
            return _v[i];
        }
        static constexpr size_t size() { return N; }
        T* data() { return _v; }
        const T* data() const { return _v; }
        T* begin() { return _v; }
        T* end() { return _v + N; }
        const T* begin() const { return _v; }
        const T* end() const { return _v + N; }
        const T* cbegin() const { return _v; }
        const T* cend() const { return _v + N; }
        void reset() { std::fill(_v, _v + N, T()); }
        StaticVector& operator=(const T& x)
        {
            std::fill(_v, _v + N, x);
            return *this;
        }
        template <typename S>
        StaticVector& operator/=(const S& s)
        {
            for(size_t i = 0; i < N; ++i) _v[i] /= s;
            return *this;
        }
        StaticVector& operator+=(const StaticVector& r)
        {
            for(size_t i = 0; i < N; ++i) _v[i] += r[i];
            return *this;
        }
        StaticVector& operator-=(const StaticVector& r)
        {
            for(size_t i = 0; i < N; ++i) _v[i] -= r[i];
            return *this;
        }
        template <typename S>
        StaticVector& operator*=(const S& s)
        {
            for(size_t i = 0; i < N; ++i) _v[i] *= s;
            return *this;
        }
    };
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator+(StaticVector<T, N, TF> a, const StaticVector<T, N, TF>& b)
    {
        a += b;
        return a;
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator-(StaticVector<T, N, TF> a, const StaticVector<T, N, TF>& b)
    {
        a -= b;
        return a;
    }
    template <typename T, size_t N, bool TF>
    bool operator==(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        for(size_t i = 0; i < N; ++i) {
            if(a[i] != b[i]) return false;
        }
        return true;
    }

    template <typename T, size_t N, bool TF>
    bool operator!=(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        return !(a == b);
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator-(StaticVector<T, N, TF> a)
    {
        for(auto& x : a) x = -x;
        return a;
    }

    // ---------------------------------------------------------------- dynamic vector
    template <typename T, bool TF = columnVector>
    class DynamicVector
    {
        std::vector<T> _v;

    public:
        using ElementType   = T;
        using Iterator      = typename std::vector<T>::iterator;
        using ConstIterator = typename std::vector<T>::const_iterator;
        DynamicVector()     = default;
        explicit DynamicVector(size_t n) : _v(n) {}
        DynamicVector(size_t n, const T& x) : _v(n, x) {}
        DynamicVector(std::initializer_list<T> l) : _v(l) {}
        template <typename U>
        DynamicVector(size_t n, const U* a) : _v(a, a + n)
        {
        }
        template <typename U>
        DynamicVector(const DynamicVector<U, TF>& o) : _v(o.begin(), o.end())
        {
        }
        DynamicVector(const DynamicVector&) = default;
        DynamicVector(DynamicVector&&)      = default;
        DynamicVector& operator=(const DynamicVector&) = default;
        DynamicVector& operator=(DynamicVector&&) = default;
        T& at(size_t i)
        {
            if(i >= size()) throw std::out_of_range("Invalid vector access index");
            return _v[i];
        }
        const T& at(size_t i) const
        {
            if(i >= size()) throw std::out_of_range("Invalid vector access index");
            return _v[i];
        }
        ConstIterator cbegin() const { return _v.begin(); }
        ConstIterator cend() const { return _v.end(); }
        size_t capacity() const { return _v.capacity(); }
        void reserve(size_t n) { _v.reserve(n); }
        void extend(size_t n, bool = true) { resize(_v.size() + n); }
        size_t nonZeros() const
        {
            size_t n = 0;
            for(auto& x : _v) n += (x != T());
            return n;
        }
        template <typename S>
        DynamicVector& operator/=(const S& s)
        {
            for(auto& x : _v) x /= s;
            return *this;
        }
        size_t size() const { return _v.size(); }
        T& operator[](size_t i) { return _v[i]; }
        const T& operator[](size_t i) const { return _v[i]; }
        T& operator()(size_t i) { return _v[i]; }
        const T& operator()(size_t i) const { return _v[i]; }
        T* data() { return _v.data(); }
        const T* data() const { return _v.data(); }
        Iterator begin() { return _v.begin(); }
        Iterator end() { return _v.end(); }
        ConstIterator begin() const { return _v.begin(); }
        ConstIterator end() const { return _v.end(); }
        void resize(size_t n, bool preserve = true)
        {
            if(!preserve && n != _v.size()) std::fill(_v.begin(), _v.end(), T(7777)); // unspecified values
            _v.resize(n, T(7777));
        }
        void reset() { std::fill(_v.begin(), _v.end(), T()); }
        void clear() { _v.clear(); }
        void swap(DynamicVector& o) { _v.swap(o._v); }
        DynamicVector& operator=(const T& x)
        {
            std::fill(_v.begin(), _v.end(), x);
            return *this;
        }
        DynamicVector& operator+=(const DynamicVector& r)
        {
            require(size() == r.size(), "vector sizes do not match");
            for(size_t i = 0; i < size(); ++i) _v[i] += r[i];
            return *this;
        }
        DynamicVector& operator-=(const DynamicVector& r)
        {
            require(size() == r.size(), "vector sizes do not match");
            for(size_t i = 0; i < size(); ++i) _v[i] -= r[i];
            return *this;
        }
        template <typename S>
        DynamicVector& operator*=(const S& s)
        {
            for(auto& x : _v) x *= s;
            return *this;
        }
    };
    template <typename T, bool TF>
    DynamicVector<T, TF> operator+(DynamicVector<T, TF> a, const DynamicVector<T, TF>& b)
    {
        a += b;
        return a;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> operator-(DynamicVector<T, TF> a, const DynamicVector<T, TF>& b)
    {
        a -= b;
        return a;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> operator-(DynamicVector<T, TF> a)
    {
        for(auto& x : a) x = -x;
        return a;
    }
    template <typename S>
    struct IsScalar {
        static constexpr bool value = std::is_arithmetic<S>::value;
    };
    template <typename S>
    struct IsScalar<std::complex<S>> {
        static constexpr bool value = true;
    };
    template <typename S, typename T, bool TF>
    typename std::enable_if<IsScalar<S>::value, DynamicVector<T, TF>>::type operator*(const S& s, DynamicVector<T, TF> a)
    {
        a *= s;
        return a;
    }
    template <typename S, typename T, bool TF>
    typename std::enable_if<IsScalar<S>::value, DynamicVector<T, TF>>::type operator*(DynamicVector<T, TF> a, const S& s)
    {
        a *= s;
        return a;
    }
    template <typename S, typename T, bool TF>
    typename std::enable_if<IsScalar<S>::value, DynamicVector<T, TF>>::type operator/(DynamicVector<T, TF> a, const S& s)
    {
        a /= s;
        return a;
    }
    template <typename S, typename T, size_t N, bool TF>
    typename std::enable_if<IsScalar<S>::value, StaticVector<T, N, TF>>::type operator*(const S& s, StaticVector<T, N, TF> a)
    {
        a *= s;
        return a;
    }
    template <typename S, typename T, size_t N, bool TF>
    typename std::enable_if<IsScalar<S>::value, StaticVector<T, N, TF>>::type operator*(StaticVector<T, N, TF> a, const S& s)
    {
        a *= s;
        return a;
    }
    template <typename S, typename T, size_t N, bool TF>
    typename std::enable_if<IsScalar<S>::value, StaticVector<T, N, TF>>::type operator/(StaticVector<T, N, TF> a, const S& s)
    {
        a /= s;
        return a;
    }
    // element by element
    template <typename T, bool TF>
    DynamicVector<T, TF> operator*(DynamicVector<T, TF> a, const DynamicVector<T, TF>& b)
    {
        require(a.size() == b.size(), "vector sizes do not match");
        for(size_t i = 0; i < a.size(); ++i) a[i] *= b[i];
        return a;
    }
    template <typename V>
    typename V::ElementType dot(const V& a, const V& b)
    {
        require(a.size() == b.size(), "vector sizes do not match");
        typename V::ElementType r{};
        for(size_t i = 0; i < b.size(); ++i) r += a[i] * b[i];
        return r;
    }
    template <typename V>
    typename V::ElementType inner(const V& a, const V& b)
    {
        return dot(a, b);
    }
    template <typename T, size_t N, bool TF>
    T operator,(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        return dot(a, b);
    }
    template <typename T, bool TF>
    T operator,(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        return dot(a, b);
    }
    template <typename T, size_t N, bool TF>
    T sqrLength(const StaticVector<T, N, TF>& a)
    {
        return dot(a, a);
    }
    template <typename T, size_t N, bool TF>
    T length(const StaticVector<T, N, TF>& a)
    {
        return std::sqrt(dot(a, a));
    }
    template <typename T, size_t N, bool TF>
    T norm(const StaticVector<T, N, TF>& a)
    {
        return std::sqrt(dot(a, a));
    }
    template <typename T, bool TF>
    DynamicVector<std::complex<T>, TF> conj(DynamicVector<std::complex<T>, TF> a)
    {
        for(auto& x : a) x = std::conj(x);
        return a;
    }
    template <typename T, bool TF>
    bool operator!=(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        return !(a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()));
    }
    template <typename T, bool TF>
    bool operator==(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
    }
    template <typename T, bool TF>
    std::ostream& operator<<(std::ostream& s, const DynamicVector<T, TF>& v)
    {
        for(auto& x : v) s << x << '\n';
        return s;
    }

    template <typename T, bool TF = columnVector>
    class CompressedVector : public DynamicVector<T, TF>
    {
    public:
        using DynamicVector<T, TF>::DynamicVector;
    };

    template <typename V>
    struct Transposed {
        const V& v;
    };
    template <typename V>
    Transposed<V> trans(const V& v)
    {
        return Transposed<V>{v};
    }
    template <typename V>
    typename V::ElementType operator*(const Transposed<V>& a, const V& b)
    {
        require(a.v.size() == b.size(), "vector sizes do not match");
        typename V::ElementType r{};
        for(size_t i = 0; i < b.size(); ++i) r += a.v[i] * b[i];
        return r;
    }

    // ---------------------------------------------------------------- dense matrix
    template <typename T, bool SO = rowMajor>
    class DynamicMatrix
    {
        size_t _r = 0, _c = 0;
        std::vector<T> _v;

    public:
        using ElementType = T;
        DynamicMatrix()   = default;
        DynamicMatrix(size_t r, size_t c) : _r(r), _c(c), _v(r * c) {}
        DynamicMatrix(size_t r, size_t c, const T& x) : _r(r), _c(c), _v(r * c, x) {}
        DynamicMatrix(std::initializer_list<std::initializer_list<T>> l) : _r(l.size())
        {
            for(auto& row : l) _c = std::max(_c, row.size());
            _v.resize(_r * _c);
            size_t i = 0;
            for(auto& row : l) {
                std::copy(row.begin(), row.end(), _v.begin() + static_cast<long>(i * _c));
                ++i;
            }
        }
        size_t rows() const { return _r; }
        size_t columns() const { return _c; }
        T& operator()(size_t i, size_t j) { return _v[i * _c + j]; }
        const T& operator()(size_t i, size_t j) const { return _v[i * _c + j]; }
        void resize(size_t r, size_t c, bool = true)
        {
            if(r == _r && c == _c) return; // nothing to do, the elements stay
            _r = r;
            _c = c;
            _v.assign(r * c, T());
        }
        void reset() { std::fill(_v.begin(), _v.end(), T()); }
        void clear()
        {
            _r = _c = 0;
            _v.clear();
        }
        T& at(size_t i, size_t j)
        {
            if(i >= _r || j >= _c) throw std::out_of_range("Invalid matrix access index");
            return (*this)(i, j);
        }
        const T& at(size_t i, size_t j) const
        {
            if(i >= _r || j >= _c) throw std::out_of_range("Invalid matrix access index");
            return (*this)(i, j);
        }
        void swap(DynamicMatrix& o)
        {
            std::swap(_r, o._r);
            std::swap(_c, o._c);
            _v.swap(o._v);
        }
        typename std::vector<T>::const_iterator begin(size_t i) const { return _v.begin() + static_cast<long>(i * _c); }
        typename std::vector<T>::const_iterator end(size_t i) const { return _v.begin() + static_cast<long>((i + 1) * _c); }
        typename std::vector<T>::iterator begin(size_t i) { return _v.begin() + static_cast<long>(i * _c); }
        typename std::vector<T>::iterator end(size_t i) { return _v.begin() + static_cast<long>((i + 1) * _c); }
        template <typename S>
        DynamicMatrix& operator*=(const S& s)
        {
            for(auto& x : _v) x *= s;
            return *this;
        }
    };
    template <typename T, bool SO>
    DynamicVector<T> operator*(const DynamicMatrix<T, SO>& m, const DynamicVector<T>& v)
    {
        require(m.columns() == v.size(), "matrix and vector sizes do not match");
        DynamicVector<T> r(m.rows());
        for(size_t i = 0; i < m.rows(); ++i) {
            T x{};
            for(size_t j = 0; j < m.columns(); ++j) x += m(i, j) * v[j];
            r[i] = x;
        }
        return r;
    }

    template <typename M>
    size_t rows(const M& m)
    {
        return m.rows();
    }
    template <typename M>
    size_t columns(const M& m)
    {
        return m.columns();
    }
    template <typename M>
    bool isSquare(const M& m)
    {
        return m.rows() == m.columns();
    }
    template <typename T, bool TF>
    size_t size(const DynamicVector<T, TF>& v)
    {
        return v.size();
    }
    template <typename X>
    void reset(X& x)
    {
        x.reset();
    }
    template <typename X>
    void clear(X& x)
    {
        x.clear();
    }

    // ---------------------------------------------------------------- sparse matrix
    template <typename T, bool SO = rowMajor>
    class CompressedMatrix
    {
    public:
        using ElementType = T;
        struct Element {
            size_t _i;
            T _v;
            size_t index() const { return _i; }
            T& value() { return _v; }
            const T& value() const { return _v; }
        };
        using Row = std::vector<Element>;

    private:
        size_t _r = 0, _c = 0, _capacity = 0, _used = 0, _finalized = 0;
        std::vector<Row> _rows;

    public:
        using Iterator      = typename Row::iterator;
        using ConstIterator = typename Row::const_iterator;
        CompressedMatrix()  = default;
        CompressedMatrix(size_t r, size_t c) : _r(r), _c(c), _rows(r) {}
        size_t rows() const { return _r; }
        size_t columns() const { return _c; }
        size_t capacity() const { return _capacity; }
        void resize(size_t r, size_t c, bool preserve = true)
        {
            if(r == _r && c == _c) return; // nothing to do, the elements stay
            if(!preserve) reset();
            _r = r;
            _c = c;
            _rows.resize(r);
        }
        void reset()
        {
            for(auto& r : _rows) r.clear();
            _used = _finalized = 0;
        }
        void clear()
        {
            _r = _c = 0;
            _rows.clear();
            _used = _finalized = 0;
        }
        void reserve(size_t n) { _capacity = std::max(_capacity, n); }
        void reserve(size_t i, size_t n) // more space for one row
        {
            require(i < _r, "reserve: invalid row index");
            if(n > _rows[i].capacity()) _capacity += n - _rows[i].capacity();
            _rows[i].reserve(n);
        }
        void trim() { _capacity = nonZeros(); }
        void swap(CompressedMatrix& o) { std::swap(*this, o); }
        size_t capacity(size_t i) const { return _rows[i].capacity(); }
        ConstIterator cbegin(size_t i) const { return _rows[i].begin(); }
        ConstIterator cend(size_t i) const { return _rows[i].end(); }
        Iterator lowerBound(size_t i, size_t j)
        {
            auto& r = _rows[i];
            return std::lower_bound(r.begin(), r.end(), j, [](const Element& e, size_t c) { return e._i < c; });
        }
        ConstIterator lowerBound(size_t i, size_t j) const
        {
            auto& r = _rows[i];
            return std::lower_bound(r.begin(), r.end(), j, [](const Element& e, size_t c) { return e._i < c; });
        }
        Iterator upperBound(size_t i, size_t j) { return lowerBound(i, j + 1); }
        ConstIterator upperBound(size_t i, size_t j) const { return lowerBound(i, j + 1); }
        Iterator find(size_t i, size_t j)
        {
            auto it = lowerBound(i, j);
            return (it != end(i) && it->_i == j) ? it : end(i);
        }
        ConstIterator find(size_t i, size_t j) const
        {
            auto it = lowerBound(i, j);
            return (it != end(i) && it->_i == j) ? it : end(i);
        }
        Iterator set(size_t i, size_t j, const T& v)
        {
            require(i < _r && j < _c, "set: invalid access index");
            auto it = lowerBound(i, j);
            if(it != end(i) && it->_i == j) it->_v = v;
            else it = _rows[i].insert(it, Element{j, v});
            return it;
        }
        void erase(size_t i, size_t j)
        {
            auto it = find(i, j);
            if(it != end(i)) _rows[i].erase(it);
        }
        Iterator erase(size_t i, Iterator it) { return _rows[i].erase(it); }
        void append(size_t i, size_t j, const T& v, bool check = false)
        {
            require(i < _r && j < _c, "append: invalid access index");
            require(i == _finalized, "append: row is not the current one");
            require(_used < _capacity, "append: capacity exceeded");
            require(_rows[i].empty() || _rows[i].back()._i < j, "append: index is not strictly increasing");
            if(check && v == T()) return;
            _rows[i].push_back(Element{j, v});
            ++_used;
        }
        void finalize(size_t i)
        {
            require(i == _finalized && i < _r, "finalize: rows have to be finalized in order");
            ++_finalized;
        }
        Iterator insert(size_t i, size_t j, const T& v)
        {
            auto& r = _rows[i];
            auto it = std::lower_bound(r.begin(), r.end(), j, [](const Element& e, size_t c) { return e._i < c; });
            require(it == r.end() || it->_i != j, "insert: element exists");
            return r.insert(it, Element{j, v});
        }
        size_t finalized() const { return _finalized; }
        size_t nonZeros() const
        {
            size_t n = 0;
            for(auto& r : _rows) n += r.size();
            return n;
        }
        size_t nonZeros(size_t i) const { return _rows[i].size(); }
        ConstIterator begin(size_t i) const { return _rows[i].begin(); }
        ConstIterator end(size_t i) const { return _rows[i].end(); }
        Iterator begin(size_t i) { return _rows[i].begin(); }
        Iterator end(size_t i) { return _rows[i].end(); }
        // reading access; writing through it (which inserts an element) is not supported: use set
        T operator()(size_t i, size_t j) const
        {
            const auto it = find(i, j);
            return it == end(i) ? T() : it->_v;
        }
        T at(size_t i, size_t j) const
        {
            if(i >= _r || j >= _c) throw std::out_of_range("Invalid matrix access index");
            return (*this)(i, j);
        }
        template <typename S>
        CompressedMatrix& operator*=(const S& s)
        {
            for(auto& r : _rows)
                for(auto& e : r) e._v *= s;
            return *this;
        }
    };
    template <typename T, bool SO>
    DynamicVector<T> operator*(const CompressedMatrix<T, SO>& m, const DynamicVector<T>& v)
    {
        require(m.columns() == v.size(), "matrix and vector sizes do not match");
        DynamicVector<T> r(m.rows());
        for(size_t i = 0; i < m.rows(); ++i) {
            T x{};
            for(auto it = m.begin(i); it != m.end(i); ++it) x += it->value() * v[it->index()];
            r[i] = x;
        }
        return r;
    }

    // ---------------------------------------------------------------- serialization
    template <typename Stream>
    class Archive
    {
        Stream& _s;

        template <typename X>
        void put(const X& x)
        {
            if(!_s.write(reinterpret_cast<const char*>(&x), sizeof(X))) throw std::runtime_error("archive: write failed");
        }
        template <typename X>
        void get(X& x)
        {
            if(!_s.read(reinterpret_cast<char*>(&x), sizeof(X))) throw std::runtime_error("File header is corrupt");
        }

    public:
        explicit Archive(Stream& s) : _s(s) {}
        template <typename T, bool TF>
        Archive& operator<<(const DynamicVector<T, TF>& v)
        {
            put(uint64_t(0xB1A2E));
            put(uint64_t(v.size()));
            for(auto& x : v) put(x);
            return *this;
        }
        template <typename T, bool TF>
        Archive& operator>>(DynamicVector<T, TF>& v)
        {
            uint64_t magic = 0, n = 0;
            get(magic);
            if(magic != 0xB1A2E) throw std::runtime_error("File header is corrupt");
            get(n);
            v.resize(n);
            for(auto& x : v) get(x);
            return *this;
        }
        template <typename T, bool SO>
        Archive& operator<<(const CompressedMatrix<T, SO>& m)
        {
            put(uint64_t(m.rows()));
            put(uint64_t(m.columns()));
            put(uint64_t(m.nonZeros()));
            for(size_t i = 0; i < m.rows(); ++i) {
                for(auto it = m.begin(i); it != m.end(i); ++it) {
                    put(uint64_t(i));
                    put(uint64_t(it->index()));
                    put(it->value());
                }
            }
            return *this;
        }
        template <typename T, bool SO>
        Archive& operator>>(CompressedMatrix<T, SO>& m)
        {
            uint64_t r = 0, c = 0, n = 0, i = 0, j = 0;
            get(r);
            get(c);
            get(n);
            m = CompressedMatrix<T, SO>(r, c);
            for(; n > 0; --n) {
                T x{};
                get(i);
                get(j);
                get(x);
                m.set(i, j, x);
            }
            return *this;
        }
    };
} // namespace blaze

#endif
