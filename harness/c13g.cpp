// C13: the matrices as the programs of src/hubbard assemble them (i times the equation of motion)
#include "rows.hpp"

#include <complex>

#include <ieompp/types/blaze.hpp>
#include "real_space/basis1.hpp"
#include "real_space/liouvillian.hpp"
#ifdef NORMAL
#include "real_space/matrix_no.hpp"
#else
#include "real_space/matrix.hpp"
#endif
#include <ieompp/models/hubbard_real_space/basis.hpp>

namespace rs = ieompp::models::hubbard_real_space;
using B1     = rs::Basis1Operator<hub::Monomial>;
using B3     = rs::Basis3Operator<hub::Monomial>;

template <typename L>
void glue(const L& l, long J, long U)
{
    hub::geometry(l);
    const auto liou = init_liouvillian(static_cast<double>(J), static_cast<double>(U));
    const B3 b(l);
    basis("real3", b);
#ifdef NORMAL
    // two-point function times 4: depends on whether the sites are equal
    auto ev = [](uint64_t x, uint64_t y) { return x == y ? .5 : -.75; };
    std::string g = "[";
    for(uint64_t i = 0; i < l.size(); ++i) {
        g += i ? ",[" : "[";
        for(uint64_t j = 0; j < l.size(); ++j) g += std::string(j ? "," : "") + (i == j ? "2" : "-3");
        g += "]";
    }
    matrix("normal", compute_matrix(liou, b, l, ev), J, U, 4, g + "]", 16, true);
#else
    matrix("orthogonal", compute_matrix(liou, b, l), J, U, 1, "[]", 1, true);
#endif
    const B1 b1(l);
    basis("real1", b1);
    matrix("kinetic", compute_kinetic_matrix(liou, b1, l), J, U, 1, "[]", 1, true);
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    for(long n = 3; n < 6; ++n) rec::scenario("glue" + std::to_string(n), [=] { glue(hub::Chain(static_cast<uint64_t>(n), 1.), n - 5, 4 * n - 10); });
    rec::scenario("glue3x3", [] { glue(hub::Square(3, 3, 1., 1.), 2, -6); });
    rec::scenario("again", [] { // the same process, other parameters
        glue(hub::Chain(5, 1.), 3, 2);
        glue(hub::Chain(3, 1.), -1, 4);
        glue(hub::Chain(5, 1.), 2, -8);
        glue(hub::Square(3, 3, 1., 1.), 5, 6);
        glue(hub::Chain(3, 1.), 7, 10);
    });
    return rec::run();
}
