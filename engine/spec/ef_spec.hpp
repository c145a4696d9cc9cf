// Reference definitions for the obligations. Parsed by the same front end as the repository and summarised by the same
// analysis; never compiled to code or run.
#ifndef EF_SPEC_HPP
#define EF_SPEC_HPP
#include "EllipticForest.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"
#include <stdexcept>
using namespace EllipticForest;
// precondition: inputs that fail it are outside the property's domain
void ef_assume(bool);
namespace efs {
// value types of the reference definitions, viewed through the same field names as the repository's
struct Vec { std::size_t size_; std::vector<double> data_; };
struct IVec { std::size_t size_; std::vector<int> data_; };
struct Mat { std::size_t nrows_, ncols_; std::vector<double> data_; };
inline void require(bool c) { if (!c) throw std::invalid_argument("rejected"); }
using size = std::size_t;
inline Vec vec(size n) { return Vec{n, std::vector<double>(n)}; }
inline IVec ivec(size n) { return IVec{n, std::vector<int>(n)}; }
inline Mat mat(size n, size m) { return Mat{n, m, std::vector<double>(n * m)}; }
}
#endif
