// C18: information gathered from all processes against the leaves they hold.
#include "mpi_shim.hpp"
#include "space.hpp"
#include <htool/hmatrix/hmatrix_distributed_output.hpp>
#include <sstream>
#ifndef TS
#define TS double
#endif
using namespace hx;
namespace {
typedef TS T; typedef Re<T> P; typedef HMatrix<T, P> H;
const std::string TN = Ty<T>::name();
#include "distinfo.inc"
std::string name = "information<" + TN + ">";
mc::Registrar reg(name.c_str(), information);
} // namespace
