// dal/math/random/sobol.cpp is absent from this copy of the repository; its only entry point fails here.
#pragma once
#include <cstddef>
#include <stdexcept>
namespace Dal {
    class SequenceSet_;
    __attribute__((weak)) SequenceSet_* NewSobol(int, size_t, bool) { throw std::runtime_error("sobol is not available"); }
}
