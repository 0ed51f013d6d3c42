// Contract language of the deductive verifier in /verif/vf.
//
// A contract harness is an `extern "C" void vf_harness_<name>()` function.  It
// introduces universally quantified inputs (vf_real, vf_int, vf_array, ...),
// states preconditions (vf_assume), calls the REAL code of /repo, and states
// postconditions (vf_check*).  The verifier executes the LLVM IR the compiler
// makes of harness + real code symbolically and discharges every obligation for
// all inputs.  The same harness is also linked against a native runtime
// (vf/native.cpp) that replays counterexamples on the compiled real code.
#ifndef VF_HPP
#define VF_HPP

#include <cmath>
#include <cstddef>
#include <type_traits>

#define VF_BIG 1000000000000L

extern "C" {
/// an arbitrary real number
double vf_real(const char* name) noexcept;
/// an arbitrary real number in [lo, hi]
double vf_real_in(const char* name, double lo, double hi) noexcept;
/// an arbitrary positive real number
double vf_pos(const char* name) noexcept;
/// an arbitrary integer in [lo, hi]
long vf_int(const char* name, long lo, long hi) noexcept;
bool vf_bool(const char* name) noexcept;
/// precondition
void vf_assume(bool cond) noexcept;
/// postconditions
void vf_check(const char* what, bool cond) noexcept;
void vf_check_eq(const char* what, double a, double b) noexcept;
void vf_check_le(const char* what, double a, double b) noexcept;
void vf_check_lt(const char* what, double a, double b) noexcept;
void vf_check_ieq(const char* what, long a, long b) noexcept;
/// precondition of a contracted callee (checked at every call site)
void vf_require(const char* what, bool cond) noexcept;
/// the value is a well defined real (no division by zero, no root of a
/// negative number, no NaN is involved in computing it)
void vf_defined(const char* what, double x) noexcept;
/// reachability (vacuity guard)
void vf_cover(const char* what) noexcept;
/// exceptions may leave the harness from here on
void vf_throws() noexcept;
/// uninterpreted functions: arbitrary, but functions of their arguments
double vf_uf1(const char*, double) noexcept __attribute__((const));
double vf_uf2(const char*, double, double) noexcept __attribute__((const));
double vf_uf3(const char*, double, double, double) noexcept __attribute__((const));
double vf_uf4(const char*, double, double, double, double) noexcept
    __attribute__((const));
double vf_uf5(const char*, double, double, double, double, double) noexcept
    __attribute__((const));
double vf_uf6(const char*, double, double, double, double, double, double) noexcept
    __attribute__((const));
/// arrays of arbitrary content and symbolic extents / strides
double* vf_array(const char* name, long rank, long e0, long e1, long e2, long e3,
                 long s1, long s2, long s3) noexcept;
long* vf_iarray(const char* name, long rank, long e0, long e1, long e2, long e3,
                long s1, long s2, long s3) noexcept;
int* vf_i32array(const char* name, long rank, long e0, long e1, long e2, long e3,
                 long s1, long s2, long s3) noexcept;
}

#endif
