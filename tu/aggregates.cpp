// Plain aggregates: the functions under contract are the ones called here.
// (generated once; opaque field types are only declared: their contracts are assumed, everything between them is the real code)
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
#include <maf/utils/cppextension/TupleDiff.h>
#include <memory>
#include <string>
#include <tuple>
#include <new>
#define OPAQUE(N)                        \
  struct N {                             \
    int v;                               \
    N();                                 \
    N(const N &);                        \
    N(N &&);                             \
    N &operator=(const N &);             \
    N &operator=(N &&);                  \
    ~N();                                \
    bool operator<(const N &) const;     \
    bool operator==(const N &) const;    \
    bool operator!=(const N &) const;    \
  };
OPAQUE(Opaque)
OPAQUE(OpaqueB)
OPAQUE(OpaqueC)
namespace plain {
struct A1 { Opaque f0; };
struct A2 { Opaque f0; OpaqueB f1; };
struct A3 { Opaque f0; OpaqueB f1; OpaqueC f2; };
struct A4 { Opaque f0; OpaqueB f1; OpaqueC f2; Opaque f3; };
struct A5 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; };
struct A6 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; };
struct A7 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; };
struct A8 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; };
struct A9 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; };
struct A10 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; };
struct A11 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; };
struct A12 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; };
struct A13 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; };
struct A14 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; };
struct A15 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; };
struct A16 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; unsigned f15; };
struct A17 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; unsigned f15; unsigned f16; };
struct A18 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; unsigned f15; unsigned f16; unsigned f17; };
struct A19 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; unsigned f15; unsigned f16; unsigned f17; unsigned f18; };
struct A20 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; unsigned f15; unsigned f16; unsigned f17; unsigned f18; unsigned f19; };
struct A21 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; unsigned f15; unsigned f16; unsigned f17; unsigned f18; unsigned f19; unsigned f20; };
struct A22 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; unsigned f15; unsigned f16; unsigned f17; unsigned f18; unsigned f19; unsigned f20; unsigned f21; };
struct A23 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; unsigned f15; unsigned f16; unsigned f17; unsigned f18; unsigned f19; unsigned f20; unsigned f21; unsigned f22; };
struct A24 { unsigned f0; unsigned f1; unsigned f2; unsigned f3; unsigned f4; unsigned f5; unsigned f6; unsigned f7; unsigned f8; unsigned f9; unsigned f10; unsigned f11; unsigned f12; unsigned f13; unsigned f14; unsigned f15; unsigned f16; unsigned f17; unsigned f18; unsigned f19; unsigned f20; unsigned f21; unsigned f22; unsigned f23; };
struct AN { unsigned f0; A2 f1; unsigned f2; };
struct Each { void *p[24]; size_t n = 0; template <class T> void operator()(T &e) { p[n++] = (void *)&e; } };
extern "C" {
void view_A1(A1 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); }
void cview_A1(const A1 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); }
void flat_A1(A1 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); }
void each_A1(A1 &r, Each &e) { maf::nstl::for_each_field(r, [&](auto &x) { e(x); }); }
void view_A2(A2 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); }
void cview_A2(const A2 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); }
void flat_A2(A2 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); }
void each_A2(A2 &r, Each &e) { maf::nstl::for_each_field(r, [&](auto &x) { e(x); }); }
void view_A3(A3 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); }
void cview_A3(const A3 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); }
void flat_A3(A3 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); }
void each_A3(A3 &r, Each &e) { maf::nstl::for_each_field(r, [&](auto &x) { e(x); }); }
void view_A4(A4 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); }
void cview_A4(const A4 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); }
void flat_A4(A4 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); }
void each_A4(A4 &r, Each &e) { maf::nstl::for_each_field(r, [&](auto &x) { e(x); }); }
void view_A5(A5 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); }
void cview_A5(const A5 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); }
void flat_A5(A5 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); }
void each_A5(A5 &r, Each &e) { maf::nstl::for_each_field(r, [&](auto &x) { e(x); }); }
void view_A6(A6 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); }
void cview_A6(const A6 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); }
void flat_A6(A6 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); }
void view_A7(A7 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); }
void cview_A7(const A7 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); }
void flat_A7(A7 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); }
void view_A8(A8 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); }
void cview_A8(const A8 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); }
void flat_A8(A8 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); }
void view_A9(A9 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); }
void cview_A9(const A9 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); }
void flat_A9(A9 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); }
void each_A9(A9 &r, Each &e) { maf::nstl::for_each_field(r, [&](auto &x) { e(x); }); }
void view_A10(A10 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); }
void cview_A10(const A10 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); }
void flat_A10(A10 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); }
void view_A11(A11 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); }
void cview_A11(const A11 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); }
void flat_A11(A11 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); }
void view_A12(A12 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); }
void cview_A12(const A12 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); }
void flat_A12(A12 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); }
void view_A13(A13 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); }
void cview_A13(const A13 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); }
void flat_A13(A13 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); }
void view_A14(A14 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); }
void cview_A14(const A14 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); }
void flat_A14(A14 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); }
void view_A15(A15 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); }
void cview_A15(const A15 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); }
void flat_A15(A15 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); }
void view_A16(A16 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); }
void cview_A16(const A16 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); p[15] = (const void *)&std::get<15>(t); }
void flat_A16(A16 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); }
void each_A16(A16 &r, Each &e) { maf::nstl::for_each_field(r, [&](auto &x) { e(x); }); }
void view_A17(A17 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); }
void cview_A17(const A17 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); p[15] = (const void *)&std::get<15>(t); p[16] = (const void *)&std::get<16>(t); }
void flat_A17(A17 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); }
void view_A18(A18 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); }
void cview_A18(const A18 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); p[15] = (const void *)&std::get<15>(t); p[16] = (const void *)&std::get<16>(t); p[17] = (const void *)&std::get<17>(t); }
void flat_A18(A18 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); }
void view_A19(A19 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); }
void cview_A19(const A19 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); p[15] = (const void *)&std::get<15>(t); p[16] = (const void *)&std::get<16>(t); p[17] = (const void *)&std::get<17>(t); p[18] = (const void *)&std::get<18>(t); }
void flat_A19(A19 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); }
void view_A20(A20 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); }
void cview_A20(const A20 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); p[15] = (const void *)&std::get<15>(t); p[16] = (const void *)&std::get<16>(t); p[17] = (const void *)&std::get<17>(t); p[18] = (const void *)&std::get<18>(t); p[19] = (const void *)&std::get<19>(t); }
void flat_A20(A20 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); }
void view_A21(A21 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); p[20] = (void *)&std::get<20>(t); }
void cview_A21(const A21 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); p[15] = (const void *)&std::get<15>(t); p[16] = (const void *)&std::get<16>(t); p[17] = (const void *)&std::get<17>(t); p[18] = (const void *)&std::get<18>(t); p[19] = (const void *)&std::get<19>(t); p[20] = (const void *)&std::get<20>(t); }
void flat_A21(A21 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); p[20] = (void *)&std::get<20>(t); }
void view_A22(A22 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); p[20] = (void *)&std::get<20>(t); p[21] = (void *)&std::get<21>(t); }
void cview_A22(const A22 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); p[15] = (const void *)&std::get<15>(t); p[16] = (const void *)&std::get<16>(t); p[17] = (const void *)&std::get<17>(t); p[18] = (const void *)&std::get<18>(t); p[19] = (const void *)&std::get<19>(t); p[20] = (const void *)&std::get<20>(t); p[21] = (const void *)&std::get<21>(t); }
void flat_A22(A22 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); p[20] = (void *)&std::get<20>(t); p[21] = (void *)&std::get<21>(t); }
void view_A23(A23 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); p[20] = (void *)&std::get<20>(t); p[21] = (void *)&std::get<21>(t); p[22] = (void *)&std::get<22>(t); }
void cview_A23(const A23 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); p[15] = (const void *)&std::get<15>(t); p[16] = (const void *)&std::get<16>(t); p[17] = (const void *)&std::get<17>(t); p[18] = (const void *)&std::get<18>(t); p[19] = (const void *)&std::get<19>(t); p[20] = (const void *)&std::get<20>(t); p[21] = (const void *)&std::get<21>(t); p[22] = (const void *)&std::get<22>(t); }
void flat_A23(A23 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); p[20] = (void *)&std::get<20>(t); p[21] = (void *)&std::get<21>(t); p[22] = (void *)&std::get<22>(t); }
void view_A24(A24 &r, void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); p[20] = (void *)&std::get<20>(t); p[21] = (void *)&std::get<21>(t); p[22] = (void *)&std::get<22>(t); p[23] = (void *)&std::get<23>(t); }
void cview_A24(const A24 &r, const void **p) { auto t = maf::nstl::tuple_view(r); p[0] = (const void *)&std::get<0>(t); p[1] = (const void *)&std::get<1>(t); p[2] = (const void *)&std::get<2>(t); p[3] = (const void *)&std::get<3>(t); p[4] = (const void *)&std::get<4>(t); p[5] = (const void *)&std::get<5>(t); p[6] = (const void *)&std::get<6>(t); p[7] = (const void *)&std::get<7>(t); p[8] = (const void *)&std::get<8>(t); p[9] = (const void *)&std::get<9>(t); p[10] = (const void *)&std::get<10>(t); p[11] = (const void *)&std::get<11>(t); p[12] = (const void *)&std::get<12>(t); p[13] = (const void *)&std::get<13>(t); p[14] = (const void *)&std::get<14>(t); p[15] = (const void *)&std::get<15>(t); p[16] = (const void *)&std::get<16>(t); p[17] = (const void *)&std::get<17>(t); p[18] = (const void *)&std::get<18>(t); p[19] = (const void *)&std::get<19>(t); p[20] = (const void *)&std::get<20>(t); p[21] = (const void *)&std::get<21>(t); p[22] = (const void *)&std::get<22>(t); p[23] = (const void *)&std::get<23>(t); }
void flat_A24(A24 &r, void **p) { auto t = maf::nstl::flaten(r); p[0] = (void *)&std::get<0>(t); p[1] = (void *)&std::get<1>(t); p[2] = (void *)&std::get<2>(t); p[3] = (void *)&std::get<3>(t); p[4] = (void *)&std::get<4>(t); p[5] = (void *)&std::get<5>(t); p[6] = (void *)&std::get<6>(t); p[7] = (void *)&std::get<7>(t); p[8] = (void *)&std::get<8>(t); p[9] = (void *)&std::get<9>(t); p[10] = (void *)&std::get<10>(t); p[11] = (void *)&std::get<11>(t); p[12] = (void *)&std::get<12>(t); p[13] = (void *)&std::get<13>(t); p[14] = (void *)&std::get<14>(t); p[15] = (void *)&std::get<15>(t); p[16] = (void *)&std::get<16>(t); p[17] = (void *)&std::get<17>(t); p[18] = (void *)&std::get<18>(t); p[19] = (void *)&std::get<19>(t); p[20] = (void *)&std::get<20>(t); p[21] = (void *)&std::get<21>(t); p[22] = (void *)&std::get<22>(t); p[23] = (void *)&std::get<23>(t); }
void each_A24(A24 &r, Each &e) { maf::nstl::for_each_field(r, [&](auto &x) { e(x); }); }
bool eq_A1(const A1 &a, const A1 &b) { using namespace maf::nstl; return a == b; }
bool ne_A1(const A1 &a, const A1 &b) { using namespace maf::nstl; return a != b; }
bool lt_A1(const A1 &a, const A1 &b) { using namespace maf::nstl; return a < b; }
bool gt_A1(const A1 &a, const A1 &b) { using namespace maf::nstl; return a > b; }
bool le_A1(const A1 &a, const A1 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A1(const A1 &a, const A1 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A2(const A2 &a, const A2 &b) { using namespace maf::nstl; return a == b; }
bool ne_A2(const A2 &a, const A2 &b) { using namespace maf::nstl; return a != b; }
bool lt_A2(const A2 &a, const A2 &b) { using namespace maf::nstl; return a < b; }
bool gt_A2(const A2 &a, const A2 &b) { using namespace maf::nstl; return a > b; }
bool le_A2(const A2 &a, const A2 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A2(const A2 &a, const A2 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A3(const A3 &a, const A3 &b) { using namespace maf::nstl; return a == b; }
bool ne_A3(const A3 &a, const A3 &b) { using namespace maf::nstl; return a != b; }
bool lt_A3(const A3 &a, const A3 &b) { using namespace maf::nstl; return a < b; }
bool gt_A3(const A3 &a, const A3 &b) { using namespace maf::nstl; return a > b; }
bool le_A3(const A3 &a, const A3 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A3(const A3 &a, const A3 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A4(const A4 &a, const A4 &b) { using namespace maf::nstl; return a == b; }
bool ne_A4(const A4 &a, const A4 &b) { using namespace maf::nstl; return a != b; }
bool lt_A4(const A4 &a, const A4 &b) { using namespace maf::nstl; return a < b; }
bool gt_A4(const A4 &a, const A4 &b) { using namespace maf::nstl; return a > b; }
bool le_A4(const A4 &a, const A4 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A4(const A4 &a, const A4 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A5(const A5 &a, const A5 &b) { using namespace maf::nstl; return a == b; }
bool ne_A5(const A5 &a, const A5 &b) { using namespace maf::nstl; return a != b; }
bool lt_A5(const A5 &a, const A5 &b) { using namespace maf::nstl; return a < b; }
bool gt_A5(const A5 &a, const A5 &b) { using namespace maf::nstl; return a > b; }
bool le_A5(const A5 &a, const A5 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A5(const A5 &a, const A5 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A6(const A6 &a, const A6 &b) { using namespace maf::nstl; return a == b; }
bool ne_A6(const A6 &a, const A6 &b) { using namespace maf::nstl; return a != b; }
bool lt_A6(const A6 &a, const A6 &b) { using namespace maf::nstl; return a < b; }
bool gt_A6(const A6 &a, const A6 &b) { using namespace maf::nstl; return a > b; }
bool le_A6(const A6 &a, const A6 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A6(const A6 &a, const A6 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A7(const A7 &a, const A7 &b) { using namespace maf::nstl; return a == b; }
bool ne_A7(const A7 &a, const A7 &b) { using namespace maf::nstl; return a != b; }
bool lt_A7(const A7 &a, const A7 &b) { using namespace maf::nstl; return a < b; }
bool gt_A7(const A7 &a, const A7 &b) { using namespace maf::nstl; return a > b; }
bool le_A7(const A7 &a, const A7 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A7(const A7 &a, const A7 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A8(const A8 &a, const A8 &b) { using namespace maf::nstl; return a == b; }
bool ne_A8(const A8 &a, const A8 &b) { using namespace maf::nstl; return a != b; }
bool lt_A8(const A8 &a, const A8 &b) { using namespace maf::nstl; return a < b; }
bool gt_A8(const A8 &a, const A8 &b) { using namespace maf::nstl; return a > b; }
bool le_A8(const A8 &a, const A8 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A8(const A8 &a, const A8 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A12(const A12 &a, const A12 &b) { using namespace maf::nstl; return a == b; }
bool ne_A12(const A12 &a, const A12 &b) { using namespace maf::nstl; return a != b; }
bool lt_A12(const A12 &a, const A12 &b) { using namespace maf::nstl; return a < b; }
bool gt_A12(const A12 &a, const A12 &b) { using namespace maf::nstl; return a > b; }
bool le_A12(const A12 &a, const A12 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A12(const A12 &a, const A12 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A16(const A16 &a, const A16 &b) { using namespace maf::nstl; return a == b; }
bool ne_A16(const A16 &a, const A16 &b) { using namespace maf::nstl; return a != b; }
bool lt_A16(const A16 &a, const A16 &b) { using namespace maf::nstl; return a < b; }
bool gt_A16(const A16 &a, const A16 &b) { using namespace maf::nstl; return a > b; }
bool le_A16(const A16 &a, const A16 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A16(const A16 &a, const A16 &b) { using namespace maf::nstl; return a >= b; }
bool eq_A24(const A24 &a, const A24 &b) { using namespace maf::nstl; return a == b; }
bool ne_A24(const A24 &a, const A24 &b) { using namespace maf::nstl; return a != b; }
bool lt_A24(const A24 &a, const A24 &b) { using namespace maf::nstl; return a < b; }
bool gt_A24(const A24 &a, const A24 &b) { using namespace maf::nstl; return a > b; }
bool le_A24(const A24 &a, const A24 &b) { using namespace maf::nstl; return a <= b; }
bool ge_A24(const A24 &a, const A24 &b) { using namespace maf::nstl; return a >= b; }
bool eq_AN(const AN &a, const AN &b) { using namespace maf::nstl; return a == b; }
bool ne_AN(const AN &a, const AN &b) { using namespace maf::nstl; return a != b; }
bool lt_AN(const AN &a, const AN &b) { using namespace maf::nstl; return a < b; }
bool gt_AN(const AN &a, const AN &b) { using namespace maf::nstl; return a > b; }
bool le_AN(const AN &a, const AN &b) { using namespace maf::nstl; return a <= b; }
bool ge_AN(const AN &a, const AN &b) { using namespace maf::nstl; return a >= b; }
}
using TD = std::tuple<Opaque, OpaqueB, Opaque>;
extern "C" unsigned long diff_TD(TD &a, TD &b) { return maf::util::tuple_diff(a, b).to_ulong(); }
}
namespace plain {
struct AC { Opaque f0; unsigned f1; };
MC_MAF_MAKE_COMPARABLE(AC)
extern "C" {
bool eq_AC(const AC &a, const AC &b) { return a == b; }
bool ne_AC(const AC &a, const AC &b) { return a != b; }
bool lt_AC(const AC &a, const AC &b) { return a < b; }
bool gt_AC(const AC &a, const AC &b) { return a > b; }
bool le_AC(const AC &a, const AC &b) { return a <= b; }
bool ge_AC(const AC &a, const AC &b) { return a >= b; }
}
}
