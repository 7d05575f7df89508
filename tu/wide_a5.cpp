// Plain aggregates of larger sizes: the functions under contract are the ones called here (generated once).
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
namespace plain {
struct A26 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25; };
struct A31 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30; };
struct A42 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41; };
struct A47 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46; };
struct A58 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57; };
struct A63 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62; };
struct A74 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73; };
struct A79 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78; };
struct A90 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89; };
struct A95 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94; };
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void view_A26(A26 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<26>()); }
void flat_A26(A26 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<26>()); }
void view_A31(A31 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<31>()); }
void flat_A31(A31 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<31>()); }
void view_A42(A42 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<42>()); }
void flat_A42(A42 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<42>()); }
void view_A47(A47 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<47>()); }
void flat_A47(A47 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<47>()); }
void view_A58(A58 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<58>()); }
void flat_A58(A58 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<58>()); }
void view_A63(A63 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<63>()); }
void flat_A63(A63 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<63>()); }
void view_A74(A74 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<74>()); }
void flat_A74(A74 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<74>()); }
void view_A79(A79 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<79>()); }
void flat_A79(A79 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<79>()); }
void view_A90(A90 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<90>()); }
void flat_A90(A90 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<90>()); }
void view_A95(A95 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<95>()); }
void flat_A95(A95 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<95>()); }
}
}
