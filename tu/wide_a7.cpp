// Plain aggregates of larger sizes: the functions under contract are the ones called here (generated once).
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
namespace plain {
struct A28 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27; };
struct A29 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28; };
struct A44 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43; };
struct A45 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44; };
struct A60 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59; };
struct A61 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60; };
struct A76 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75; };
struct A77 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76; };
struct A92 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91; };
struct A93 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92; };
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void view_A28(A28 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<28>()); }
void flat_A28(A28 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<28>()); }
void view_A29(A29 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<29>()); }
void flat_A29(A29 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<29>()); }
void view_A44(A44 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<44>()); }
void flat_A44(A44 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<44>()); }
void view_A45(A45 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<45>()); }
void flat_A45(A45 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<45>()); }
void view_A60(A60 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<60>()); }
void flat_A60(A60 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<60>()); }
void view_A61(A61 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<61>()); }
void flat_A61(A61 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<61>()); }
void view_A76(A76 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<76>()); }
void flat_A76(A76 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<76>()); }
void view_A77(A77 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<77>()); }
void flat_A77(A77 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<77>()); }
void view_A92(A92 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<92>()); }
void flat_A92(A92 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<92>()); }
void view_A93(A93 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<93>()); }
void flat_A93(A93 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<93>()); }
}
}
