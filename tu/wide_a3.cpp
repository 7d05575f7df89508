// Plain aggregates of larger sizes: the functions under contract are the ones called here (generated once).
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
namespace plain {
struct A33 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32; };
struct A40 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39; };
struct A49 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48; };
struct A56 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55; };
struct A65 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64; };
struct A72 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71; };
struct A81 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80; };
struct A88 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87; };
struct A97 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95, f96; };
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void view_A33(A33 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<33>()); }
void flat_A33(A33 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<33>()); }
void view_A40(A40 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<40>()); }
void flat_A40(A40 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<40>()); }
void view_A49(A49 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<49>()); }
void flat_A49(A49 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<49>()); }
void view_A56(A56 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<56>()); }
void flat_A56(A56 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<56>()); }
void view_A65(A65 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<65>()); }
void flat_A65(A65 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<65>()); }
void view_A72(A72 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<72>()); }
void flat_A72(A72 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<72>()); }
void view_A81(A81 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<81>()); }
void flat_A81(A81 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<81>()); }
void view_A88(A88 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<88>()); }
void flat_A88(A88 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<88>()); }
void view_A97(A97 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<97>()); }
void flat_A97(A97 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<97>()); }
}
}
