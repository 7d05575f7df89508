// Plain aggregates of larger sizes: the functions under contract are the ones called here (generated once).
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
namespace plain {
struct A35 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34; };
struct A38 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37; };
struct A51 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50; };
struct A54 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53; };
struct A67 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66; };
struct A70 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69; };
struct A83 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82; };
struct A86 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85; };
struct A99 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95, f96, f97, f98; };
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void view_A35(A35 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<35>()); }
void flat_A35(A35 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<35>()); }
void view_A38(A38 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<38>()); }
void flat_A38(A38 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<38>()); }
void view_A51(A51 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<51>()); }
void flat_A51(A51 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<51>()); }
void view_A54(A54 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<54>()); }
void flat_A54(A54 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<54>()); }
void view_A67(A67 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<67>()); }
void flat_A67(A67 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<67>()); }
void view_A70(A70 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<70>()); }
void flat_A70(A70 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<70>()); }
void view_A83(A83 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<83>()); }
void flat_A83(A83 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<83>()); }
void view_A86(A86 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<86>()); }
void flat_A86(A86 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<86>()); }
void view_A99(A99 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<99>()); }
void flat_A99(A99 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<99>()); }
}
}
