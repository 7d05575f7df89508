// Plain aggregates of larger sizes: the functions under contract are the ones called here (generated once).
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
namespace plain {
struct A36 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35; };
struct A37 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36; };
struct A52 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51; };
struct A53 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52; };
struct A68 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67; };
struct A69 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68; };
struct A84 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83; };
struct A85 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84; };
struct A100 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95, f96, f97, f98, f99; };
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void view_A36(A36 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<36>()); }
void flat_A36(A36 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<36>()); }
void view_A37(A37 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<37>()); }
void flat_A37(A37 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<37>()); }
void view_A52(A52 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<52>()); }
void flat_A52(A52 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<52>()); }
void view_A53(A53 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<53>()); }
void flat_A53(A53 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<53>()); }
void view_A68(A68 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<68>()); }
void flat_A68(A68 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<68>()); }
void view_A69(A69 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<69>()); }
void flat_A69(A69 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<69>()); }
void view_A84(A84 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<84>()); }
void flat_A84(A84 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<84>()); }
void view_A85(A85 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<85>()); }
void flat_A85(A85 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<85>()); }
void view_A100(A100 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<100>()); }
void flat_A100(A100 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<100>()); }
}
}
