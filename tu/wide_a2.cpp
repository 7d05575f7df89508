// Plain aggregates of larger sizes: the functions under contract are the ones called here (generated once).
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
namespace plain {
struct A34 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33; };
struct A39 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38; };
struct A50 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49; };
struct A55 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54; };
struct A66 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65; };
struct A71 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70; };
struct A82 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81; };
struct A87 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86; };
struct A98 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95, f96, f97; };
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void view_A34(A34 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<34>()); }
void flat_A34(A34 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<34>()); }
void view_A39(A39 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<39>()); }
void flat_A39(A39 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<39>()); }
void view_A50(A50 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<50>()); }
void flat_A50(A50 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<50>()); }
void view_A55(A55 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<55>()); }
void flat_A55(A55 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<55>()); }
void view_A66(A66 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<66>()); }
void flat_A66(A66 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<66>()); }
void view_A71(A71 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<71>()); }
void flat_A71(A71 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<71>()); }
void view_A82(A82 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<82>()); }
void flat_A82(A82 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<82>()); }
void view_A87(A87 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<87>()); }
void flat_A87(A87 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<87>()); }
void view_A98(A98 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<98>()); }
void flat_A98(A98 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<98>()); }
}
}
