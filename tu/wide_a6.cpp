// Plain aggregates of larger sizes: the functions under contract are the ones called here (generated once).
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
namespace plain {
struct A27 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26; };
struct A30 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29; };
struct A43 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42; };
struct A46 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45; };
struct A59 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58; };
struct A62 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61; };
struct A75 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74; };
struct A78 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77; };
struct A91 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90; };
struct A94 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93; };
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void view_A27(A27 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<27>()); }
void flat_A27(A27 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<27>()); }
void view_A30(A30 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<30>()); }
void flat_A30(A30 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<30>()); }
void view_A43(A43 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<43>()); }
void flat_A43(A43 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<43>()); }
void view_A46(A46 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<46>()); }
void flat_A46(A46 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<46>()); }
void view_A59(A59 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<59>()); }
void flat_A59(A59 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<59>()); }
void view_A62(A62 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<62>()); }
void flat_A62(A62 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<62>()); }
void view_A75(A75 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<75>()); }
void flat_A75(A75 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<75>()); }
void view_A78(A78 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<78>()); }
void flat_A78(A78 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<78>()); }
void view_A91(A91 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<91>()); }
void flat_A91(A91 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<91>()); }
void view_A94(A94 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<94>()); }
void flat_A94(A94 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<94>()); }
}
}
