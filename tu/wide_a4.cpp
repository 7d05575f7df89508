// Plain aggregates of larger sizes: the functions under contract are the ones called here (generated once).
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
namespace plain {
struct A25 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24; };
struct A32 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31; };
struct A41 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40; };
struct A48 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47; };
struct A57 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56; };
struct A64 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63; };
struct A73 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72; };
struct A80 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79; };
struct A89 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88; };
struct A96 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95; };
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void view_A25(A25 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<25>()); }
void flat_A25(A25 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<25>()); }
void view_A32(A32 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<32>()); }
void flat_A32(A32 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<32>()); }
void view_A41(A41 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<41>()); }
void flat_A41(A41 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<41>()); }
void view_A48(A48 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<48>()); }
void flat_A48(A48 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<48>()); }
void view_A57(A57 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<57>()); }
void flat_A57(A57 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<57>()); }
void view_A64(A64 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<64>()); }
void flat_A64(A64 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<64>()); }
void view_A73(A73 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<73>()); }
void flat_A73(A73 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<73>()); }
void view_A80(A80 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<80>()); }
void flat_A80(A80 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<80>()); }
void view_A89(A89 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<89>()); }
void flat_A89(A89 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<89>()); }
void view_A96(A96 &r, const void **p) { put(maf::nstl::tuple_view(r), p, std::make_index_sequence<96>()); }
void flat_A96(A96 &r, const void **p) { put(maf::nstl::flaten(r), p, std::make_index_sequence<96>()); }
}
}
