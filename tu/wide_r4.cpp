// Records of larger sizes: the functions under contract are the ones called here (generated once).
#define MAF_DISABLE_DUMP
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
#include <new>
OBJECT(R25) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24)) ENDOBJECT(R25)
OBJECT(R34) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33)) ENDOBJECT(R34)
OBJECT(R41) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40)) ENDOBJECT(R41)
OBJECT(R50) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49)) ENDOBJECT(R50)
OBJECT(R57) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56)) ENDOBJECT(R57)
OBJECT(R66) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65)) ENDOBJECT(R66)
OBJECT(R73) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72)) ENDOBJECT(R73)
OBJECT(R82) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81)) ENDOBJECT(R82)
OBJECT(R89) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88)) ENDOBJECT(R89)
OBJECT(R98) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97)) ENDOBJECT(R98)
OBJECT(R105) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104)) ENDOBJECT(R105)
OBJECT(R114) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109), (unsigned, f110), (unsigned, f111), (unsigned, f112), (unsigned, f113)) ENDOBJECT(R114)
OBJECT(R121) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109), (unsigned, f110), (unsigned, f111), (unsigned, f112), (unsigned, f113), (unsigned, f114), (unsigned, f115), (unsigned, f116), (unsigned, f117), (unsigned, f118), (unsigned, f119), (unsigned, f120)) ENDOBJECT(R121)
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void ctie_R25(const R25 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<25>()); }
void new25_R25(R25 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24) { new (at) R25(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24); }
void ctie_R34(const R34 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<34>()); }
void new34_R34(R34 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33) { new (at) R34(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33); }
void ctie_R41(const R41 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<41>()); }
void new41_R41(R41 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40) { new (at) R41(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40); }
void ctie_R50(const R50 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<50>()); }
void new50_R50(R50 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49) { new (at) R50(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49); }
void ctie_R57(const R57 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<57>()); }
void new57_R57(R57 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56) { new (at) R57(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56); }
void ctie_R66(const R66 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<66>()); }
void new66_R66(R66 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65) { new (at) R66(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65); }
void ctie_R73(const R73 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<73>()); }
void new73_R73(R73 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72) { new (at) R73(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72); }
void ctie_R82(const R82 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<82>()); }
void new82_R82(R82 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81) { new (at) R82(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81); }
void ctie_R89(const R89 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<89>()); }
void new89_R89(R89 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88) { new (at) R89(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88); }
void ctie_R98(const R98 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<98>()); }
void new98_R98(R98 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97) { new (at) R98(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97); }
void ctie_R105(const R105 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<105>()); }
void new105_R105(R105 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104) { new (at) R105(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104); }
void ctie_R114(const R114 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<114>()); }
void new114_R114(R114 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107, unsigned &a108, unsigned &a109, unsigned &a110, unsigned &a111, unsigned &a112, unsigned &a113) { new (at) R114(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107, a108, a109, a110, a111, a112, a113); }
void ctie_R121(const R121 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<121>()); }
void new121_R121(R121 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107, unsigned &a108, unsigned &a109, unsigned &a110, unsigned &a111, unsigned &a112, unsigned &a113, unsigned &a114, unsigned &a115, unsigned &a116, unsigned &a117, unsigned &a118, unsigned &a119, unsigned &a120) { new (at) R121(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107, a108, a109, a110, a111, a112, a113, a114, a115, a116, a117, a118, a119, a120); }
}
