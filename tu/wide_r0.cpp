// Records of larger sizes: the functions under contract are the ones called here (generated once).
#define MAF_DISABLE_DUMP
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
#include <new>
OBJECT(R29) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28)) ENDOBJECT(R29)
OBJECT(R30) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29)) ENDOBJECT(R30)
OBJECT(R45) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44)) ENDOBJECT(R45)
OBJECT(R46) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45)) ENDOBJECT(R46)
OBJECT(R61) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60)) ENDOBJECT(R61)
OBJECT(R62) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61)) ENDOBJECT(R62)
OBJECT(R77) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76)) ENDOBJECT(R77)
OBJECT(R78) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77)) ENDOBJECT(R78)
OBJECT(R93) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92)) ENDOBJECT(R93)
OBJECT(R94) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93)) ENDOBJECT(R94)
OBJECT(R109) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108)) ENDOBJECT(R109)
OBJECT(R110) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109)) ENDOBJECT(R110)
OBJECT(R125) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109), (unsigned, f110), (unsigned, f111), (unsigned, f112), (unsigned, f113), (unsigned, f114), (unsigned, f115), (unsigned, f116), (unsigned, f117), (unsigned, f118), (unsigned, f119), (unsigned, f120), (unsigned, f121), (unsigned, f122), (unsigned, f123), (unsigned, f124)) ENDOBJECT(R125)
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void ctie_R29(const R29 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<29>()); }
void new29_R29(R29 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28) { new (at) R29(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28); }
void ctie_R30(const R30 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<30>()); }
void new30_R30(R30 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29) { new (at) R30(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29); }
void ctie_R45(const R45 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<45>()); }
void new45_R45(R45 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44) { new (at) R45(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44); }
void ctie_R46(const R46 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<46>()); }
void new46_R46(R46 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45) { new (at) R46(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45); }
void ctie_R61(const R61 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<61>()); }
void new61_R61(R61 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60) { new (at) R61(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60); }
void ctie_R62(const R62 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<62>()); }
void new62_R62(R62 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61) { new (at) R62(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61); }
void ctie_R77(const R77 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<77>()); }
void new77_R77(R77 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76) { new (at) R77(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76); }
void ctie_R78(const R78 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<78>()); }
void new78_R78(R78 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77) { new (at) R78(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77); }
void ctie_R93(const R93 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<93>()); }
void new93_R93(R93 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92) { new (at) R93(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92); }
void ctie_R94(const R94 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<94>()); }
void new94_R94(R94 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93) { new (at) R94(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93); }
void ctie_R109(const R109 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<109>()); }
void new109_R109(R109 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107, unsigned &a108) { new (at) R109(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107, a108); }
void ctie_R110(const R110 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<110>()); }
void new110_R110(R110 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107, unsigned &a108, unsigned &a109) { new (at) R110(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107, a108, a109); }
void ctie_R125(const R125 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<125>()); }
void new125_R125(R125 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107, unsigned &a108, unsigned &a109, unsigned &a110, unsigned &a111, unsigned &a112, unsigned &a113, unsigned &a114, unsigned &a115, unsigned &a116, unsigned &a117, unsigned &a118, unsigned &a119, unsigned &a120, unsigned &a121, unsigned &a122, unsigned &a123, unsigned &a124) { new (at) R125(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107, a108, a109, a110, a111, a112, a113, a114, a115, a116, a117, a118, a119, a120, a121, a122, a123, a124); }
}
