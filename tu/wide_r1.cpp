// Records of larger sizes: the functions under contract are the ones called here (generated once).
#define MAF_DISABLE_DUMP
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
#include <new>
OBJECT(R28) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27)) ENDOBJECT(R28)
OBJECT(R31) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30)) ENDOBJECT(R31)
OBJECT(R44) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43)) ENDOBJECT(R44)
OBJECT(R47) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46)) ENDOBJECT(R47)
OBJECT(R60) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59)) ENDOBJECT(R60)
OBJECT(R63) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62)) ENDOBJECT(R63)
OBJECT(R76) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75)) ENDOBJECT(R76)
OBJECT(R79) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78)) ENDOBJECT(R79)
OBJECT(R92) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91)) ENDOBJECT(R92)
OBJECT(R95) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94)) ENDOBJECT(R95)
OBJECT(R108) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107)) ENDOBJECT(R108)
OBJECT(R111) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109), (unsigned, f110)) ENDOBJECT(R111)
OBJECT(R124) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109), (unsigned, f110), (unsigned, f111), (unsigned, f112), (unsigned, f113), (unsigned, f114), (unsigned, f115), (unsigned, f116), (unsigned, f117), (unsigned, f118), (unsigned, f119), (unsigned, f120), (unsigned, f121), (unsigned, f122), (unsigned, f123)) ENDOBJECT(R124)
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void ctie_R28(const R28 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<28>()); }
void new28_R28(R28 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27) { new (at) R28(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27); }
void ctie_R31(const R31 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<31>()); }
void new31_R31(R31 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30) { new (at) R31(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30); }
void ctie_R44(const R44 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<44>()); }
void new44_R44(R44 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43) { new (at) R44(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43); }
void ctie_R47(const R47 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<47>()); }
void new47_R47(R47 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46) { new (at) R47(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46); }
void ctie_R60(const R60 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<60>()); }
void new60_R60(R60 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59) { new (at) R60(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59); }
void ctie_R63(const R63 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<63>()); }
void new63_R63(R63 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62) { new (at) R63(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62); }
void ctie_R76(const R76 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<76>()); }
void new76_R76(R76 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75) { new (at) R76(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75); }
void ctie_R79(const R79 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<79>()); }
void new79_R79(R79 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78) { new (at) R79(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78); }
void ctie_R92(const R92 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<92>()); }
void new92_R92(R92 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91) { new (at) R92(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91); }
void ctie_R95(const R95 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<95>()); }
void new95_R95(R95 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94) { new (at) R95(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94); }
void ctie_R108(const R108 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<108>()); }
void new108_R108(R108 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107) { new (at) R108(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107); }
void ctie_R111(const R111 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<111>()); }
void new111_R111(R111 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107, unsigned &a108, unsigned &a109, unsigned &a110) { new (at) R111(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107, a108, a109, a110); }
void ctie_R124(const R124 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<124>()); }
void new124_R124(R124 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107, unsigned &a108, unsigned &a109, unsigned &a110, unsigned &a111, unsigned &a112, unsigned &a113, unsigned &a114, unsigned &a115, unsigned &a116, unsigned &a117, unsigned &a118, unsigned &a119, unsigned &a120, unsigned &a121, unsigned &a122, unsigned &a123) { new (at) R124(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107, a108, a109, a110, a111, a112, a113, a114, a115, a116, a117, a118, a119, a120, a121, a122, a123); }
}
