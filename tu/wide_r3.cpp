// Records of larger sizes: the functions under contract are the ones called here (generated once).
#define MAF_DISABLE_DUMP
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
#include <new>
OBJECT(R26) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25)) ENDOBJECT(R26)
OBJECT(R33) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32)) ENDOBJECT(R33)
OBJECT(R42) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41)) ENDOBJECT(R42)
OBJECT(R49) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48)) ENDOBJECT(R49)
OBJECT(R58) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57)) ENDOBJECT(R58)
OBJECT(R65) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64)) ENDOBJECT(R65)
OBJECT(R74) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73)) ENDOBJECT(R74)
OBJECT(R81) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80)) ENDOBJECT(R81)
OBJECT(R90) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89)) ENDOBJECT(R90)
OBJECT(R97) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96)) ENDOBJECT(R97)
OBJECT(R106) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105)) ENDOBJECT(R106)
OBJECT(R113) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109), (unsigned, f110), (unsigned, f111), (unsigned, f112)) ENDOBJECT(R113)
OBJECT(R122) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109), (unsigned, f110), (unsigned, f111), (unsigned, f112), (unsigned, f113), (unsigned, f114), (unsigned, f115), (unsigned, f116), (unsigned, f117), (unsigned, f118), (unsigned, f119), (unsigned, f120), (unsigned, f121)) ENDOBJECT(R122)
template <class T, size_t... I> void put(T t, const void **p, std::index_sequence<I...>) { ((p[I] = (const void *)&std::get<I>(t)), ...); }
extern "C" {
void ctie_R26(const R26 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<26>()); }
void new26_R26(R26 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25) { new (at) R26(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25); }
void ctie_R33(const R33 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<33>()); }
void new33_R33(R33 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32) { new (at) R33(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32); }
void ctie_R42(const R42 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<42>()); }
void new42_R42(R42 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41) { new (at) R42(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41); }
void ctie_R49(const R49 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<49>()); }
void new49_R49(R49 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48) { new (at) R49(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48); }
void ctie_R58(const R58 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<58>()); }
void new58_R58(R58 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57) { new (at) R58(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57); }
void ctie_R65(const R65 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<65>()); }
void new65_R65(R65 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64) { new (at) R65(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64); }
void ctie_R74(const R74 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<74>()); }
void new74_R74(R74 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73) { new (at) R74(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73); }
void ctie_R81(const R81 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<81>()); }
void new81_R81(R81 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80) { new (at) R81(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80); }
void ctie_R90(const R90 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<90>()); }
void new90_R90(R90 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89) { new (at) R90(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89); }
void ctie_R97(const R97 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<97>()); }
void new97_R97(R97 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96) { new (at) R97(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96); }
void ctie_R106(const R106 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<106>()); }
void new106_R106(R106 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105) { new (at) R106(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105); }
void ctie_R113(const R113 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<113>()); }
void new113_R113(R113 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107, unsigned &a108, unsigned &a109, unsigned &a110, unsigned &a111, unsigned &a112) { new (at) R113(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107, a108, a109, a110, a111, a112); }
void ctie_R122(const R122 &r, const void **p) { put(r.cas_tuple(), p, std::make_index_sequence<122>()); }
void new122_R122(R122 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23, unsigned &a24, unsigned &a25, unsigned &a26, unsigned &a27, unsigned &a28, unsigned &a29, unsigned &a30, unsigned &a31, unsigned &a32, unsigned &a33, unsigned &a34, unsigned &a35, unsigned &a36, unsigned &a37, unsigned &a38, unsigned &a39, unsigned &a40, unsigned &a41, unsigned &a42, unsigned &a43, unsigned &a44, unsigned &a45, unsigned &a46, unsigned &a47, unsigned &a48, unsigned &a49, unsigned &a50, unsigned &a51, unsigned &a52, unsigned &a53, unsigned &a54, unsigned &a55, unsigned &a56, unsigned &a57, unsigned &a58, unsigned &a59, unsigned &a60, unsigned &a61, unsigned &a62, unsigned &a63, unsigned &a64, unsigned &a65, unsigned &a66, unsigned &a67, unsigned &a68, unsigned &a69, unsigned &a70, unsigned &a71, unsigned &a72, unsigned &a73, unsigned &a74, unsigned &a75, unsigned &a76, unsigned &a77, unsigned &a78, unsigned &a79, unsigned &a80, unsigned &a81, unsigned &a82, unsigned &a83, unsigned &a84, unsigned &a85, unsigned &a86, unsigned &a87, unsigned &a88, unsigned &a89, unsigned &a90, unsigned &a91, unsigned &a92, unsigned &a93, unsigned &a94, unsigned &a95, unsigned &a96, unsigned &a97, unsigned &a98, unsigned &a99, unsigned &a100, unsigned &a101, unsigned &a102, unsigned &a103, unsigned &a104, unsigned &a105, unsigned &a106, unsigned &a107, unsigned &a108, unsigned &a109, unsigned &a110, unsigned &a111, unsigned &a112, unsigned &a113, unsigned &a114, unsigned &a115, unsigned &a116, unsigned &a117, unsigned &a118, unsigned &a119, unsigned &a120, unsigned &a121) { new (at) R122(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, a40, a41, a42, a43, a44, a45, a46, a47, a48, a49, a50, a51, a52, a53, a54, a55, a56, a57, a58, a59, a60, a61, a62, a63, a64, a65, a66, a67, a68, a69, a70, a71, a72, a73, a74, a75, a76, a77, a78, a79, a80, a81, a82, a83, a84, a85, a86, a87, a88, a89, a90, a91, a92, a93, a94, a95, a96, a97, a98, a99, a100, a101, a102, a103, a104, a105, a106, a107, a108, a109, a110, a111, a112, a113, a114, a115, a116, a117, a118, a119, a120, a121); }
}
