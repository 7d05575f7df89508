// Records (E01): plain aggregates of all the larger sizes (25 to 100), records of some; every place of the view, comparison by every member.
#include "dvrun.h"
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
#include <cstring>
#define MAF_DISABLE_DUMP
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
struct A25 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24; };
struct A26 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25; };
struct A27 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26; };
struct A28 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27; };
struct A29 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28; };
struct A30 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29; };
struct A31 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30; };
struct A32 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31; };
struct A33 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32; };
struct A34 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33; };
struct A35 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34; };
struct A36 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35; };
struct A37 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36; };
struct A38 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37; };
struct A39 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38; };
struct A40 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39; };
struct A41 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40; };
struct A42 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41; };
struct A43 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42; };
struct A44 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43; };
struct A45 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44; };
struct A46 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45; };
struct A47 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46; };
struct A48 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47; };
struct A49 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48; };
struct A50 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49; };
struct A51 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50; };
struct A52 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51; };
struct A53 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52; };
struct A54 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53; };
struct A55 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54; };
struct A56 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55; };
struct A57 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56; };
struct A58 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57; };
struct A59 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58; };
struct A60 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59; };
struct A61 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60; };
struct A62 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61; };
struct A63 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62; };
struct A64 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63; };
struct A65 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64; };
struct A66 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65; };
struct A67 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66; };
struct A68 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67; };
struct A69 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68; };
struct A70 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69; };
struct A71 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70; };
struct A72 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71; };
struct A73 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72; };
struct A74 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73; };
struct A75 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74; };
struct A76 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75; };
struct A77 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76; };
struct A78 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77; };
struct A79 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78; };
struct A80 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79; };
struct A81 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80; };
struct A82 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81; };
struct A83 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82; };
struct A84 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83; };
struct A85 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84; };
struct A86 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85; };
struct A87 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86; };
struct A88 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87; };
struct A89 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88; };
struct A90 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89; };
struct A91 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90; };
struct A92 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91; };
struct A93 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92; };
struct A94 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93; };
struct A95 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94; };
struct A96 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95; };
struct A97 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95, f96; };
struct A98 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95, f96, f97; };
struct A99 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95, f96, f97, f98; };
struct A100 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63, f64, f65, f66, f67, f68, f69, f70, f71, f72, f73, f74, f75, f76, f77, f78, f79, f80, f81, f82, f83, f84, f85, f86, f87, f88, f89, f90, f91, f92, f93, f94, f95, f96, f97, f98, f99; };
OBJECT(R25) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24)) ENDOBJECT(R25)
OBJECT(R31) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30)) ENDOBJECT(R31)
OBJECT(R32) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31)) ENDOBJECT(R32)
OBJECT(R40) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39)) ENDOBJECT(R40)
OBJECT(R48) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47)) ENDOBJECT(R48)
OBJECT(R63) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62)) ENDOBJECT(R63)
OBJECT(R64) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63)) ENDOBJECT(R64)
OBJECT(R65) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64)) ENDOBJECT(R65)
OBJECT(R80) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79)) ENDOBJECT(R80)
OBJECT(R100) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99)) ENDOBJECT(R100)
OBJECT(R124) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109), (unsigned, f110), (unsigned, f111), (unsigned, f112), (unsigned, f113), (unsigned, f114), (unsigned, f115), (unsigned, f116), (unsigned, f117), (unsigned, f118), (unsigned, f119), (unsigned, f120), (unsigned, f121), (unsigned, f122), (unsigned, f123)) ENDOBJECT(R124)
OBJECT(R125) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23), (unsigned, f24), (unsigned, f25), (unsigned, f26), (unsigned, f27), (unsigned, f28), (unsigned, f29), (unsigned, f30), (unsigned, f31), (unsigned, f32), (unsigned, f33), (unsigned, f34), (unsigned, f35), (unsigned, f36), (unsigned, f37), (unsigned, f38), (unsigned, f39), (unsigned, f40), (unsigned, f41), (unsigned, f42), (unsigned, f43), (unsigned, f44), (unsigned, f45), (unsigned, f46), (unsigned, f47), (unsigned, f48), (unsigned, f49), (unsigned, f50), (unsigned, f51), (unsigned, f52), (unsigned, f53), (unsigned, f54), (unsigned, f55), (unsigned, f56), (unsigned, f57), (unsigned, f58), (unsigned, f59), (unsigned, f60), (unsigned, f61), (unsigned, f62), (unsigned, f63), (unsigned, f64), (unsigned, f65), (unsigned, f66), (unsigned, f67), (unsigned, f68), (unsigned, f69), (unsigned, f70), (unsigned, f71), (unsigned, f72), (unsigned, f73), (unsigned, f74), (unsigned, f75), (unsigned, f76), (unsigned, f77), (unsigned, f78), (unsigned, f79), (unsigned, f80), (unsigned, f81), (unsigned, f82), (unsigned, f83), (unsigned, f84), (unsigned, f85), (unsigned, f86), (unsigned, f87), (unsigned, f88), (unsigned, f89), (unsigned, f90), (unsigned, f91), (unsigned, f92), (unsigned, f93), (unsigned, f94), (unsigned, f95), (unsigned, f96), (unsigned, f97), (unsigned, f98), (unsigned, f99), (unsigned, f100), (unsigned, f101), (unsigned, f102), (unsigned, f103), (unsigned, f104), (unsigned, f105), (unsigned, f106), (unsigned, f107), (unsigned, f108), (unsigned, f109), (unsigned, f110), (unsigned, f111), (unsigned, f112), (unsigned, f113), (unsigned, f114), (unsigned, f115), (unsigned, f116), (unsigned, f117), (unsigned, f118), (unsigned, f119), (unsigned, f120), (unsigned, f121), (unsigned, f122), (unsigned, f123), (unsigned, f124)) ENDOBJECT(R125)
namespace {
template <class T, size_t... I> bool places(const T &t, const unsigned *p, std::index_sequence<I...>) { return ((&std::get<I>(t) == p + I) && ...); }
template <class T, size_t N> int agg() {
  T a{};
  auto *p = (const unsigned *)&a;
  CHECK(sizeof(T) == N * sizeof(unsigned));
  CHECK(places(maf::nstl::tuple_view(a), p, std::make_index_sequence<N>()));
  CHECK(places(maf::nstl::flaten(a), p, std::make_index_sequence<N>()));
  return 0;
}
template <class T, size_t... I> T make(std::index_sequence<I...>) { return T(unsigned(I + 1)...); }
template <class T, size_t N> int rec() {
  const T r = make<T>(std::make_index_sequence<N>());
  auto *p = (const unsigned *)&r;
  CHECK(sizeof(T) == N * sizeof(unsigned));
  for (size_t i = 0; i < N; ++i) CHECK(p[i] == i + 1);
  CHECK(places(r.cas_tuple(), p, std::make_index_sequence<N>()));
  return 0;
}
}
int main() {
  using namespace dvr;
  scenario("aggregate of 25", agg<A25, 25>);
  scenario("aggregate of 26", agg<A26, 26>);
  scenario("aggregate of 27", agg<A27, 27>);
  scenario("aggregate of 28", agg<A28, 28>);
  scenario("aggregate of 29", agg<A29, 29>);
  scenario("aggregate of 30", agg<A30, 30>);
  scenario("aggregate of 31", agg<A31, 31>);
  scenario("aggregate of 32", agg<A32, 32>);
  scenario("aggregate of 33", agg<A33, 33>);
  scenario("aggregate of 34", agg<A34, 34>);
  scenario("aggregate of 35", agg<A35, 35>);
  scenario("aggregate of 36", agg<A36, 36>);
  scenario("aggregate of 37", agg<A37, 37>);
  scenario("aggregate of 38", agg<A38, 38>);
  scenario("aggregate of 39", agg<A39, 39>);
  scenario("aggregate of 40", agg<A40, 40>);
  scenario("aggregate of 41", agg<A41, 41>);
  scenario("aggregate of 42", agg<A42, 42>);
  scenario("aggregate of 43", agg<A43, 43>);
  scenario("aggregate of 44", agg<A44, 44>);
  scenario("aggregate of 45", agg<A45, 45>);
  scenario("aggregate of 46", agg<A46, 46>);
  scenario("aggregate of 47", agg<A47, 47>);
  scenario("aggregate of 48", agg<A48, 48>);
  scenario("aggregate of 49", agg<A49, 49>);
  scenario("aggregate of 50", agg<A50, 50>);
  scenario("aggregate of 51", agg<A51, 51>);
  scenario("aggregate of 52", agg<A52, 52>);
  scenario("aggregate of 53", agg<A53, 53>);
  scenario("aggregate of 54", agg<A54, 54>);
  scenario("aggregate of 55", agg<A55, 55>);
  scenario("aggregate of 56", agg<A56, 56>);
  scenario("aggregate of 57", agg<A57, 57>);
  scenario("aggregate of 58", agg<A58, 58>);
  scenario("aggregate of 59", agg<A59, 59>);
  scenario("aggregate of 60", agg<A60, 60>);
  scenario("aggregate of 61", agg<A61, 61>);
  scenario("aggregate of 62", agg<A62, 62>);
  scenario("aggregate of 63", agg<A63, 63>);
  scenario("aggregate of 64", agg<A64, 64>);
  scenario("aggregate of 65", agg<A65, 65>);
  scenario("aggregate of 66", agg<A66, 66>);
  scenario("aggregate of 67", agg<A67, 67>);
  scenario("aggregate of 68", agg<A68, 68>);
  scenario("aggregate of 69", agg<A69, 69>);
  scenario("aggregate of 70", agg<A70, 70>);
  scenario("aggregate of 71", agg<A71, 71>);
  scenario("aggregate of 72", agg<A72, 72>);
  scenario("aggregate of 73", agg<A73, 73>);
  scenario("aggregate of 74", agg<A74, 74>);
  scenario("aggregate of 75", agg<A75, 75>);
  scenario("aggregate of 76", agg<A76, 76>);
  scenario("aggregate of 77", agg<A77, 77>);
  scenario("aggregate of 78", agg<A78, 78>);
  scenario("aggregate of 79", agg<A79, 79>);
  scenario("aggregate of 80", agg<A80, 80>);
  scenario("aggregate of 81", agg<A81, 81>);
  scenario("aggregate of 82", agg<A82, 82>);
  scenario("aggregate of 83", agg<A83, 83>);
  scenario("aggregate of 84", agg<A84, 84>);
  scenario("aggregate of 85", agg<A85, 85>);
  scenario("aggregate of 86", agg<A86, 86>);
  scenario("aggregate of 87", agg<A87, 87>);
  scenario("aggregate of 88", agg<A88, 88>);
  scenario("aggregate of 89", agg<A89, 89>);
  scenario("aggregate of 90", agg<A90, 90>);
  scenario("aggregate of 91", agg<A91, 91>);
  scenario("aggregate of 92", agg<A92, 92>);
  scenario("aggregate of 93", agg<A93, 93>);
  scenario("aggregate of 94", agg<A94, 94>);
  scenario("aggregate of 95", agg<A95, 95>);
  scenario("aggregate of 96", agg<A96, 96>);
  scenario("aggregate of 97", agg<A97, 97>);
  scenario("aggregate of 98", agg<A98, 98>);
  scenario("aggregate of 99", agg<A99, 99>);
  scenario("aggregate of 100", agg<A100, 100>);
  scenario("record of 25", rec<R25, 25>);
  scenario("record of 31", rec<R31, 31>);
  scenario("record of 32", rec<R32, 32>);
  scenario("record of 40", rec<R40, 40>);
  scenario("record of 48", rec<R48, 48>);
  scenario("record of 63", rec<R63, 63>);
  scenario("record of 64", rec<R64, 64>);
  scenario("record of 65", rec<R65, 65>);
  scenario("record of 80", rec<R80, 80>);
  scenario("record of 100", rec<R100, 100>);
  scenario("record of 124", rec<R124, 124>);
  scenario("record of 125", rec<R125, 125>);
  return SCHED_MAIN_RESULT();
}
