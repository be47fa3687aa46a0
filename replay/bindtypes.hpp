// generated once: types of 1 to 50 fields
struct N1 { long f1 = 0; CONFIGOR_BIND(configor::json::value, N1, REQUIRED(f1)) };
struct P1 { long f1 = 0; CONFIGOR_BIND(configor::json::value, P1, OPTIONAL(f1)) };
struct N2 { long f1 = 0, f2 = 0; CONFIGOR_BIND(configor::json::value, N2, REQUIRED(f1), REQUIRED(f2)) };
struct P2 { long f1 = 0, f2 = 0; CONFIGOR_BIND(configor::json::value, P2, OPTIONAL(f1), OPTIONAL(f2)) };
struct N3 { long f1 = 0, f2 = 0, f3 = 0; CONFIGOR_BIND(configor::json::value, N3, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3)) };
struct P3 { long f1 = 0, f2 = 0, f3 = 0; CONFIGOR_BIND(configor::json::value, P3, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3)) };
struct N4 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0; CONFIGOR_BIND(configor::json::value, N4, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4)) };
struct P4 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0; CONFIGOR_BIND(configor::json::value, P4, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4)) };
struct N5 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0; CONFIGOR_BIND(configor::json::value, N5, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5)) };
struct P5 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0; CONFIGOR_BIND(configor::json::value, P5, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5)) };
struct N6 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0; CONFIGOR_BIND(configor::json::value, N6, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6)) };
struct P6 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0; CONFIGOR_BIND(configor::json::value, P6, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6)) };
struct N7 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0; CONFIGOR_BIND(configor::json::value, N7, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7)) };
struct P7 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0; CONFIGOR_BIND(configor::json::value, P7, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7)) };
struct N8 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0; CONFIGOR_BIND(configor::json::value, N8, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8)) };
struct P8 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0; CONFIGOR_BIND(configor::json::value, P8, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8)) };
struct N9 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0; CONFIGOR_BIND(configor::json::value, N9, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9)) };
struct P9 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0; CONFIGOR_BIND(configor::json::value, P9, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9)) };
struct N10 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0; CONFIGOR_BIND(configor::json::value, N10, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10)) };
struct P10 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0; CONFIGOR_BIND(configor::json::value, P10, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10)) };
struct N11 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0; CONFIGOR_BIND(configor::json::value, N11, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11)) };
struct P11 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0; CONFIGOR_BIND(configor::json::value, P11, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11)) };
struct N12 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0; CONFIGOR_BIND(configor::json::value, N12, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12)) };
struct P12 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0; CONFIGOR_BIND(configor::json::value, P12, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12)) };
struct N13 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0; CONFIGOR_BIND(configor::json::value, N13, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13)) };
struct P13 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0; CONFIGOR_BIND(configor::json::value, P13, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13)) };
struct N14 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0; CONFIGOR_BIND(configor::json::value, N14, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14)) };
struct P14 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0; CONFIGOR_BIND(configor::json::value, P14, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14)) };
struct N15 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0; CONFIGOR_BIND(configor::json::value, N15, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15)) };
struct P15 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0; CONFIGOR_BIND(configor::json::value, P15, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15)) };
struct N16 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0; CONFIGOR_BIND(configor::json::value, N16, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16)) };
struct P16 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0; CONFIGOR_BIND(configor::json::value, P16, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16)) };
struct N17 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0; CONFIGOR_BIND(configor::json::value, N17, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17)) };
struct P17 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0; CONFIGOR_BIND(configor::json::value, P17, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17)) };
struct N18 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0; CONFIGOR_BIND(configor::json::value, N18, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18)) };
struct P18 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0; CONFIGOR_BIND(configor::json::value, P18, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18)) };
struct N19 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0; CONFIGOR_BIND(configor::json::value, N19, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19)) };
struct P19 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0; CONFIGOR_BIND(configor::json::value, P19, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19)) };
struct N20 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0; CONFIGOR_BIND(configor::json::value, N20, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20)) };
struct P20 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0; CONFIGOR_BIND(configor::json::value, P20, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20)) };
struct N21 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0; CONFIGOR_BIND(configor::json::value, N21, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21)) };
struct P21 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0; CONFIGOR_BIND(configor::json::value, P21, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21)) };
struct N22 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0; CONFIGOR_BIND(configor::json::value, N22, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22)) };
struct P22 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0; CONFIGOR_BIND(configor::json::value, P22, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22)) };
struct N23 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0; CONFIGOR_BIND(configor::json::value, N23, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23)) };
struct P23 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0; CONFIGOR_BIND(configor::json::value, P23, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23)) };
struct N24 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0; CONFIGOR_BIND(configor::json::value, N24, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24)) };
struct P24 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0; CONFIGOR_BIND(configor::json::value, P24, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24)) };
struct N25 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0; CONFIGOR_BIND(configor::json::value, N25, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25)) };
struct P25 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0; CONFIGOR_BIND(configor::json::value, P25, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25)) };
struct N26 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0; CONFIGOR_BIND(configor::json::value, N26, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26)) };
struct P26 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0; CONFIGOR_BIND(configor::json::value, P26, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26)) };
struct N27 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0; CONFIGOR_BIND(configor::json::value, N27, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27)) };
struct P27 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0; CONFIGOR_BIND(configor::json::value, P27, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27)) };
struct N28 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0; CONFIGOR_BIND(configor::json::value, N28, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28)) };
struct P28 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0; CONFIGOR_BIND(configor::json::value, P28, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28)) };
struct N29 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0; CONFIGOR_BIND(configor::json::value, N29, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29)) };
struct P29 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0; CONFIGOR_BIND(configor::json::value, P29, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29)) };
struct N30 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0; CONFIGOR_BIND(configor::json::value, N30, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30)) };
struct P30 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0; CONFIGOR_BIND(configor::json::value, P30, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30)) };
struct N31 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0; CONFIGOR_BIND(configor::json::value, N31, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31)) };
struct P31 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0; CONFIGOR_BIND(configor::json::value, P31, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31)) };
struct N32 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0; CONFIGOR_BIND(configor::json::value, N32, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32)) };
struct P32 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0; CONFIGOR_BIND(configor::json::value, P32, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32)) };
struct N33 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0; CONFIGOR_BIND(configor::json::value, N33, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33)) };
struct P33 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0; CONFIGOR_BIND(configor::json::value, P33, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33)) };
struct N34 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0; CONFIGOR_BIND(configor::json::value, N34, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34)) };
struct P34 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0; CONFIGOR_BIND(configor::json::value, P34, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34)) };
struct N35 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0; CONFIGOR_BIND(configor::json::value, N35, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35)) };
struct P35 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0; CONFIGOR_BIND(configor::json::value, P35, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35)) };
struct N36 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0; CONFIGOR_BIND(configor::json::value, N36, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36)) };
struct P36 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0; CONFIGOR_BIND(configor::json::value, P36, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36)) };
struct N37 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0; CONFIGOR_BIND(configor::json::value, N37, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37)) };
struct P37 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0; CONFIGOR_BIND(configor::json::value, P37, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37)) };
struct N38 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0; CONFIGOR_BIND(configor::json::value, N38, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38)) };
struct P38 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0; CONFIGOR_BIND(configor::json::value, P38, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38)) };
struct N39 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0; CONFIGOR_BIND(configor::json::value, N39, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39)) };
struct P39 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0; CONFIGOR_BIND(configor::json::value, P39, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39)) };
struct N40 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0; CONFIGOR_BIND(configor::json::value, N40, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40)) };
struct P40 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0; CONFIGOR_BIND(configor::json::value, P40, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40)) };
struct N41 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0; CONFIGOR_BIND(configor::json::value, N41, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41)) };
struct P41 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0; CONFIGOR_BIND(configor::json::value, P41, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41)) };
struct N42 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0; CONFIGOR_BIND(configor::json::value, N42, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41), REQUIRED(f42)) };
struct P42 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0; CONFIGOR_BIND(configor::json::value, P42, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41), OPTIONAL(f42)) };
struct N43 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0; CONFIGOR_BIND(configor::json::value, N43, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41), REQUIRED(f42), REQUIRED(f43)) };
struct P43 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0; CONFIGOR_BIND(configor::json::value, P43, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41), OPTIONAL(f42), OPTIONAL(f43)) };
struct N44 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0; CONFIGOR_BIND(configor::json::value, N44, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41), REQUIRED(f42), REQUIRED(f43), REQUIRED(f44)) };
struct P44 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0; CONFIGOR_BIND(configor::json::value, P44, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41), OPTIONAL(f42), OPTIONAL(f43), OPTIONAL(f44)) };
struct N45 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0; CONFIGOR_BIND(configor::json::value, N45, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41), REQUIRED(f42), REQUIRED(f43), REQUIRED(f44), REQUIRED(f45)) };
struct P45 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0; CONFIGOR_BIND(configor::json::value, P45, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41), OPTIONAL(f42), OPTIONAL(f43), OPTIONAL(f44), OPTIONAL(f45)) };
struct N46 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0; CONFIGOR_BIND(configor::json::value, N46, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41), REQUIRED(f42), REQUIRED(f43), REQUIRED(f44), REQUIRED(f45), REQUIRED(f46)) };
struct P46 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0; CONFIGOR_BIND(configor::json::value, P46, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41), OPTIONAL(f42), OPTIONAL(f43), OPTIONAL(f44), OPTIONAL(f45), OPTIONAL(f46)) };
struct N47 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0, f47 = 0; CONFIGOR_BIND(configor::json::value, N47, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41), REQUIRED(f42), REQUIRED(f43), REQUIRED(f44), REQUIRED(f45), REQUIRED(f46), REQUIRED(f47)) };
struct P47 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0, f47 = 0; CONFIGOR_BIND(configor::json::value, P47, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41), OPTIONAL(f42), OPTIONAL(f43), OPTIONAL(f44), OPTIONAL(f45), OPTIONAL(f46), OPTIONAL(f47)) };
struct N48 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0, f47 = 0, f48 = 0; CONFIGOR_BIND(configor::json::value, N48, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41), REQUIRED(f42), REQUIRED(f43), REQUIRED(f44), REQUIRED(f45), REQUIRED(f46), REQUIRED(f47), REQUIRED(f48)) };
struct P48 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0, f47 = 0, f48 = 0; CONFIGOR_BIND(configor::json::value, P48, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41), OPTIONAL(f42), OPTIONAL(f43), OPTIONAL(f44), OPTIONAL(f45), OPTIONAL(f46), OPTIONAL(f47), OPTIONAL(f48)) };
struct N49 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0, f47 = 0, f48 = 0, f49 = 0; CONFIGOR_BIND(configor::json::value, N49, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41), REQUIRED(f42), REQUIRED(f43), REQUIRED(f44), REQUIRED(f45), REQUIRED(f46), REQUIRED(f47), REQUIRED(f48), REQUIRED(f49)) };
struct P49 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0, f47 = 0, f48 = 0, f49 = 0; CONFIGOR_BIND(configor::json::value, P49, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41), OPTIONAL(f42), OPTIONAL(f43), OPTIONAL(f44), OPTIONAL(f45), OPTIONAL(f46), OPTIONAL(f47), OPTIONAL(f48), OPTIONAL(f49)) };
struct N50 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0, f47 = 0, f48 = 0, f49 = 0, f50 = 0; CONFIGOR_BIND(configor::json::value, N50, REQUIRED(f1), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41), REQUIRED(f42), REQUIRED(f43), REQUIRED(f44), REQUIRED(f45), REQUIRED(f46), REQUIRED(f47), REQUIRED(f48), REQUIRED(f49), REQUIRED(f50)) };
struct P50 { long f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0, f16 = 0, f17 = 0, f18 = 0, f19 = 0, f20 = 0, f21 = 0, f22 = 0, f23 = 0, f24 = 0, f25 = 0, f26 = 0, f27 = 0, f28 = 0, f29 = 0, f30 = 0, f31 = 0, f32 = 0, f33 = 0, f34 = 0, f35 = 0, f36 = 0, f37 = 0, f38 = 0, f39 = 0, f40 = 0, f41 = 0, f42 = 0, f43 = 0, f44 = 0, f45 = 0, f46 = 0, f47 = 0, f48 = 0, f49 = 0, f50 = 0; CONFIGOR_BIND(configor::json::value, P50, OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38), OPTIONAL(f39), OPTIONAL(f40), OPTIONAL(f41), OPTIONAL(f42), OPTIONAL(f43), OPTIONAL(f44), OPTIONAL(f45), OPTIONAL(f46), OPTIONAL(f47), OPTIONAL(f48), OPTIONAL(f49), OPTIONAL(f50)) };
#define EVERY_ARITY(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) X(46) X(47) X(48) X(49) X(50)
