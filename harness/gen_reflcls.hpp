// generated by tools/gen_reflcls.py
#pragma once
#include "refl_types.hpp"
template <class T, size_t N> using A = T[N];
struct Gen1 {
  int32 m0_dfb;
  int32 hidden0;
  es::Flags<Fl64> hidden1;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen1, 1, VARNAMES, m0_dfb)
template <> inline const ClassModel &classModel<Gen1>() { using CC = Gen1; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen1", {
    MemberModel{"m0_dfb", offsetof(CC, m0_dfb), descOf<decltype(CC::m0_dfb)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen2 {
  int8 m1_ebc;
  int64 m0_dca;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen2, 1, VARNAMES, m0_dca, m1_ebc)
template <> inline const ClassModel &classModel<Gen2>() { using CC = Gen2; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen2", {
    MemberModel{"m0_dca", offsetof(CC, m0_dca), descOf<decltype(CC::m0_dca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_ebc", offsetof(CC, m1_ebc), descOf<decltype(CC::m1_ebc)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen3 {
  int32 m2_ecd;
  Bw64 m0_bec;
  A<std::string, 2> m1_afb;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen3, 1, EXTENDED, (, m0_bec), (D, m1_afb, "x%y"), (AD, m2_ecd, "alias of m2_ecd", "% after"))
template <> inline const ClassModel &classModel<Gen3>() { using CC = Gen3; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen3", {
    MemberModel{"m0_bec", offsetof(CC, m0_bec), descOf<decltype(CC::m0_bec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_afb", offsetof(CC, m1_afb), descOf<decltype(CC::m1_afb)>(), nullptr, "x", "y"},
    MemberModel{"m2_ecd", offsetof(CC, m2_ecd), descOf<decltype(CC::m2_ecd)>(), "alias of m2_ecd", "", " after"},
  }); m.hasExt = true; return m; }(); return m; }
struct Gen5 {
  A<int16, 3> m4_bea;
  A<uint64, 300> m3_ece;
  std::array<uint8, 5> m1_eca;
  bool hidden0;
  std::array<uint8, 5> m0_ebd;
  uint16 m2_afd;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen5, 1, VARNAMES, m0_ebd, m1_eca, m2_afd, m3_ece, m4_bea)
template <> inline const ClassModel &classModel<Gen5>() { using CC = Gen5; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen5", {
    MemberModel{"m0_ebd", offsetof(CC, m0_ebd), descOf<decltype(CC::m0_ebd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_eca", offsetof(CC, m1_eca), descOf<decltype(CC::m1_eca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m2_afd", offsetof(CC, m2_afd), descOf<decltype(CC::m2_afd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_ece", offsetof(CC, m3_ece), descOf<decltype(CC::m3_ece)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_bea", offsetof(CC, m4_bea), descOf<decltype(CC::m4_bea)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen9 {
  A<uint64, 300> m8_bad;
  En64 m5_dec;
  A<int16, 3> m2_fae;
  A<int16, 3> m3_fef;
  A<bool, 9> m6_aba;
  A<Vector2, 2> m7_edb;
  En64 m0_cce;
  uint8 m4_cde;
  float m1_dbf;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen9, 1, VARNAMES, m0_cce, m1_dbf, m2_fae, m3_fef, m4_cde, m5_dec, m6_aba, m7_edb, m8_bad)
template <> inline const ClassModel &classModel<Gen9>() { using CC = Gen9; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen9", {
    MemberModel{"m0_cce", offsetof(CC, m0_cce), descOf<decltype(CC::m0_cce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_dbf", offsetof(CC, m1_dbf), descOf<decltype(CC::m1_dbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m2_fae", offsetof(CC, m2_fae), descOf<decltype(CC::m2_fae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_fef", offsetof(CC, m3_fef), descOf<decltype(CC::m3_fef)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_cde", offsetof(CC, m4_cde), descOf<decltype(CC::m4_cde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_dec", offsetof(CC, m5_dec), descOf<decltype(CC::m5_dec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m6_aba", offsetof(CC, m6_aba), descOf<decltype(CC::m6_aba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m7_edb", offsetof(CC, m7_edb), descOf<decltype(CC::m7_edb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m8_bad", offsetof(CC, m8_bad), descOf<decltype(CC::m8_bad)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen16 {
  es::Flags<Fl8, uint8> m7_eaa;
  A<uint64, 300> m14_aad;
  es::Flags<Fl64> m6_dad;
  Bf16 m15_dac;
  A<Leaf, 2> m13_cfe;
  IVector4 hidden1;
  A<bool, 9> m0_cdb;
  A<int16, 3> m3_efb;
  es::Flags<Fl64> m10_add;
  A<bool, 9> m9_cef;
  bool m2_aba;
  bool m12_dcb;
  int8 hidden0;
  std::string m5_bfa;
  es::Flags<Fl8, uint8> m11_ffb;
  A<uint64, 300> m4_bcf;
  int16 m1_fbf;
  A<uint64, 300> m8_fcd;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen16, 1, EXTENDED, (AD, m0_cdb, "alias of m0_cdb", "% after"), (AD, m1_fbf, "alias of m1_fbf", "bbhjecgijdjl dlghlbed kahhhbifljkfliglge cc  eblk.gblh.edj .j a h cflkdf.bccligd.cakkgifacaid lhkjjh%fflaiclcjhbjaijcjccaih cbb bd..fcf ajjkj gkikdh .kbdklfghdgfdieagbegblfeldhakccaj lafga bialeljeda.gdgdbbcjhdkhc deddiegej.ediiehb.kjcjdd fkbc.fealf.i.bbjhhckjlflcleidki g edkc.i.idiildabi.bh.kde fehac .a lgbg.ke jl bh iajj.adag.. dde..ag fdaacklbiidkkdg"), (D, m2_aba, "% after"), (A, m3_efb, "alias of m3_efb"), (, m4_bcf), (A, m5_bfa, "alias of m5_bfa"), (A, m6_dad, "alias of m6_dad"), (AD, m7_eaa, "alias of m7_eaa", "before %"), (, m8_fcd), (AD, m9_cef, "alias of m9_cef", "before %"), (A, m10_add, "alias of m10_add"), (AD, m11_ffb, "alias of m11_ffb", "x%y"), (AD, m12_dcb, "alias of m12_dcb", "% after"), (A, m13_cfe, "alias of m13_cfe"), (D, m14_aad, "before % after"), (A, m15_dac, "alias of m15_dac"))
template <> inline const ClassModel &classModel<Gen16>() { using CC = Gen16; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen16", {
    MemberModel{"m0_cdb", offsetof(CC, m0_cdb), descOf<decltype(CC::m0_cdb)>(), "alias of m0_cdb", "", " after"},
    MemberModel{"m1_fbf", offsetof(CC, m1_fbf), descOf<decltype(CC::m1_fbf)>(), "alias of m1_fbf", "bbhjecgijdjl dlghlbed kahhhbifljkfliglge cc  eblk.gblh.edj .j a h cflkdf.bccligd.cakkgifacaid lhkjjh", "fflaiclcjhbjaijcjccaih cbb bd..fcf ajjkj gkikdh .kbdklfghdgfdieagbegblfeldhakccaj lafga bialeljeda.gdgdbbcjhdkhc deddiegej.ediiehb.kjcjdd fkbc.fealf.i.bbjhhckjlflcleidki g edkc.i.idiildabi.bh.kde fehac .a lgbg.ke jl bh iajj.adag.. dde..ag fdaacklbiidkkdg"},
    MemberModel{"m2_aba", offsetof(CC, m2_aba), descOf<decltype(CC::m2_aba)>(), nullptr, "", " after"},
    MemberModel{"m3_efb", offsetof(CC, m3_efb), descOf<decltype(CC::m3_efb)>(), "alias of m3_efb", nullptr, nullptr},
    MemberModel{"m4_bcf", offsetof(CC, m4_bcf), descOf<decltype(CC::m4_bcf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_bfa", offsetof(CC, m5_bfa), descOf<decltype(CC::m5_bfa)>(), "alias of m5_bfa", nullptr, nullptr},
    MemberModel{"m6_dad", offsetof(CC, m6_dad), descOf<decltype(CC::m6_dad)>(), "alias of m6_dad", nullptr, nullptr},
    MemberModel{"m7_eaa", offsetof(CC, m7_eaa), descOf<decltype(CC::m7_eaa)>(), "alias of m7_eaa", "before ", ""},
    MemberModel{"m8_fcd", offsetof(CC, m8_fcd), descOf<decltype(CC::m8_fcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_cef", offsetof(CC, m9_cef), descOf<decltype(CC::m9_cef)>(), "alias of m9_cef", "before ", ""},
    MemberModel{"m10_add", offsetof(CC, m10_add), descOf<decltype(CC::m10_add)>(), "alias of m10_add", nullptr, nullptr},
    MemberModel{"m11_ffb", offsetof(CC, m11_ffb), descOf<decltype(CC::m11_ffb)>(), "alias of m11_ffb", "x", "y"},
    MemberModel{"m12_dcb", offsetof(CC, m12_dcb), descOf<decltype(CC::m12_dcb)>(), "alias of m12_dcb", "", " after"},
    MemberModel{"m13_cfe", offsetof(CC, m13_cfe), descOf<decltype(CC::m13_cfe)>(), "alias of m13_cfe", nullptr, nullptr},
    MemberModel{"m14_aad", offsetof(CC, m14_aad), descOf<decltype(CC::m14_aad)>(), nullptr, "before ", " after"},
    MemberModel{"m15_dac", offsetof(CC, m15_dac), descOf<decltype(CC::m15_dac)>(), "alias of m15_dac", nullptr, nullptr},
  }); m.hasExt = true; return m; }(); return m; }
struct Gen27 {
  std::array<uint8, 5> m9_dea;
  En64 m26_cde;
  Bw64 hidden0;
  int32 m6_fca;
  A<bool, 9> m0_edc;
  A<Leaf, 2> m13_baa;
  float m4_cdc;
  double m10_ffb;
  uint16 m18_ebb;
  int16 m15_bfd;
  double hidden1;
  int32 m23_fab;
  es::Flags<Fl8, uint8> m20_daf;
  double m1_efb;
  std::string m11_bdf;
  uint8 m17_dae;
  int16 m7_bdf;
  std::string m3_fda;
  uint32 m2_fda;
  Bw64 m24_dde;
  Bw64 m16_dac;
  int64 m8_bfe;
  Vector4A16 m25_fcb;
  A<std::string, 2> m12_acd;
  uint8 m5_cdb;
  Vector m21_bfe;
  int64 m19_baf;
  UCVector m22_bfe;
  es::Flags<Fl64> m14_daa;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen27, 1, VARNAMES, m0_edc, m1_efb, m2_fda, m3_fda, m4_cdc, m5_cdb, m6_fca, m7_bdf, m8_bfe, m9_dea, m10_ffb, m11_bdf, m12_acd, m13_baa, m14_daa, m15_bfd, m16_dac, m17_dae, m18_ebb, m19_baf, m20_daf, m21_bfe, m22_bfe, m23_fab, m24_dde, m25_fcb, m26_cde)
template <> inline const ClassModel &classModel<Gen27>() { using CC = Gen27; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen27", {
    MemberModel{"m0_edc", offsetof(CC, m0_edc), descOf<decltype(CC::m0_edc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_efb", offsetof(CC, m1_efb), descOf<decltype(CC::m1_efb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m2_fda", offsetof(CC, m2_fda), descOf<decltype(CC::m2_fda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_fda", offsetof(CC, m3_fda), descOf<decltype(CC::m3_fda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_cdc", offsetof(CC, m4_cdc), descOf<decltype(CC::m4_cdc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_cdb", offsetof(CC, m5_cdb), descOf<decltype(CC::m5_cdb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m6_fca", offsetof(CC, m6_fca), descOf<decltype(CC::m6_fca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m7_bdf", offsetof(CC, m7_bdf), descOf<decltype(CC::m7_bdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m8_bfe", offsetof(CC, m8_bfe), descOf<decltype(CC::m8_bfe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_dea", offsetof(CC, m9_dea), descOf<decltype(CC::m9_dea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m10_ffb", offsetof(CC, m10_ffb), descOf<decltype(CC::m10_ffb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m11_bdf", offsetof(CC, m11_bdf), descOf<decltype(CC::m11_bdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m12_acd", offsetof(CC, m12_acd), descOf<decltype(CC::m12_acd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m13_baa", offsetof(CC, m13_baa), descOf<decltype(CC::m13_baa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m14_daa", offsetof(CC, m14_daa), descOf<decltype(CC::m14_daa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m15_bfd", offsetof(CC, m15_bfd), descOf<decltype(CC::m15_bfd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m16_dac", offsetof(CC, m16_dac), descOf<decltype(CC::m16_dac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m17_dae", offsetof(CC, m17_dae), descOf<decltype(CC::m17_dae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m18_ebb", offsetof(CC, m18_ebb), descOf<decltype(CC::m18_ebb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m19_baf", offsetof(CC, m19_baf), descOf<decltype(CC::m19_baf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m20_daf", offsetof(CC, m20_daf), descOf<decltype(CC::m20_daf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m21_bfe", offsetof(CC, m21_bfe), descOf<decltype(CC::m21_bfe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m22_bfe", offsetof(CC, m22_bfe), descOf<decltype(CC::m22_bfe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m23_fab", offsetof(CC, m23_fab), descOf<decltype(CC::m23_fab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m24_dde", offsetof(CC, m24_dde), descOf<decltype(CC::m24_dde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m25_fcb", offsetof(CC, m25_fcb), descOf<decltype(CC::m25_fcb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m26_cde", offsetof(CC, m26_cde), descOf<decltype(CC::m26_cde)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen40 {
  Leaf m4_dee;
  double m2_ebf;
  En64 m33_eeb;
  int64 m26_bef;
  uint32 m3_dff;
  uint32 m0_cbe;
  Leaf m34_bfd;
  A<Leaf, 2> m8_ceb;
  float m39_aab;
  double m25_fae;
  es::Flags<Fl8, uint8> m23_cab;
  A<bool, 9> m16_bed;
  Leaf m20_fcf;
  uint32 m37_baa;
  A<uint64, 300> m14_bca;
  es::Flags<Fl8, uint8> m28_dea;
  Vector2 m35_dce;
  int32 m29_fcf;
  UCVector m1_cea;
  es::Flags<Fl64> m18_dae;
  Bw64 m11_fdd;
  IVector4 m13_bbf;
  std::array<uint8, 5> m36_bbf;
  bool m24_efa;
  int64 m7_fed;
  int8 m17_adb;
  A<std::string, 2> m6_fac;
  Bw64 m15_eae;
  Leaf m19_ade;
  int32 m22_eaf;
  A<En16, 4> m21_fad;
  En8 m32_acf;
  Vector m5_aff;
  std::string m9_ffc;
  A<En16, 4> m38_ecc;
  bool m27_ddc;
  uint32 m10_bcf;
  IVector4 m30_bbb;
  A<std::string, 2> m12_bea;
  int8 m31_dfb;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen40, 1, VARNAMES, m0_cbe, m1_cea, m2_ebf, m3_dff, m4_dee, m5_aff, m6_fac, m7_fed, m8_ceb, m9_ffc, m10_bcf, m11_fdd, m12_bea, m13_bbf, m14_bca, m15_eae, m16_bed, m17_adb, m18_dae, m19_ade, m20_fcf, m21_fad, m22_eaf, m23_cab, m24_efa, m25_fae, m26_bef, m27_ddc, m28_dea, m29_fcf, m30_bbb, m31_dfb, m32_acf, m33_eeb, m34_bfd, m35_dce, m36_bbf, m37_baa, m38_ecc, m39_aab)
template <> inline const ClassModel &classModel<Gen40>() { using CC = Gen40; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen40", {
    MemberModel{"m0_cbe", offsetof(CC, m0_cbe), descOf<decltype(CC::m0_cbe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_cea", offsetof(CC, m1_cea), descOf<decltype(CC::m1_cea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m2_ebf", offsetof(CC, m2_ebf), descOf<decltype(CC::m2_ebf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_dff", offsetof(CC, m3_dff), descOf<decltype(CC::m3_dff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_dee", offsetof(CC, m4_dee), descOf<decltype(CC::m4_dee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_aff", offsetof(CC, m5_aff), descOf<decltype(CC::m5_aff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m6_fac", offsetof(CC, m6_fac), descOf<decltype(CC::m6_fac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m7_fed", offsetof(CC, m7_fed), descOf<decltype(CC::m7_fed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m8_ceb", offsetof(CC, m8_ceb), descOf<decltype(CC::m8_ceb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_ffc", offsetof(CC, m9_ffc), descOf<decltype(CC::m9_ffc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m10_bcf", offsetof(CC, m10_bcf), descOf<decltype(CC::m10_bcf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m11_fdd", offsetof(CC, m11_fdd), descOf<decltype(CC::m11_fdd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m12_bea", offsetof(CC, m12_bea), descOf<decltype(CC::m12_bea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m13_bbf", offsetof(CC, m13_bbf), descOf<decltype(CC::m13_bbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m14_bca", offsetof(CC, m14_bca), descOf<decltype(CC::m14_bca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m15_eae", offsetof(CC, m15_eae), descOf<decltype(CC::m15_eae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m16_bed", offsetof(CC, m16_bed), descOf<decltype(CC::m16_bed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m17_adb", offsetof(CC, m17_adb), descOf<decltype(CC::m17_adb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m18_dae", offsetof(CC, m18_dae), descOf<decltype(CC::m18_dae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m19_ade", offsetof(CC, m19_ade), descOf<decltype(CC::m19_ade)>(), nullptr, nullptr, nullptr},
    MemberModel{"m20_fcf", offsetof(CC, m20_fcf), descOf<decltype(CC::m20_fcf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m21_fad", offsetof(CC, m21_fad), descOf<decltype(CC::m21_fad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m22_eaf", offsetof(CC, m22_eaf), descOf<decltype(CC::m22_eaf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m23_cab", offsetof(CC, m23_cab), descOf<decltype(CC::m23_cab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m24_efa", offsetof(CC, m24_efa), descOf<decltype(CC::m24_efa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m25_fae", offsetof(CC, m25_fae), descOf<decltype(CC::m25_fae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m26_bef", offsetof(CC, m26_bef), descOf<decltype(CC::m26_bef)>(), nullptr, nullptr, nullptr},
    MemberModel{"m27_ddc", offsetof(CC, m27_ddc), descOf<decltype(CC::m27_ddc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m28_dea", offsetof(CC, m28_dea), descOf<decltype(CC::m28_dea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m29_fcf", offsetof(CC, m29_fcf), descOf<decltype(CC::m29_fcf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m30_bbb", offsetof(CC, m30_bbb), descOf<decltype(CC::m30_bbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m31_dfb", offsetof(CC, m31_dfb), descOf<decltype(CC::m31_dfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m32_acf", offsetof(CC, m32_acf), descOf<decltype(CC::m32_acf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m33_eeb", offsetof(CC, m33_eeb), descOf<decltype(CC::m33_eeb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m34_bfd", offsetof(CC, m34_bfd), descOf<decltype(CC::m34_bfd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m35_dce", offsetof(CC, m35_dce), descOf<decltype(CC::m35_dce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m36_bbf", offsetof(CC, m36_bbf), descOf<decltype(CC::m36_bbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m37_baa", offsetof(CC, m37_baa), descOf<decltype(CC::m37_baa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m38_ecc", offsetof(CC, m38_ecc), descOf<decltype(CC::m38_ecc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m39_aab", offsetof(CC, m39_aab), descOf<decltype(CC::m39_aab)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen58 {
  Vector m40_dde;
  es::Flags<Fl8, uint8> m2_dec;
  Leaf m46_dda;
  bool m49_efc;
  int64 m22_aad;
  Vector4A16 m18_ece;
  IVector4 hidden1;
  uint32 m26_edd;
  En8 m57_aef;
  A<int16, 3> m20_aba;
  uint64 m48_bbe;
  bool m36_ffe;
  float m37_add;
  float m56_bba;
  Vector4A16 m9_cdb;
  Bw64 m11_ada;
  Bf16 m30_cbc;
  bool m4_cae;
  A<std::string, 2> m27_fed;
  uint8 m21_fee;
  Vector2 m12_ccf;
  uint32 m24_fdf;
  A<uint64, 300> m41_ebb;
  es::Flags<Fl64> m32_daa;
  A<uint64, 300> m35_cfe;
  A<Bf8, 5> m8_efd;
  Vector4A16 m7_fef;
  int16 m28_cbe;
  A<Vector2, 2> m50_ceb;
  A<Bf8, 5> m3_aea;
  uint64 m45_def;
  A<En16, 4> m55_bff;
  double hidden0;
  uint64 m25_aea;
  uint8 m15_aad;
  A<bool, 9> m47_bca;
  Vector2 m23_aeb;
  uint64 m53_ecf;
  UCVector m54_cfa;
  Leaf m33_dbd;
  int64 m14_afa;
  Vector m38_efb;
  Bw64 m5_efd;
  int64 m39_ecf;
  UCVector m34_ffd;
  int64 m31_bec;
  double m16_bda;
  es::Flags<Fl8, uint8> m6_daf;
  int16 m42_acd;
  int64 m19_dfd;
  A<Vector2, 2> m13_cdd;
  float m0_eda;
  Vector4A16 m1_ece;
  uint32 m17_cba;
  Leaf m51_cdb;
  std::array<uint8, 5> m29_bfc;
  Vector4A16 m43_fab;
  A<bool, 9> m10_fbe;
  std::string m52_bbd;
  Vector2 m44_dfe;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen58, 1, EXTENDED, (AD, m0_eda, "alias of m0_eda", "% after"), (A, m1_ece, "alias of m1_ece"), (A, m2_dec, "alias of m2_dec"), (, m3_aea), (A, m4_cae, "alias of m4_cae"), (D, m5_efd, "% after"), (A, m6_daf, "alias of m6_daf"), (AD, m7_fef, "alias of m7_fef", "only"), (AD, m8_efd, "alias of m8_efd", "before % after"), (A, m9_cdb, "alias of m9_cdb"), (A, m10_fbe, "alias of m10_fbe"), (AD, m11_ada, "alias of m11_ada", "before %"), (D, m12_ccf, "b.eehbajgahg hgc i  k.lhfeiaca dfcidkiagjeheadieagfhdcajgd.bc kfej.j.kdglk. .hkg dbhbiibcfde.edbcilkhegk.ail lidh.ld.dahgl.f bhgh kffgbfbbcdibcdlged.llgjblbfg lk.b il.d.cijhdiaebbkjfhflchbchflibhkeb.ddchllhii.baiala.lghjid. bfejlfh..heck.jibfladjhjhkal k%"), (, m13_cdd), (A, m14_afa, "alias of m14_afa"), (D, m15_aad, "% after"), (D, m16_bda, "before % after"), (D, m17_cba, "only"), (AD, m18_ece, "alias of m18_ece", "x%y"), (D, m19_dfd, "% after"), (AD, m20_aba, "alias of m20_aba", "before % after"), (AD, m21_fee, "alias of m21_fee", "b.i ldi..eh..ac.dcfd.kacafebjkigkfi igig...hcjhjfi.jjlkijc.gk cichjckkjh.lffeghladhl .d.dgehgajahacgegafkalak ld fbah jc l. .djj%.agcjagibeeclgjbfjlfa dg degedbdfijdldbch kedjlihj hejik ligihlkehl bfeahfef  abdjid..gacc.kkfaibggjglkigi.fjiafg..kabkckl.jakijj. kdgjcddi.b. jhdifbf.i a.lleihc.ak cdffaikbjeagbfggllf. a.ljdcbalacc.di acdli jiiga.c.i..djij jkfd hffchblgdhcijbbjej jbebjiifl"), (D, m22_aad, "before % after"), (AD, m23_aeb, "alias of m23_aeb", "before % after"), (AD, m24_fdf, "alias of m24_fdf", "% after"), (AD, m25_aea, "alias of m25_aea", "before %"), (AD, m26_edd, "alias of m26_edd", "before % after"), (A, m27_fed, "alias of m27_fed"), (AD, m28_cbe, "alias of m28_cbe", "x%y"), (D, m29_bfc, "only"), (AD, m30_cbc, "alias of m30_cbc", "% after"), (, m31_bec), (, m32_daa), (A, m33_dbd, "alias of m33_dbd"), (A, m34_ffd, "alias of m34_ffd"), (A, m35_cfe, "alias of m35_cfe"), (, m36_ffe), (A, m37_add, "alias of m37_add"), (, m38_efb), (AD, m39_ecf, "alias of m39_ecf", "before % after"), (D, m40_dde, "only"), (D, m41_ebb, "jlkhjkahac .fkc. cjlgk hijff bhd.a dd .bj bbhelejclgd.hkejgiifkkc chegeahljid  .aecbegki.aj cea.kkgh%abjid hcedejlhfc dl dbi ..jchkhiedbj. idaijdgdljkb. delijegg fhhlbadgdjeceela.aacabackgj.gdcc.i ehbjgffdjakcilh.d..jfddjckfcegec.i.cchedldec.lbfjhfi .id bfkblheibabbjljchjca iej f dgjbghfblkjh.fiaiiiabgkggakajbdf  gl..dg.g dhc g ig fghhecj kj.jk.cfggkle."), (D, m42_acd, "x%y"), (D, m43_fab, "before %"), (D, m44_dfe, "% after"), (AD, m45_def, "alias of m45_def", "cdej..lciflgjgjckc gjf.fblf fdjabdhghbdci h.ickg.kk.j.ldegeakjkgaicfjbdbi ad.f ihkh hk aeghlcdfiafdaifj cgchjjlbaikalfjflckefcgkbijdi a .abj.bfellad ealcca lf f.elbdca.dcl.cdjihldbhjibehggbaf de.. gh b hhbeaaaggf..gldffd fae fkcejgalcacbkjbgg  hghgkefi ."), (A, m46_dda, "alias of m46_dda"), (, m47_bca), (D, m48_bbe, "% after"), (D, m49_efc, "jieciblakl .dc.e.eilehkfkgbedae aa.beagl..fdlea..fjccihgajfckealich.kffjj hkf k.jeg.lab.idleidihkhhkbebkhkgjglk.hjh igglfakkcicg ch.fbgahfih e iheff.clkjblfii b d.bedfbgddk.hehjd jee lcacclbjcddedi abkii.fik ckejaaa.e.gdfdffakciif.kh .celccj..kcjidehca dljjdjeld  gek.ilhdafbhadajlbadadglehle.g.aia..bjgajikj lbjljfkah daccc.fcckg.bld e..   akhhkid.g.jialhgfafjae alkfijlhaa..fgc b...  ddglledb  bkai. dh k.didd.lfg kdbaaf.f .hhfddle iljka.fdkgjfdfifg.iglackljeifgfblkgdkhbbeefdlkchghdgcijae ifhcdkjgfikddlcjd j.gcljcbljegha he gkckkhciafidfh.ilddhfedlj kka.klikf.fj.ljdkkag fcbfehedeajdkahhkcfebgbcakeicgihdkaiglcichkkj.likblaadhfhhjg cdjjdbag djgicfjldbcckbfhdgfdkkciagkliagi g.k ejlghleibehgj bj ehdcbak dfde..hk.hdle.  dbjkif hffbgijjiljlachg fjii.gbibfhd.ddefglkikhd.kfkalbichkfckicfhg.di.a.ifjfbc.kidg b.j .iflejkcgkccc.blgef cilg.a.cfjkabajibkaih ill.ek ag.gb kfkajlidadgfaajljbdghi.blf..gifj.adbjiicdafbc bdd dcihlkkhg.jbl.ege.bejbc.cdf adc .ihblceiibkffddkfchkede.l ec.fka..ghifb.fh eiehc.lb"), (D, m50_ceb, "before % after"), (AD, m51_cdb, "alias of m51_cdb", "only"), (AD, m52_bbd, "alias of m52_bbd", "% after"), (, m53_ecf), (, m54_cfa), (A, m55_bff, "alias of m55_bff"), (, m56_bba), (D, m57_aef, "before %"))
template <> inline const ClassModel &classModel<Gen58>() { using CC = Gen58; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen58", {
    MemberModel{"m0_eda", offsetof(CC, m0_eda), descOf<decltype(CC::m0_eda)>(), "alias of m0_eda", "", " after"},
    MemberModel{"m1_ece", offsetof(CC, m1_ece), descOf<decltype(CC::m1_ece)>(), "alias of m1_ece", nullptr, nullptr},
    MemberModel{"m2_dec", offsetof(CC, m2_dec), descOf<decltype(CC::m2_dec)>(), "alias of m2_dec", nullptr, nullptr},
    MemberModel{"m3_aea", offsetof(CC, m3_aea), descOf<decltype(CC::m3_aea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_cae", offsetof(CC, m4_cae), descOf<decltype(CC::m4_cae)>(), "alias of m4_cae", nullptr, nullptr},
    MemberModel{"m5_efd", offsetof(CC, m5_efd), descOf<decltype(CC::m5_efd)>(), nullptr, "", " after"},
    MemberModel{"m6_daf", offsetof(CC, m6_daf), descOf<decltype(CC::m6_daf)>(), "alias of m6_daf", nullptr, nullptr},
    MemberModel{"m7_fef", offsetof(CC, m7_fef), descOf<decltype(CC::m7_fef)>(), "alias of m7_fef", "only", ""},
    MemberModel{"m8_efd", offsetof(CC, m8_efd), descOf<decltype(CC::m8_efd)>(), "alias of m8_efd", "before ", " after"},
    MemberModel{"m9_cdb", offsetof(CC, m9_cdb), descOf<decltype(CC::m9_cdb)>(), "alias of m9_cdb", nullptr, nullptr},
    MemberModel{"m10_fbe", offsetof(CC, m10_fbe), descOf<decltype(CC::m10_fbe)>(), "alias of m10_fbe", nullptr, nullptr},
    MemberModel{"m11_ada", offsetof(CC, m11_ada), descOf<decltype(CC::m11_ada)>(), "alias of m11_ada", "before ", ""},
    MemberModel{"m12_ccf", offsetof(CC, m12_ccf), descOf<decltype(CC::m12_ccf)>(), nullptr, "b.eehbajgahg hgc i  k.lhfeiaca dfcidkiagjeheadieagfhdcajgd.bc kfej.j.kdglk. .hkg dbhbiibcfde.edbcilkhegk.ail lidh.ld.dahgl.f bhgh kffgbfbbcdibcdlged.llgjblbfg lk.b il.d.cijhdiaebbkjfhflchbchflibhkeb.ddchllhii.baiala.lghjid. bfejlfh..heck.jibfladjhjhkal k", ""},
    MemberModel{"m13_cdd", offsetof(CC, m13_cdd), descOf<decltype(CC::m13_cdd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m14_afa", offsetof(CC, m14_afa), descOf<decltype(CC::m14_afa)>(), "alias of m14_afa", nullptr, nullptr},
    MemberModel{"m15_aad", offsetof(CC, m15_aad), descOf<decltype(CC::m15_aad)>(), nullptr, "", " after"},
    MemberModel{"m16_bda", offsetof(CC, m16_bda), descOf<decltype(CC::m16_bda)>(), nullptr, "before ", " after"},
    MemberModel{"m17_cba", offsetof(CC, m17_cba), descOf<decltype(CC::m17_cba)>(), nullptr, "only", ""},
    MemberModel{"m18_ece", offsetof(CC, m18_ece), descOf<decltype(CC::m18_ece)>(), "alias of m18_ece", "x", "y"},
    MemberModel{"m19_dfd", offsetof(CC, m19_dfd), descOf<decltype(CC::m19_dfd)>(), nullptr, "", " after"},
    MemberModel{"m20_aba", offsetof(CC, m20_aba), descOf<decltype(CC::m20_aba)>(), "alias of m20_aba", "before ", " after"},
    MemberModel{"m21_fee", offsetof(CC, m21_fee), descOf<decltype(CC::m21_fee)>(), "alias of m21_fee", "b.i ldi..eh..ac.dcfd.kacafebjkigkfi igig...hcjhjfi.jjlkijc.gk cichjckkjh.lffeghladhl .d.dgehgajahacgegafkalak ld fbah jc l. .djj", ".agcjagibeeclgjbfjlfa dg degedbdfijdldbch kedjlihj hejik ligihlkehl bfeahfef  abdjid..gacc.kkfaibggjglkigi.fjiafg..kabkckl.jakijj. kdgjcddi.b. jhdifbf.i a.lleihc.ak cdffaikbjeagbfggllf. a.ljdcbalacc.di acdli jiiga.c.i..djij jkfd hffchblgdhcijbbjej jbebjiifl"},
    MemberModel{"m22_aad", offsetof(CC, m22_aad), descOf<decltype(CC::m22_aad)>(), nullptr, "before ", " after"},
    MemberModel{"m23_aeb", offsetof(CC, m23_aeb), descOf<decltype(CC::m23_aeb)>(), "alias of m23_aeb", "before ", " after"},
    MemberModel{"m24_fdf", offsetof(CC, m24_fdf), descOf<decltype(CC::m24_fdf)>(), "alias of m24_fdf", "", " after"},
    MemberModel{"m25_aea", offsetof(CC, m25_aea), descOf<decltype(CC::m25_aea)>(), "alias of m25_aea", "before ", ""},
    MemberModel{"m26_edd", offsetof(CC, m26_edd), descOf<decltype(CC::m26_edd)>(), "alias of m26_edd", "before ", " after"},
    MemberModel{"m27_fed", offsetof(CC, m27_fed), descOf<decltype(CC::m27_fed)>(), "alias of m27_fed", nullptr, nullptr},
    MemberModel{"m28_cbe", offsetof(CC, m28_cbe), descOf<decltype(CC::m28_cbe)>(), "alias of m28_cbe", "x", "y"},
    MemberModel{"m29_bfc", offsetof(CC, m29_bfc), descOf<decltype(CC::m29_bfc)>(), nullptr, "only", ""},
    MemberModel{"m30_cbc", offsetof(CC, m30_cbc), descOf<decltype(CC::m30_cbc)>(), "alias of m30_cbc", "", " after"},
    MemberModel{"m31_bec", offsetof(CC, m31_bec), descOf<decltype(CC::m31_bec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m32_daa", offsetof(CC, m32_daa), descOf<decltype(CC::m32_daa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m33_dbd", offsetof(CC, m33_dbd), descOf<decltype(CC::m33_dbd)>(), "alias of m33_dbd", nullptr, nullptr},
    MemberModel{"m34_ffd", offsetof(CC, m34_ffd), descOf<decltype(CC::m34_ffd)>(), "alias of m34_ffd", nullptr, nullptr},
    MemberModel{"m35_cfe", offsetof(CC, m35_cfe), descOf<decltype(CC::m35_cfe)>(), "alias of m35_cfe", nullptr, nullptr},
    MemberModel{"m36_ffe", offsetof(CC, m36_ffe), descOf<decltype(CC::m36_ffe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m37_add", offsetof(CC, m37_add), descOf<decltype(CC::m37_add)>(), "alias of m37_add", nullptr, nullptr},
    MemberModel{"m38_efb", offsetof(CC, m38_efb), descOf<decltype(CC::m38_efb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m39_ecf", offsetof(CC, m39_ecf), descOf<decltype(CC::m39_ecf)>(), "alias of m39_ecf", "before ", " after"},
    MemberModel{"m40_dde", offsetof(CC, m40_dde), descOf<decltype(CC::m40_dde)>(), nullptr, "only", ""},
    MemberModel{"m41_ebb", offsetof(CC, m41_ebb), descOf<decltype(CC::m41_ebb)>(), nullptr, "jlkhjkahac .fkc. cjlgk hijff bhd.a dd .bj bbhelejclgd.hkejgiifkkc chegeahljid  .aecbegki.aj cea.kkgh", "abjid hcedejlhfc dl dbi ..jchkhiedbj. idaijdgdljkb. delijegg fhhlbadgdjeceela.aacabackgj.gdcc.i ehbjgffdjakcilh.d..jfddjckfcegec.i.cchedldec.lbfjhfi .id bfkblheibabbjljchjca iej f dgjbghfblkjh.fiaiiiabgkggakajbdf  gl..dg.g dhc g ig fghhecj kj.jk.cfggkle."},
    MemberModel{"m42_acd", offsetof(CC, m42_acd), descOf<decltype(CC::m42_acd)>(), nullptr, "x", "y"},
    MemberModel{"m43_fab", offsetof(CC, m43_fab), descOf<decltype(CC::m43_fab)>(), nullptr, "before ", ""},
    MemberModel{"m44_dfe", offsetof(CC, m44_dfe), descOf<decltype(CC::m44_dfe)>(), nullptr, "", " after"},
    MemberModel{"m45_def", offsetof(CC, m45_def), descOf<decltype(CC::m45_def)>(), "alias of m45_def", "cdej..lciflgjgjckc gjf.fblf fdjabdhghbdci h.ickg.kk.j.ldegeakjkgaicfjbdbi ad.f ihkh hk aeghlcdfiafdaifj cgchjjlbaikalfjflckefcgkbijdi a .abj.bfellad ealcca lf f.elbdca.dcl.cdjihldbhjibehggbaf de.. gh b hhbeaaaggf..gldffd fae fkcejgalcacbkjbgg  hghgkefi .", ""},
    MemberModel{"m46_dda", offsetof(CC, m46_dda), descOf<decltype(CC::m46_dda)>(), "alias of m46_dda", nullptr, nullptr},
    MemberModel{"m47_bca", offsetof(CC, m47_bca), descOf<decltype(CC::m47_bca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m48_bbe", offsetof(CC, m48_bbe), descOf<decltype(CC::m48_bbe)>(), nullptr, "", " after"},
    MemberModel{"m49_efc", offsetof(CC, m49_efc), descOf<decltype(CC::m49_efc)>(), nullptr, "jieciblakl .dc.e.eilehkfkgbedae aa.beagl..fdlea..fjccihgajfckealich.kffjj hkf k.jeg.lab.idleidihkhhkbebkhkgjglk.hjh igglfakkcicg ch.fbgahfih e iheff.clkjblfii b d.bedfbgddk.hehjd jee lcacclbjcddedi abkii.fik ckejaaa.e.gdfdffakciif.kh .celccj..kcjidehca dljjdjeld  gek.ilhdafbhadajlbadadglehle.g.aia..bjgajikj lbjljfkah daccc.fcckg.bld e..   akhhkid.g.jialhgfafjae alkfijlhaa..fgc b...  ddglledb  bkai. dh k.didd.lfg kdbaaf.f .hhfddle iljka.fdkgjfdfifg.iglackljeifgfblkgdkhbbeefdlkchghdgcijae ifhcdkjgfikddlcjd j.gcljcbljegha he gkckkhciafidfh.ilddhfedlj kka.klikf.fj.ljdkkag fcbfehedeajdkahhkcfebgbcakeicgihdkaiglcichkkj.likblaadhfhhjg cdjjdbag djgicfjldbcckbfhdgfdkkciagkliagi g.k ejlghleibehgj bj ehdcbak dfde..hk.hdle.  dbjkif hffbgijjiljlachg fjii.gbibfhd.ddefglkikhd.kfkalbichkfckicfhg.di.a.ifjfbc.kidg b.j .iflejkcgkccc.blgef cilg.a.cfjkabajibkaih ill.ek ag.gb kfkajlidadgfaajljbdghi.blf..gifj.adbjiicdafbc bdd dcihlkkhg.jbl.ege.bejbc.cdf adc .ihblceiibkffddkfchkede.l ec.fka..ghifb.fh eiehc.lb", ""},
    MemberModel{"m50_ceb", offsetof(CC, m50_ceb), descOf<decltype(CC::m50_ceb)>(), nullptr, "before ", " after"},
    MemberModel{"m51_cdb", offsetof(CC, m51_cdb), descOf<decltype(CC::m51_cdb)>(), "alias of m51_cdb", "only", ""},
    MemberModel{"m52_bbd", offsetof(CC, m52_bbd), descOf<decltype(CC::m52_bbd)>(), "alias of m52_bbd", "", " after"},
    MemberModel{"m53_ecf", offsetof(CC, m53_ecf), descOf<decltype(CC::m53_ecf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m54_cfa", offsetof(CC, m54_cfa), descOf<decltype(CC::m54_cfa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m55_bff", offsetof(CC, m55_bff), descOf<decltype(CC::m55_bff)>(), "alias of m55_bff", nullptr, nullptr},
    MemberModel{"m56_bba", offsetof(CC, m56_bba), descOf<decltype(CC::m56_bba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m57_aef", offsetof(CC, m57_aef), descOf<decltype(CC::m57_aef)>(), nullptr, "before ", ""},
  }); m.hasExt = true; return m; }(); return m; }
struct Gen73 {
  int8 m50_dba;
  A<bool, 9> m64_ebe;
  A<En16, 4> m30_fed;
  int32 m22_cdb;
  Bf16 hidden1;
  bool m48_aeb;
  Leaf m7_caa;
  Leaf m26_bbe;
  Vector4A16 m55_aeb;
  es::Flags<Fl8, uint8> m44_abd;
  A<std::string, 2> m65_eed;
  int16 m0_aea;
  Vector2 m12_bef;
  uint8 m70_bea;
  float m5_aeb;
  En64 m14_cca;
  int8 m18_cdc;
  A<std::string, 2> m23_abb;
  IVector4 m11_aee;
  Bw64 m53_deb;
  int32 m40_fbc;
  std::string m15_bee;
  Vector m4_fdc;
  IVector4 m41_abe;
  float m67_daf;
  Vector m59_dfb;
  int16 m43_dbf;
  En64 m51_fdb;
  Vector4A16 m16_cce;
  float m2_dcb;
  es::Flags<Fl64> m27_bcc;
  Bf16 m13_bca;
  A<uint64, 300> m25_ddc;
  uint64 m38_fbf;
  A<std::string, 2> m6_ece;
  A<bool, 9> m28_ace;
  En64 m33_ccf;
  std::array<uint8, 5> m63_fcd;
  float m47_ffe;
  es::Flags<Fl64> m29_dac;
  A<Leaf, 2> m54_fab;
  IVector4 m19_ebf;
  A<std::string, 2> m56_ebf;
  Bf16 m69_eca;
  A<En16, 4> m61_eda;
  IVector4 m17_bba;
  A<std::string, 2> m1_ddb;
  En64 m39_deb;
  Leaf m35_bba;
  int64 hidden0;
  Bw64 m72_abe;
  A<uint64, 300> m37_efc;
  double m8_cca;
  es::Flags<Fl8, uint8> m46_bcd;
  En64 m71_fcd;
  int8 m66_ced;
  En64 m45_faa;
  A<Bf8, 5> m10_dbb;
  Bw64 m42_edd;
  es::Flags<Fl64> m62_dbf;
  double m60_cea;
  int8 m32_dfa;
  A<bool, 9> m3_bde;
  A<Bf8, 5> m49_cdc;
  uint32 m68_cdd;
  A<Bf8, 5> m34_cdb;
  int32 m31_cec;
  A<Vector2, 2> m21_fee;
  bool m57_acb;
  Vector m58_bad;
  int8 m52_fed;
  A<int16, 3> m36_dec;
  uint16 m20_dda;
  Bf16 m24_ddc;
  int64 m9_cce;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen73, 1, VARNAMES, m0_aea, m1_ddb, m2_dcb, m3_bde, m4_fdc, m5_aeb, m6_ece, m7_caa, m8_cca, m9_cce, m10_dbb, m11_aee, m12_bef, m13_bca, m14_cca, m15_bee, m16_cce, m17_bba, m18_cdc, m19_ebf, m20_dda, m21_fee, m22_cdb, m23_abb, m24_ddc, m25_ddc, m26_bbe, m27_bcc, m28_ace, m29_dac, m30_fed, m31_cec, m32_dfa, m33_ccf, m34_cdb, m35_bba, m36_dec, m37_efc, m38_fbf, m39_deb, m40_fbc, m41_abe, m42_edd, m43_dbf, m44_abd, m45_faa, m46_bcd, m47_ffe, m48_aeb, m49_cdc, m50_dba, m51_fdb, m52_fed, m53_deb, m54_fab, m55_aeb, m56_ebf, m57_acb, m58_bad, m59_dfb, m60_cea, m61_eda, m62_dbf, m63_fcd, m64_ebe, m65_eed, m66_ced, m67_daf, m68_cdd, m69_eca, m70_bea, m71_fcd, m72_abe)
template <> inline const ClassModel &classModel<Gen73>() { using CC = Gen73; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen73", {
    MemberModel{"m0_aea", offsetof(CC, m0_aea), descOf<decltype(CC::m0_aea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_ddb", offsetof(CC, m1_ddb), descOf<decltype(CC::m1_ddb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m2_dcb", offsetof(CC, m2_dcb), descOf<decltype(CC::m2_dcb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_bde", offsetof(CC, m3_bde), descOf<decltype(CC::m3_bde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_fdc", offsetof(CC, m4_fdc), descOf<decltype(CC::m4_fdc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_aeb", offsetof(CC, m5_aeb), descOf<decltype(CC::m5_aeb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m6_ece", offsetof(CC, m6_ece), descOf<decltype(CC::m6_ece)>(), nullptr, nullptr, nullptr},
    MemberModel{"m7_caa", offsetof(CC, m7_caa), descOf<decltype(CC::m7_caa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m8_cca", offsetof(CC, m8_cca), descOf<decltype(CC::m8_cca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_cce", offsetof(CC, m9_cce), descOf<decltype(CC::m9_cce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m10_dbb", offsetof(CC, m10_dbb), descOf<decltype(CC::m10_dbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m11_aee", offsetof(CC, m11_aee), descOf<decltype(CC::m11_aee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m12_bef", offsetof(CC, m12_bef), descOf<decltype(CC::m12_bef)>(), nullptr, nullptr, nullptr},
    MemberModel{"m13_bca", offsetof(CC, m13_bca), descOf<decltype(CC::m13_bca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m14_cca", offsetof(CC, m14_cca), descOf<decltype(CC::m14_cca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m15_bee", offsetof(CC, m15_bee), descOf<decltype(CC::m15_bee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m16_cce", offsetof(CC, m16_cce), descOf<decltype(CC::m16_cce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m17_bba", offsetof(CC, m17_bba), descOf<decltype(CC::m17_bba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m18_cdc", offsetof(CC, m18_cdc), descOf<decltype(CC::m18_cdc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m19_ebf", offsetof(CC, m19_ebf), descOf<decltype(CC::m19_ebf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m20_dda", offsetof(CC, m20_dda), descOf<decltype(CC::m20_dda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m21_fee", offsetof(CC, m21_fee), descOf<decltype(CC::m21_fee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m22_cdb", offsetof(CC, m22_cdb), descOf<decltype(CC::m22_cdb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m23_abb", offsetof(CC, m23_abb), descOf<decltype(CC::m23_abb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m24_ddc", offsetof(CC, m24_ddc), descOf<decltype(CC::m24_ddc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m25_ddc", offsetof(CC, m25_ddc), descOf<decltype(CC::m25_ddc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m26_bbe", offsetof(CC, m26_bbe), descOf<decltype(CC::m26_bbe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m27_bcc", offsetof(CC, m27_bcc), descOf<decltype(CC::m27_bcc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m28_ace", offsetof(CC, m28_ace), descOf<decltype(CC::m28_ace)>(), nullptr, nullptr, nullptr},
    MemberModel{"m29_dac", offsetof(CC, m29_dac), descOf<decltype(CC::m29_dac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m30_fed", offsetof(CC, m30_fed), descOf<decltype(CC::m30_fed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m31_cec", offsetof(CC, m31_cec), descOf<decltype(CC::m31_cec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m32_dfa", offsetof(CC, m32_dfa), descOf<decltype(CC::m32_dfa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m33_ccf", offsetof(CC, m33_ccf), descOf<decltype(CC::m33_ccf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m34_cdb", offsetof(CC, m34_cdb), descOf<decltype(CC::m34_cdb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m35_bba", offsetof(CC, m35_bba), descOf<decltype(CC::m35_bba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m36_dec", offsetof(CC, m36_dec), descOf<decltype(CC::m36_dec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m37_efc", offsetof(CC, m37_efc), descOf<decltype(CC::m37_efc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m38_fbf", offsetof(CC, m38_fbf), descOf<decltype(CC::m38_fbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m39_deb", offsetof(CC, m39_deb), descOf<decltype(CC::m39_deb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m40_fbc", offsetof(CC, m40_fbc), descOf<decltype(CC::m40_fbc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m41_abe", offsetof(CC, m41_abe), descOf<decltype(CC::m41_abe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m42_edd", offsetof(CC, m42_edd), descOf<decltype(CC::m42_edd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m43_dbf", offsetof(CC, m43_dbf), descOf<decltype(CC::m43_dbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m44_abd", offsetof(CC, m44_abd), descOf<decltype(CC::m44_abd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m45_faa", offsetof(CC, m45_faa), descOf<decltype(CC::m45_faa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m46_bcd", offsetof(CC, m46_bcd), descOf<decltype(CC::m46_bcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m47_ffe", offsetof(CC, m47_ffe), descOf<decltype(CC::m47_ffe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m48_aeb", offsetof(CC, m48_aeb), descOf<decltype(CC::m48_aeb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m49_cdc", offsetof(CC, m49_cdc), descOf<decltype(CC::m49_cdc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m50_dba", offsetof(CC, m50_dba), descOf<decltype(CC::m50_dba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m51_fdb", offsetof(CC, m51_fdb), descOf<decltype(CC::m51_fdb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m52_fed", offsetof(CC, m52_fed), descOf<decltype(CC::m52_fed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m53_deb", offsetof(CC, m53_deb), descOf<decltype(CC::m53_deb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m54_fab", offsetof(CC, m54_fab), descOf<decltype(CC::m54_fab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m55_aeb", offsetof(CC, m55_aeb), descOf<decltype(CC::m55_aeb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m56_ebf", offsetof(CC, m56_ebf), descOf<decltype(CC::m56_ebf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m57_acb", offsetof(CC, m57_acb), descOf<decltype(CC::m57_acb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m58_bad", offsetof(CC, m58_bad), descOf<decltype(CC::m58_bad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m59_dfb", offsetof(CC, m59_dfb), descOf<decltype(CC::m59_dfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m60_cea", offsetof(CC, m60_cea), descOf<decltype(CC::m60_cea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m61_eda", offsetof(CC, m61_eda), descOf<decltype(CC::m61_eda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m62_dbf", offsetof(CC, m62_dbf), descOf<decltype(CC::m62_dbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m63_fcd", offsetof(CC, m63_fcd), descOf<decltype(CC::m63_fcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m64_ebe", offsetof(CC, m64_ebe), descOf<decltype(CC::m64_ebe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m65_eed", offsetof(CC, m65_eed), descOf<decltype(CC::m65_eed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m66_ced", offsetof(CC, m66_ced), descOf<decltype(CC::m66_ced)>(), nullptr, nullptr, nullptr},
    MemberModel{"m67_daf", offsetof(CC, m67_daf), descOf<decltype(CC::m67_daf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m68_cdd", offsetof(CC, m68_cdd), descOf<decltype(CC::m68_cdd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m69_eca", offsetof(CC, m69_eca), descOf<decltype(CC::m69_eca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m70_bea", offsetof(CC, m70_bea), descOf<decltype(CC::m70_bea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m71_fcd", offsetof(CC, m71_fcd), descOf<decltype(CC::m71_fcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m72_abe", offsetof(CC, m72_abe), descOf<decltype(CC::m72_abe)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen84 {
  float m67_cbd;
  Vector m2_ede;
  uint16 m46_cff;
  A<bool, 9> m65_dbb;
  int16 m59_ebf;
  bool m5_cca;
  Leaf m53_dad;
  Leaf m60_ced;
  int16 m54_bda;
  En8 m44_cec;
  uint64 m51_dca;
  A<std::string, 2> m38_baf;
  int8 m21_afc;
  bool m27_ced;
  Vector m33_bfd;
  std::string m81_efe;
  double m24_bff;
  es::Flags<Fl64> m82_adf;
  std::array<uint8, 5> m42_eed;
  A<bool, 9> m4_ada;
  A<Leaf, 2> m73_cdb;
  es::Flags<Fl8, uint8> m83_eef;
  A<uint64, 300> m12_fcb;
  es::Flags<Fl64> m36_aef;
  En64 m10_cea;
  uint16 m62_ede;
  A<bool, 9> m29_aeb;
  Bw64 m79_cad;
  uint16 m20_aea;
  UCVector m30_ebf;
  es::Flags<Fl64> m31_efa;
  Bf16 m43_acc;
  IVector4 m14_bab;
  uint32 m15_abf;
  A<int16, 3> m34_cdc;
  int64 hidden0;
  En8 m19_dca;
  A<Vector2, 2> m75_abc;
  double m18_add;
  uint16 m80_bcd;
  Bw64 m52_dbd;
  A<uint64, 300> m8_fbf;
  float m50_cab;
  En64 m55_bef;
  Vector4A16 m40_bdf;
  es::Flags<Fl64> m22_bfc;
  double m23_aed;
  uint32 m57_cfc;
  A<Vector2, 2> m3_afe;
  IVector4 m35_eaf;
  es::Flags<Fl64> m68_bec;
  uint64 m74_bdd;
  UCVector m17_cfc;
  A<std::string, 2> m13_dcf;
  A<Leaf, 2> m28_eeb;
  A<Vector2, 2> m48_cfd;
  std::array<uint8, 5> m49_bcf;
  uint32 m77_ece;
  A<En16, 4> m37_ada;
  std::array<uint8, 5> m16_ace;
  std::array<uint8, 5> m25_aec;
  double m26_fdb;
  uint16 m11_dff;
  En64 m70_fbd;
  A<Leaf, 2> m1_def;
  A<uint64, 300> m63_cac;
  uint8 m71_bed;
  uint64 hidden1;
  int32 m45_dcf;
  uint32 m58_dbe;
  Bf16 m72_eed;
  A<bool, 9> m7_ebe;
  uint32 m9_dee;
  A<Vector2, 2> m76_dfb;
  Vector4A16 m66_ffc;
  En64 m6_fbc;
  uint32 m41_ffe;
  uint64 m64_ccb;
  A<int16, 3> m69_dde;
  A<uint64, 300> m32_fad;
  A<Bf8, 5> m56_dae;
  Vector m47_bdc;
  int32 m39_ded;
  A<std::string, 2> m61_dac;
  A<int16, 3> m0_dda;
  std::string m78_bfa;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen84, 1, EXTENDED, (D, m0_dda, "before % after"), (AD, m1_def, "alias of m1_def", "% after"), (, m2_ede), (AD, m3_afe, "alias of m3_afe", "before % after"), (, m4_ada), (A, m5_cca, "alias of m5_cca"), (D, m6_fbc, "ellgda bbee.fhldflcaldelgd .c dkd dhgckd ak h gdagaeh bhb.kcikk kaiihidkcj eehigjjdgic.fbhhgjgihgcejbldbckgdhbaaciebdjkebbjce"), (D, m7_ebe, "before % after"), (, m8_fbf), (, m9_dee), (, m10_cea), (AD, m11_dff, "alias of m11_dff", "only"), (A, m12_fcb, "alias of m12_fcb"), (A, m13_dcf, "alias of m13_dcf"), (, m14_bab), (D, m15_abf, "only"), (, m16_ace), (A, m17_cfc, "alias of m17_cfc"), (D, m18_add, "before %"), (AD, m19_dca, "alias of m19_dca", "only"), (D, m20_aea, "dkgdjcklihjhkkjdjeei.fgg beg.bdjfaaf.kc.elehg.ghcf.h..c.fgjk .gdfhfc.cheaba.gicgcjcbhghjeblehbg.flcjbdlkikich.be bg jfb.hcchj"), (D, m21_afc, "ie lh d.dfdhhclckiljf.a.lkcilaacebg jc. cddgkdej.ejj.iidfaileekkgag.bfkg.kdkhlaji keeac.hih gdhkkejlhdc.fdkfbedhjjc.bajaefced%kgellkjjgagc.lklgcekcgbhjl gef.ljdbl.   cihb j hachfdg clhb j gbhlgaha gbilhg kggg. .ceiaa.j.ifld cgfe kckaai igiebhlchiabiecec.cjkihjc.fhcck agdcjcaalkjcf.df ehfl.ebjcghjcg.fg cb fhahjl.f.klhedaikgcjcdakkcadkdbkliilcdfcjlcfcahakle.dig.d ll dlhadca gkgebhh"), (AD, m22_bfc, "alias of m22_bfc", "hbbhiade.g cjagc ceki ijlafkhck.  eh.cld egila ig.lklhajkgfdgekcfkl.faikldall icggkk.iikchb ihbghffhhgjkh bfdkcdejb..chgd. be "), (, m23_aed), (, m24_bff), (D, m25_aec, "before % after"), (, m26_fdb), (, m27_ced), (AD, m28_eeb, "alias of m28_eeb", "before % after"), (A, m29_aeb, "alias of m29_aeb"), (, m30_ebf), (, m31_efa), (AD, m32_fad, "alias of m32_fad", "% after"), (D, m33_bfd, "x%y"), (, m34_cdc), (AD, m35_eaf, "alias of m35_eaf", "only"), (AD, m36_aef, "alias of m36_aef", "dlijaajgj.h.dbjhbggcbfklgfkjiffk.. ggdiklbellebgacck l. b .biblibfji.i.adbic..cb.ea.lkhbkcieccjahijc"), (AD, m37_ada, "alias of m37_ada", "before %"), (AD, m38_baf, "alias of m38_baf", "only"), (AD, m39_ded, "alias of m39_ded", "only"), (A, m40_bdf, "alias of m40_bdf"), (D, m41_ffe, "before % after"), (AD, m42_eed, "alias of m42_eed", "before %"), (, m43_acc), (, m44_cec), (A, m45_dcf, "alias of m45_dcf"), (D, m46_cff, "before % after"), (AD, m47_bdc, "alias of m47_bdc", "before % after"), (D, m48_cfd, "x%y"), (A, m49_bcf, "alias of m49_bcf"), (, m50_cab), (A, m51_dca, "alias of m51_dca"), (A, m52_dbd, "alias of m52_dbd"), (AD, m53_dad, "alias of m53_dad", "% after"), (D, m54_bda, "abaaalhdjjhbkgadcciejgbbfjb khgbi jlfg.kbfbgceaiflab hlaijcg. kij...id ibekckied.bikghdjlkalejbigdbbiefebifgj..jegh.ble.baljbaellfa aejdfceckhfg cikjclfehlkgdeld.b.c ki  djff ljl.ged.ceidkaacl hkhbk.j.gabfklhijf.i.dljdfa giekhhhkchcde  cgjgeilhlkkdji.c.leef%"), (A, m55_bef, "alias of m55_bef"), (D, m56_dae, "before %"), (A, m57_cfc, "alias of m57_cfc"), (A, m58_dbe, "alias of m58_dbe"), (AD, m59_ebf, "alias of m59_ebf", "before %"), (AD, m60_ced, "alias of m60_ced", "d%cd ..c.hehkhej ligjhagaegckkh.jkldb hgfhjd  gdiiiljdfldjljic.lgb.aj ffefglbcl.cdhkkfkaaakjdgaddelljj legec.fecccffccddkkij hdg jg  klgakflej.dchaiji.ifeicagfbbikii.ekeda.klkl c.lcblig.jl de.ke h.ef.gbf fhggcjkb h cee.b beacjckdeg kf.gkhj.b.i.fi.fjgkbb chd"), (D, m61_dac, "x%y"), (D, m62_ede, "% after"), (A, m63_cac, "alias of m63_cac"), (D, m64_ccb, "before %"), (, m65_dbb), (D, m66_ffc, "dhbgidhadlilfcakbgkc h.hblgblefeiabhi jiicjajek.dgjgf.k dfh.laelkgilic.keeeekjfefbfggdlcc faj ldk kba.bjckkfija je bkbflhlkddkebhkiikdceehjdghjklfahf iddaclifbch aeeefclbaj.afidlc.fbgffl.gf.cijcfaefij.djjkhiejckbaljeeibkl hchgklkdbffdill.efccleaaidh  fgkekiijhfhgbhk.bjdagg.i.bjhhjjblj.khcgke kjhhflg%iagld.bh.llbfcfjccc. liel.d hhbj lak.cebh.gajdecagebkf bijbgjgblbdkdkkjh g aeah.il .ffdhjic.eaegggacbddgdhfhghkl h hldijdclkhle"), (, m67_cbd), (, m68_bec), (A, m69_dde, "alias of m69_dde"), (A, m70_fbd, "alias of m70_fbd"), (A, m71_bed, "alias of m71_bed"), (D, m72_eed, "only"), (D, m73_cdb, "x%y"), (A, m74_bdd, "alias of m74_bdd"), (A, m75_abc, "alias of m75_abc"), (D, m76_dfb, "% after"), (D, m77_ece, "% after"), (D, m78_bfa, "i fkhekhbdgd ghiekckagflbiillhk i laek fegek.llkhfl.aijgeeecaafhlfdefihcc jkiegkbec bdjieg..aafei hcdffh idfdld.albilbbjbldiiekj.iab lchibdegdcibja.digfdhl  jlfbbkchkgbbhbe..bfjefei.hdkkalk.flflg dcccdde.a.bjhgd ijlh djelcgbijjlafblc.hlg.hhljibglkdjii .lcaiaaijiblcde gk.jdlghala kiaid f kjjbldeljelj%"), (AD, m79_cad, "alias of m79_cad", "before %"), (A, m80_bcd, "alias of m80_bcd"), (, m81_efe), (D, m82_adf, "x%y"), (D, m83_eef, " jh.ice c dcba blgkjjlhkhbfggbkfehegfcbb.b jffbikagbefdlgiadab.daiaailccjkdcl gchkkibdfgjceiffbcdlbcelael.hka.hgbdcecgihkii bjh%ekleebdfgl.j  jefkafbk. dibag hfe ahcddkghbb..fbleckkblajkdi.dcgc.kfcicfbee.l.hlcjhhcagkebjdbhdgbaj cibbl b.hkidelb.ahikjibdfi.hc..hcgkkhlaia.dkideic.bdee egfcih.cjdbih g cfck ecece fgdifekibg.fl g jbdeikgjajhicdgfhdh..kfiikhchbkbljdife.ldec .cclfejgbeae.agjj hka .ja l ifbgbidfigeedhblhejlei.a g fhgj dgd cbi  jhhec j f heckhfbabiefhccaaaagfhaaahhj.kh d.jhhijbeh hddll kdle.aeealkddge..h. abkgjj.hiade fbkjafleeb  lcfcfjk.lffkfhelf elcchdbc.h chejadehdekgkhbbjld.cke glj.llfjjhi.ehfld.jhlk  lacjlkficecjc aibbh.eb.keblakciljijlbbeclbc ja ccfah.kfk.h daggijjgacfc.jdfllkh kl.edg..dg.dbd. hd.g ikclkkjecellicffaech.fkfjj gjeh.gb ag dhcagkaibilel kbefjhae dbbkdhh ejlbgcahace.ijjicdja.c..bdjk  jlihcgkdhf jch.bcij bll dakd.kfj.eiccaaf.b bbdkiggh  lllldcjelhdc.egiaglgcffabjlc.licgllkeaag.bfca.jfki lg khdgalajceggbhecgk jlafcgciaeckhcfcckdlhc.g..hbkffbkefibhc. adcdbchgebldjii.dcjaab .lccfbfefegicjci  kkh.bbjbaihlk.dddaikldc.ijaelkhhlhg.gjjc.dhdafdbcjij.kgi ieaeabhaf.jccfeahjljlfhl.fe. lbfjieek.ef ee"))
template <> inline const ClassModel &classModel<Gen84>() { using CC = Gen84; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen84", {
    MemberModel{"m0_dda", offsetof(CC, m0_dda), descOf<decltype(CC::m0_dda)>(), nullptr, "before ", " after"},
    MemberModel{"m1_def", offsetof(CC, m1_def), descOf<decltype(CC::m1_def)>(), "alias of m1_def", "", " after"},
    MemberModel{"m2_ede", offsetof(CC, m2_ede), descOf<decltype(CC::m2_ede)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_afe", offsetof(CC, m3_afe), descOf<decltype(CC::m3_afe)>(), "alias of m3_afe", "before ", " after"},
    MemberModel{"m4_ada", offsetof(CC, m4_ada), descOf<decltype(CC::m4_ada)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_cca", offsetof(CC, m5_cca), descOf<decltype(CC::m5_cca)>(), "alias of m5_cca", nullptr, nullptr},
    MemberModel{"m6_fbc", offsetof(CC, m6_fbc), descOf<decltype(CC::m6_fbc)>(), nullptr, "ellgda bbee.fhldflcaldelgd .c dkd dhgckd ak h gdagaeh bhb.kcikk kaiihidkcj eehigjjdgic.fbhhgjgihgcejbldbckgdhbaaciebdjkebbjce", ""},
    MemberModel{"m7_ebe", offsetof(CC, m7_ebe), descOf<decltype(CC::m7_ebe)>(), nullptr, "before ", " after"},
    MemberModel{"m8_fbf", offsetof(CC, m8_fbf), descOf<decltype(CC::m8_fbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_dee", offsetof(CC, m9_dee), descOf<decltype(CC::m9_dee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m10_cea", offsetof(CC, m10_cea), descOf<decltype(CC::m10_cea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m11_dff", offsetof(CC, m11_dff), descOf<decltype(CC::m11_dff)>(), "alias of m11_dff", "only", ""},
    MemberModel{"m12_fcb", offsetof(CC, m12_fcb), descOf<decltype(CC::m12_fcb)>(), "alias of m12_fcb", nullptr, nullptr},
    MemberModel{"m13_dcf", offsetof(CC, m13_dcf), descOf<decltype(CC::m13_dcf)>(), "alias of m13_dcf", nullptr, nullptr},
    MemberModel{"m14_bab", offsetof(CC, m14_bab), descOf<decltype(CC::m14_bab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m15_abf", offsetof(CC, m15_abf), descOf<decltype(CC::m15_abf)>(), nullptr, "only", ""},
    MemberModel{"m16_ace", offsetof(CC, m16_ace), descOf<decltype(CC::m16_ace)>(), nullptr, nullptr, nullptr},
    MemberModel{"m17_cfc", offsetof(CC, m17_cfc), descOf<decltype(CC::m17_cfc)>(), "alias of m17_cfc", nullptr, nullptr},
    MemberModel{"m18_add", offsetof(CC, m18_add), descOf<decltype(CC::m18_add)>(), nullptr, "before ", ""},
    MemberModel{"m19_dca", offsetof(CC, m19_dca), descOf<decltype(CC::m19_dca)>(), "alias of m19_dca", "only", ""},
    MemberModel{"m20_aea", offsetof(CC, m20_aea), descOf<decltype(CC::m20_aea)>(), nullptr, "dkgdjcklihjhkkjdjeei.fgg beg.bdjfaaf.kc.elehg.ghcf.h..c.fgjk .gdfhfc.cheaba.gicgcjcbhghjeblehbg.flcjbdlkikich.be bg jfb.hcchj", ""},
    MemberModel{"m21_afc", offsetof(CC, m21_afc), descOf<decltype(CC::m21_afc)>(), nullptr, "ie lh d.dfdhhclckiljf.a.lkcilaacebg jc. cddgkdej.ejj.iidfaileekkgag.bfkg.kdkhlaji keeac.hih gdhkkejlhdc.fdkfbedhjjc.bajaefced", "kgellkjjgagc.lklgcekcgbhjl gef.ljdbl.   cihb j hachfdg clhb j gbhlgaha gbilhg kggg. .ceiaa.j.ifld cgfe kckaai igiebhlchiabiecec.cjkihjc.fhcck agdcjcaalkjcf.df ehfl.ebjcghjcg.fg cb fhahjl.f.klhedaikgcjcdakkcadkdbkliilcdfcjlcfcahakle.dig.d ll dlhadca gkgebhh"},
    MemberModel{"m22_bfc", offsetof(CC, m22_bfc), descOf<decltype(CC::m22_bfc)>(), "alias of m22_bfc", "hbbhiade.g cjagc ceki ijlafkhck.  eh.cld egila ig.lklhajkgfdgekcfkl.faikldall icggkk.iikchb ihbghffhhgjkh bfdkcdejb..chgd. be ", ""},
    MemberModel{"m23_aed", offsetof(CC, m23_aed), descOf<decltype(CC::m23_aed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m24_bff", offsetof(CC, m24_bff), descOf<decltype(CC::m24_bff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m25_aec", offsetof(CC, m25_aec), descOf<decltype(CC::m25_aec)>(), nullptr, "before ", " after"},
    MemberModel{"m26_fdb", offsetof(CC, m26_fdb), descOf<decltype(CC::m26_fdb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m27_ced", offsetof(CC, m27_ced), descOf<decltype(CC::m27_ced)>(), nullptr, nullptr, nullptr},
    MemberModel{"m28_eeb", offsetof(CC, m28_eeb), descOf<decltype(CC::m28_eeb)>(), "alias of m28_eeb", "before ", " after"},
    MemberModel{"m29_aeb", offsetof(CC, m29_aeb), descOf<decltype(CC::m29_aeb)>(), "alias of m29_aeb", nullptr, nullptr},
    MemberModel{"m30_ebf", offsetof(CC, m30_ebf), descOf<decltype(CC::m30_ebf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m31_efa", offsetof(CC, m31_efa), descOf<decltype(CC::m31_efa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m32_fad", offsetof(CC, m32_fad), descOf<decltype(CC::m32_fad)>(), "alias of m32_fad", "", " after"},
    MemberModel{"m33_bfd", offsetof(CC, m33_bfd), descOf<decltype(CC::m33_bfd)>(), nullptr, "x", "y"},
    MemberModel{"m34_cdc", offsetof(CC, m34_cdc), descOf<decltype(CC::m34_cdc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m35_eaf", offsetof(CC, m35_eaf), descOf<decltype(CC::m35_eaf)>(), "alias of m35_eaf", "only", ""},
    MemberModel{"m36_aef", offsetof(CC, m36_aef), descOf<decltype(CC::m36_aef)>(), "alias of m36_aef", "dlijaajgj.h.dbjhbggcbfklgfkjiffk.. ggdiklbellebgacck l. b .biblibfji.i.adbic..cb.ea.lkhbkcieccjahijc", ""},
    MemberModel{"m37_ada", offsetof(CC, m37_ada), descOf<decltype(CC::m37_ada)>(), "alias of m37_ada", "before ", ""},
    MemberModel{"m38_baf", offsetof(CC, m38_baf), descOf<decltype(CC::m38_baf)>(), "alias of m38_baf", "only", ""},
    MemberModel{"m39_ded", offsetof(CC, m39_ded), descOf<decltype(CC::m39_ded)>(), "alias of m39_ded", "only", ""},
    MemberModel{"m40_bdf", offsetof(CC, m40_bdf), descOf<decltype(CC::m40_bdf)>(), "alias of m40_bdf", nullptr, nullptr},
    MemberModel{"m41_ffe", offsetof(CC, m41_ffe), descOf<decltype(CC::m41_ffe)>(), nullptr, "before ", " after"},
    MemberModel{"m42_eed", offsetof(CC, m42_eed), descOf<decltype(CC::m42_eed)>(), "alias of m42_eed", "before ", ""},
    MemberModel{"m43_acc", offsetof(CC, m43_acc), descOf<decltype(CC::m43_acc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m44_cec", offsetof(CC, m44_cec), descOf<decltype(CC::m44_cec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m45_dcf", offsetof(CC, m45_dcf), descOf<decltype(CC::m45_dcf)>(), "alias of m45_dcf", nullptr, nullptr},
    MemberModel{"m46_cff", offsetof(CC, m46_cff), descOf<decltype(CC::m46_cff)>(), nullptr, "before ", " after"},
    MemberModel{"m47_bdc", offsetof(CC, m47_bdc), descOf<decltype(CC::m47_bdc)>(), "alias of m47_bdc", "before ", " after"},
    MemberModel{"m48_cfd", offsetof(CC, m48_cfd), descOf<decltype(CC::m48_cfd)>(), nullptr, "x", "y"},
    MemberModel{"m49_bcf", offsetof(CC, m49_bcf), descOf<decltype(CC::m49_bcf)>(), "alias of m49_bcf", nullptr, nullptr},
    MemberModel{"m50_cab", offsetof(CC, m50_cab), descOf<decltype(CC::m50_cab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m51_dca", offsetof(CC, m51_dca), descOf<decltype(CC::m51_dca)>(), "alias of m51_dca", nullptr, nullptr},
    MemberModel{"m52_dbd", offsetof(CC, m52_dbd), descOf<decltype(CC::m52_dbd)>(), "alias of m52_dbd", nullptr, nullptr},
    MemberModel{"m53_dad", offsetof(CC, m53_dad), descOf<decltype(CC::m53_dad)>(), "alias of m53_dad", "", " after"},
    MemberModel{"m54_bda", offsetof(CC, m54_bda), descOf<decltype(CC::m54_bda)>(), nullptr, "abaaalhdjjhbkgadcciejgbbfjb khgbi jlfg.kbfbgceaiflab hlaijcg. kij...id ibekckied.bikghdjlkalejbigdbbiefebifgj..jegh.ble.baljbaellfa aejdfceckhfg cikjclfehlkgdeld.b.c ki  djff ljl.ged.ceidkaacl hkhbk.j.gabfklhijf.i.dljdfa giekhhhkchcde  cgjgeilhlkkdji.c.leef", ""},
    MemberModel{"m55_bef", offsetof(CC, m55_bef), descOf<decltype(CC::m55_bef)>(), "alias of m55_bef", nullptr, nullptr},
    MemberModel{"m56_dae", offsetof(CC, m56_dae), descOf<decltype(CC::m56_dae)>(), nullptr, "before ", ""},
    MemberModel{"m57_cfc", offsetof(CC, m57_cfc), descOf<decltype(CC::m57_cfc)>(), "alias of m57_cfc", nullptr, nullptr},
    MemberModel{"m58_dbe", offsetof(CC, m58_dbe), descOf<decltype(CC::m58_dbe)>(), "alias of m58_dbe", nullptr, nullptr},
    MemberModel{"m59_ebf", offsetof(CC, m59_ebf), descOf<decltype(CC::m59_ebf)>(), "alias of m59_ebf", "before ", ""},
    MemberModel{"m60_ced", offsetof(CC, m60_ced), descOf<decltype(CC::m60_ced)>(), "alias of m60_ced", "d", "cd ..c.hehkhej ligjhagaegckkh.jkldb hgfhjd  gdiiiljdfldjljic.lgb.aj ffefglbcl.cdhkkfkaaakjdgaddelljj legec.fecccffccddkkij hdg jg  klgakflej.dchaiji.ifeicagfbbikii.ekeda.klkl c.lcblig.jl de.ke h.ef.gbf fhggcjkb h cee.b beacjckdeg kf.gkhj.b.i.fi.fjgkbb chd"},
    MemberModel{"m61_dac", offsetof(CC, m61_dac), descOf<decltype(CC::m61_dac)>(), nullptr, "x", "y"},
    MemberModel{"m62_ede", offsetof(CC, m62_ede), descOf<decltype(CC::m62_ede)>(), nullptr, "", " after"},
    MemberModel{"m63_cac", offsetof(CC, m63_cac), descOf<decltype(CC::m63_cac)>(), "alias of m63_cac", nullptr, nullptr},
    MemberModel{"m64_ccb", offsetof(CC, m64_ccb), descOf<decltype(CC::m64_ccb)>(), nullptr, "before ", ""},
    MemberModel{"m65_dbb", offsetof(CC, m65_dbb), descOf<decltype(CC::m65_dbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m66_ffc", offsetof(CC, m66_ffc), descOf<decltype(CC::m66_ffc)>(), nullptr, "dhbgidhadlilfcakbgkc h.hblgblefeiabhi jiicjajek.dgjgf.k dfh.laelkgilic.keeeekjfefbfggdlcc faj ldk kba.bjckkfija je bkbflhlkddkebhkiikdceehjdghjklfahf iddaclifbch aeeefclbaj.afidlc.fbgffl.gf.cijcfaefij.djjkhiejckbaljeeibkl hchgklkdbffdill.efccleaaidh  fgkekiijhfhgbhk.bjdagg.i.bjhhjjblj.khcgke kjhhflg", "iagld.bh.llbfcfjccc. liel.d hhbj lak.cebh.gajdecagebkf bijbgjgblbdkdkkjh g aeah.il .ffdhjic.eaegggacbddgdhfhghkl h hldijdclkhle"},
    MemberModel{"m67_cbd", offsetof(CC, m67_cbd), descOf<decltype(CC::m67_cbd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m68_bec", offsetof(CC, m68_bec), descOf<decltype(CC::m68_bec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m69_dde", offsetof(CC, m69_dde), descOf<decltype(CC::m69_dde)>(), "alias of m69_dde", nullptr, nullptr},
    MemberModel{"m70_fbd", offsetof(CC, m70_fbd), descOf<decltype(CC::m70_fbd)>(), "alias of m70_fbd", nullptr, nullptr},
    MemberModel{"m71_bed", offsetof(CC, m71_bed), descOf<decltype(CC::m71_bed)>(), "alias of m71_bed", nullptr, nullptr},
    MemberModel{"m72_eed", offsetof(CC, m72_eed), descOf<decltype(CC::m72_eed)>(), nullptr, "only", ""},
    MemberModel{"m73_cdb", offsetof(CC, m73_cdb), descOf<decltype(CC::m73_cdb)>(), nullptr, "x", "y"},
    MemberModel{"m74_bdd", offsetof(CC, m74_bdd), descOf<decltype(CC::m74_bdd)>(), "alias of m74_bdd", nullptr, nullptr},
    MemberModel{"m75_abc", offsetof(CC, m75_abc), descOf<decltype(CC::m75_abc)>(), "alias of m75_abc", nullptr, nullptr},
    MemberModel{"m76_dfb", offsetof(CC, m76_dfb), descOf<decltype(CC::m76_dfb)>(), nullptr, "", " after"},
    MemberModel{"m77_ece", offsetof(CC, m77_ece), descOf<decltype(CC::m77_ece)>(), nullptr, "", " after"},
    MemberModel{"m78_bfa", offsetof(CC, m78_bfa), descOf<decltype(CC::m78_bfa)>(), nullptr, "i fkhekhbdgd ghiekckagflbiillhk i laek fegek.llkhfl.aijgeeecaafhlfdefihcc jkiegkbec bdjieg..aafei hcdffh idfdld.albilbbjbldiiekj.iab lchibdegdcibja.digfdhl  jlfbbkchkgbbhbe..bfjefei.hdkkalk.flflg dcccdde.a.bjhgd ijlh djelcgbijjlafblc.hlg.hhljibglkdjii .lcaiaaijiblcde gk.jdlghala kiaid f kjjbldeljelj", ""},
    MemberModel{"m79_cad", offsetof(CC, m79_cad), descOf<decltype(CC::m79_cad)>(), "alias of m79_cad", "before ", ""},
    MemberModel{"m80_bcd", offsetof(CC, m80_bcd), descOf<decltype(CC::m80_bcd)>(), "alias of m80_bcd", nullptr, nullptr},
    MemberModel{"m81_efe", offsetof(CC, m81_efe), descOf<decltype(CC::m81_efe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m82_adf", offsetof(CC, m82_adf), descOf<decltype(CC::m82_adf)>(), nullptr, "x", "y"},
    MemberModel{"m83_eef", offsetof(CC, m83_eef), descOf<decltype(CC::m83_eef)>(), nullptr, " jh.ice c dcba blgkjjlhkhbfggbkfehegfcbb.b jffbikagbefdlgiadab.daiaailccjkdcl gchkkibdfgjceiffbcdlbcelael.hka.hgbdcecgihkii bjh", "ekleebdfgl.j  jefkafbk. dibag hfe ahcddkghbb..fbleckkblajkdi.dcgc.kfcicfbee.l.hlcjhhcagkebjdbhdgbaj cibbl b.hkidelb.ahikjibdfi.hc..hcgkkhlaia.dkideic.bdee egfcih.cjdbih g cfck ecece fgdifekibg.fl g jbdeikgjajhicdgfhdh..kfiikhchbkbljdife.ldec .cclfejgbeae.agjj hka .ja l ifbgbidfigeedhblhejlei.a g fhgj dgd cbi  jhhec j f heckhfbabiefhccaaaagfhaaahhj.kh d.jhhijbeh hddll kdle.aeealkddge..h. abkgjj.hiade fbkjafleeb  lcfcfjk.lffkfhelf elcchdbc.h chejadehdekgkhbbjld.cke glj.llfjjhi.ehfld.jhlk  lacjlkficecjc aibbh.eb.keblakciljijlbbeclbc ja ccfah.kfk.h daggijjgacfc.jdfllkh kl.edg..dg.dbd. hd.g ikclkkjecellicffaech.fkfjj gjeh.gb ag dhcagkaibilel kbefjhae dbbkdhh ejlbgcahace.ijjicdja.c..bdjk  jlihcgkdhf jch.bcij bll dakd.kfj.eiccaaf.b bbdkiggh  lllldcjelhdc.egiaglgcffabjlc.licgllkeaag.bfca.jfki lg khdgalajceggbhecgk jlafcgciaeckhcfcckdlhc.g..hbkffbkefibhc. adcdbchgebldjii.dcjaab .lccfbfefegicjci  kkh.bbjbaihlk.dddaikldc.ijaelkhhlhg.gjjc.dhdafdbcjij.kgi ieaeabhaf.jccfeahjljlfhl.fe. lbfjieek.ef ee"},
  }); m.hasExt = true; return m; }(); return m; }
struct Gen85 {
  std::string m75_ddc;
  Vector2 m43_ccd;
  std::array<uint8, 5> m16_cdc;
  Bf16 m46_cbb;
  A<En16, 4> m21_bdb;
  A<Vector2, 2> m68_adc;
  Bf16 m24_aec;
  Vector2 m72_abf;
  uint8 m4_fdf;
  Vector2 m30_fad;
  A<Vector2, 2> m41_beb;
  float m84_bde;
  int32 m10_eea;
  int64 m28_eec;
  uint64 m61_fdf;
  A<Bf8, 5> m58_abc;
  uint8 m79_cda;
  uint32 m42_ece;
  IVector4 m0_dac;
  uint16 m27_ddb;
  Bf16 m6_dfa;
  Vector2 m8_ddf;
  Vector2 m15_fcd;
  Vector m14_ada;
  int32 m11_dab;
  float m1_bca;
  std::string m38_beb;
  UCVector m60_cec;
  double m45_ebd;
  UCVector m32_cfe;
  En8 m7_dff;
  Vector m9_dee;
  A<std::string, 2> m12_afb;
  uint64 m65_bde;
  A<int16, 3> m53_aeb;
  Vector4A16 m40_ecf;
  int8 m83_abb;
  Vector m80_aac;
  int16 m55_dfd;
  UCVector m56_cad;
  Vector4A16 hidden0;
  es::Flags<Fl8, uint8> m81_cac;
  uint64 m33_fea;
  A<std::string, 2> m54_afc;
  Vector2 m62_cea;
  uint16 m49_acd;
  A<Leaf, 2> m18_ccd;
  Leaf m31_dac;
  Bf16 m44_fcd;
  Vector2 m22_abe;
  UCVector m36_dee;
  es::Flags<Fl64> m51_aaa;
  A<Bf8, 5> m66_dcd;
  Leaf m50_eaa;
  A<Leaf, 2> m37_adb;
  es::Flags<Fl64> m78_eaa;
  En8 m74_eea;
  A<Bf8, 5> m59_fca;
  A<Bf8, 5> m20_bbb;
  std::array<uint8, 5> m82_aac;
  std::array<uint8, 5> m76_dec;
  A<bool, 9> m39_aae;
  A<bool, 9> m57_ffd;
  Vector2 m69_ffd;
  Leaf m2_fdd;
  int16 m73_ecf;
  Leaf m77_eec;
  Bw64 m64_cdf;
  Vector m71_dde;
  Vector m19_cfb;
  En8 m17_fff;
  IVector4 m34_bac;
  int16 m67_aee;
  int8 m63_dff;
  int16 m5_dfd;
  int64 m13_bce;
  std::string m48_bae;
  Leaf m23_eda;
  A<uint64, 300> m29_aac;
  uint16 m47_bff;
  int8 m3_eeb;
  Vector4A16 m35_ffc;
  En8 m25_ace;
  A<En16, 4> m70_ced;
  uint64 m26_ccb;
  double m52_bfb;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen85, 1, VARNAMES, m0_dac, m1_bca, m2_fdd, m3_eeb, m4_fdf, m5_dfd, m6_dfa, m7_dff, m8_ddf, m9_dee, m10_eea, m11_dab, m12_afb, m13_bce, m14_ada, m15_fcd, m16_cdc, m17_fff, m18_ccd, m19_cfb, m20_bbb, m21_bdb, m22_abe, m23_eda, m24_aec, m25_ace, m26_ccb, m27_ddb, m28_eec, m29_aac, m30_fad, m31_dac, m32_cfe, m33_fea, m34_bac, m35_ffc, m36_dee, m37_adb, m38_beb, m39_aae, m40_ecf, m41_beb, m42_ece, m43_ccd, m44_fcd, m45_ebd, m46_cbb, m47_bff, m48_bae, m49_acd, m50_eaa, m51_aaa, m52_bfb, m53_aeb, m54_afc, m55_dfd, m56_cad, m57_ffd, m58_abc, m59_fca, m60_cec, m61_fdf, m62_cea, m63_dff, m64_cdf, m65_bde, m66_dcd, m67_aee, m68_adc, m69_ffd, m70_ced, m71_dde, m72_abf, m73_ecf, m74_eea, m75_ddc, m76_dec, m77_eec, m78_eaa, m79_cda, m80_aac, m81_cac, m82_aac, m83_abb, m84_bde)
template <> inline const ClassModel &classModel<Gen85>() { using CC = Gen85; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen85", {
    MemberModel{"m0_dac", offsetof(CC, m0_dac), descOf<decltype(CC::m0_dac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_bca", offsetof(CC, m1_bca), descOf<decltype(CC::m1_bca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m2_fdd", offsetof(CC, m2_fdd), descOf<decltype(CC::m2_fdd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_eeb", offsetof(CC, m3_eeb), descOf<decltype(CC::m3_eeb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_fdf", offsetof(CC, m4_fdf), descOf<decltype(CC::m4_fdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_dfd", offsetof(CC, m5_dfd), descOf<decltype(CC::m5_dfd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m6_dfa", offsetof(CC, m6_dfa), descOf<decltype(CC::m6_dfa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m7_dff", offsetof(CC, m7_dff), descOf<decltype(CC::m7_dff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m8_ddf", offsetof(CC, m8_ddf), descOf<decltype(CC::m8_ddf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_dee", offsetof(CC, m9_dee), descOf<decltype(CC::m9_dee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m10_eea", offsetof(CC, m10_eea), descOf<decltype(CC::m10_eea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m11_dab", offsetof(CC, m11_dab), descOf<decltype(CC::m11_dab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m12_afb", offsetof(CC, m12_afb), descOf<decltype(CC::m12_afb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m13_bce", offsetof(CC, m13_bce), descOf<decltype(CC::m13_bce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m14_ada", offsetof(CC, m14_ada), descOf<decltype(CC::m14_ada)>(), nullptr, nullptr, nullptr},
    MemberModel{"m15_fcd", offsetof(CC, m15_fcd), descOf<decltype(CC::m15_fcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m16_cdc", offsetof(CC, m16_cdc), descOf<decltype(CC::m16_cdc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m17_fff", offsetof(CC, m17_fff), descOf<decltype(CC::m17_fff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m18_ccd", offsetof(CC, m18_ccd), descOf<decltype(CC::m18_ccd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m19_cfb", offsetof(CC, m19_cfb), descOf<decltype(CC::m19_cfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m20_bbb", offsetof(CC, m20_bbb), descOf<decltype(CC::m20_bbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m21_bdb", offsetof(CC, m21_bdb), descOf<decltype(CC::m21_bdb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m22_abe", offsetof(CC, m22_abe), descOf<decltype(CC::m22_abe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m23_eda", offsetof(CC, m23_eda), descOf<decltype(CC::m23_eda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m24_aec", offsetof(CC, m24_aec), descOf<decltype(CC::m24_aec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m25_ace", offsetof(CC, m25_ace), descOf<decltype(CC::m25_ace)>(), nullptr, nullptr, nullptr},
    MemberModel{"m26_ccb", offsetof(CC, m26_ccb), descOf<decltype(CC::m26_ccb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m27_ddb", offsetof(CC, m27_ddb), descOf<decltype(CC::m27_ddb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m28_eec", offsetof(CC, m28_eec), descOf<decltype(CC::m28_eec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m29_aac", offsetof(CC, m29_aac), descOf<decltype(CC::m29_aac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m30_fad", offsetof(CC, m30_fad), descOf<decltype(CC::m30_fad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m31_dac", offsetof(CC, m31_dac), descOf<decltype(CC::m31_dac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m32_cfe", offsetof(CC, m32_cfe), descOf<decltype(CC::m32_cfe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m33_fea", offsetof(CC, m33_fea), descOf<decltype(CC::m33_fea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m34_bac", offsetof(CC, m34_bac), descOf<decltype(CC::m34_bac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m35_ffc", offsetof(CC, m35_ffc), descOf<decltype(CC::m35_ffc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m36_dee", offsetof(CC, m36_dee), descOf<decltype(CC::m36_dee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m37_adb", offsetof(CC, m37_adb), descOf<decltype(CC::m37_adb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m38_beb", offsetof(CC, m38_beb), descOf<decltype(CC::m38_beb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m39_aae", offsetof(CC, m39_aae), descOf<decltype(CC::m39_aae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m40_ecf", offsetof(CC, m40_ecf), descOf<decltype(CC::m40_ecf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m41_beb", offsetof(CC, m41_beb), descOf<decltype(CC::m41_beb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m42_ece", offsetof(CC, m42_ece), descOf<decltype(CC::m42_ece)>(), nullptr, nullptr, nullptr},
    MemberModel{"m43_ccd", offsetof(CC, m43_ccd), descOf<decltype(CC::m43_ccd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m44_fcd", offsetof(CC, m44_fcd), descOf<decltype(CC::m44_fcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m45_ebd", offsetof(CC, m45_ebd), descOf<decltype(CC::m45_ebd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m46_cbb", offsetof(CC, m46_cbb), descOf<decltype(CC::m46_cbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m47_bff", offsetof(CC, m47_bff), descOf<decltype(CC::m47_bff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m48_bae", offsetof(CC, m48_bae), descOf<decltype(CC::m48_bae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m49_acd", offsetof(CC, m49_acd), descOf<decltype(CC::m49_acd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m50_eaa", offsetof(CC, m50_eaa), descOf<decltype(CC::m50_eaa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m51_aaa", offsetof(CC, m51_aaa), descOf<decltype(CC::m51_aaa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m52_bfb", offsetof(CC, m52_bfb), descOf<decltype(CC::m52_bfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m53_aeb", offsetof(CC, m53_aeb), descOf<decltype(CC::m53_aeb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m54_afc", offsetof(CC, m54_afc), descOf<decltype(CC::m54_afc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m55_dfd", offsetof(CC, m55_dfd), descOf<decltype(CC::m55_dfd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m56_cad", offsetof(CC, m56_cad), descOf<decltype(CC::m56_cad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m57_ffd", offsetof(CC, m57_ffd), descOf<decltype(CC::m57_ffd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m58_abc", offsetof(CC, m58_abc), descOf<decltype(CC::m58_abc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m59_fca", offsetof(CC, m59_fca), descOf<decltype(CC::m59_fca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m60_cec", offsetof(CC, m60_cec), descOf<decltype(CC::m60_cec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m61_fdf", offsetof(CC, m61_fdf), descOf<decltype(CC::m61_fdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m62_cea", offsetof(CC, m62_cea), descOf<decltype(CC::m62_cea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m63_dff", offsetof(CC, m63_dff), descOf<decltype(CC::m63_dff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m64_cdf", offsetof(CC, m64_cdf), descOf<decltype(CC::m64_cdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m65_bde", offsetof(CC, m65_bde), descOf<decltype(CC::m65_bde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m66_dcd", offsetof(CC, m66_dcd), descOf<decltype(CC::m66_dcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m67_aee", offsetof(CC, m67_aee), descOf<decltype(CC::m67_aee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m68_adc", offsetof(CC, m68_adc), descOf<decltype(CC::m68_adc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m69_ffd", offsetof(CC, m69_ffd), descOf<decltype(CC::m69_ffd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m70_ced", offsetof(CC, m70_ced), descOf<decltype(CC::m70_ced)>(), nullptr, nullptr, nullptr},
    MemberModel{"m71_dde", offsetof(CC, m71_dde), descOf<decltype(CC::m71_dde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m72_abf", offsetof(CC, m72_abf), descOf<decltype(CC::m72_abf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m73_ecf", offsetof(CC, m73_ecf), descOf<decltype(CC::m73_ecf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m74_eea", offsetof(CC, m74_eea), descOf<decltype(CC::m74_eea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m75_ddc", offsetof(CC, m75_ddc), descOf<decltype(CC::m75_ddc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m76_dec", offsetof(CC, m76_dec), descOf<decltype(CC::m76_dec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m77_eec", offsetof(CC, m77_eec), descOf<decltype(CC::m77_eec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m78_eaa", offsetof(CC, m78_eaa), descOf<decltype(CC::m78_eaa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m79_cda", offsetof(CC, m79_cda), descOf<decltype(CC::m79_cda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m80_aac", offsetof(CC, m80_aac), descOf<decltype(CC::m80_aac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m81_cac", offsetof(CC, m81_cac), descOf<decltype(CC::m81_cac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m82_aac", offsetof(CC, m82_aac), descOf<decltype(CC::m82_aac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m83_abb", offsetof(CC, m83_abb), descOf<decltype(CC::m83_abb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m84_bde", offsetof(CC, m84_bde), descOf<decltype(CC::m84_bde)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen86 {
  UCVector m45_bda;
  int16 m57_aac;
  int32 m81_ceb;
  A<Leaf, 2> m24_ffe;
  A<En16, 4> m11_ddd;
  IVector4 m37_fde;
  int64 m14_cec;
  bool m55_cfb;
  double m80_eac;
  A<Leaf, 2> m12_ecb;
  A<uint64, 300> m77_cde;
  uint16 m33_aac;
  uint64 m26_ccc;
  es::Flags<Fl8, uint8> m52_cdf;
  A<En16, 4> m70_cdf;
  Vector2 m10_eca;
  uint32 m30_cef;
  IVector4 m29_cad;
  float m63_efa;
  A<bool, 9> m65_abf;
  int8 m68_cbc;
  A<int16, 3> m38_ceb;
  A<Bf8, 5> m74_eec;
  A<uint64, 300> m62_abf;
  Vector4A16 m20_ccb;
  Vector m18_feb;
  Vector4A16 m41_afa;
  int64 m43_cab;
  Vector m59_eff;
  float m9_cbd;
  A<uint64, 300> m82_fae;
  Vector4A16 m27_bbd;
  A<En16, 4> m28_dad;
  A<Vector2, 2> m50_aee;
  A<bool, 9> m54_bbf;
  int8 m46_cff;
  Vector m64_fda;
  A<Bf8, 5> m2_eeb;
  A<Leaf, 2> m13_efa;
  Bw64 hidden0;
  std::string m78_afa;
  Vector m69_bca;
  Vector2 m21_bfa;
  int8 m31_efe;
  double m76_aaa;
  uint8 m60_abe;
  UCVector m16_aaf;
  es::Flags<Fl64> m79_fce;
  En8 m85_fdb;
  double m0_dae;
  int32 m22_dbf;
  A<std::string, 2> m51_fae;
  std::string m23_ffa;
  En64 m39_cbb;
  Vector4A16 hidden1;
  int64 m32_fee;
  bool m75_eaf;
  A<bool, 9> m72_caa;
  A<uint64, 300> m40_cdf;
  En64 m3_cfc;
  A<Bf8, 5> m84_daa;
  uint8 m6_cef;
  Bf16 m5_dfe;
  uint8 m19_ecf;
  int8 m44_abe;
  int64 m66_ece;
  A<Bf8, 5> m53_dde;
  Bw64 m67_eef;
  En64 m83_eba;
  Vector m4_bcd;
  Vector m49_afb;
  Vector4A16 m17_bed;
  float m71_ece;
  A<Vector2, 2> m36_bbe;
  A<bool, 9> m42_fbd;
  int8 m58_ebc;
  int8 m34_cfb;
  int64 m35_dfb;
  A<Leaf, 2> m61_ddb;
  A<bool, 9> m15_cba;
  En8 m73_dcb;
  std::array<uint8, 5> m1_ebf;
  int32 m47_aba;
  int8 m25_acb;
  int8 m8_edb;
  En64 m48_dac;
  Vector2 m7_ecc;
  int8 m56_deb;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen86, 1, VARNAMES, m0_dae, m1_ebf, m2_eeb, m3_cfc, m4_bcd, m5_dfe, m6_cef, m7_ecc, m8_edb, m9_cbd, m10_eca, m11_ddd, m12_ecb, m13_efa, m14_cec, m15_cba, m16_aaf, m17_bed, m18_feb, m19_ecf, m20_ccb, m21_bfa, m22_dbf, m23_ffa, m24_ffe, m25_acb, m26_ccc, m27_bbd, m28_dad, m29_cad, m30_cef, m31_efe, m32_fee, m33_aac, m34_cfb, m35_dfb, m36_bbe, m37_fde, m38_ceb, m39_cbb, m40_cdf, m41_afa, m42_fbd, m43_cab, m44_abe, m45_bda, m46_cff, m47_aba, m48_dac, m49_afb, m50_aee, m51_fae, m52_cdf, m53_dde, m54_bbf, m55_cfb, m56_deb, m57_aac, m58_ebc, m59_eff, m60_abe, m61_ddb, m62_abf, m63_efa, m64_fda, m65_abf, m66_ece, m67_eef, m68_cbc, m69_bca, m70_cdf, m71_ece, m72_caa, m73_dcb, m74_eec, m75_eaf, m76_aaa, m77_cde, m78_afa, m79_fce, m80_eac, m81_ceb, m82_fae, m83_eba, m84_daa, m85_fdb)
template <> inline const ClassModel &classModel<Gen86>() { using CC = Gen86; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen86", {
    MemberModel{"m0_dae", offsetof(CC, m0_dae), descOf<decltype(CC::m0_dae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_ebf", offsetof(CC, m1_ebf), descOf<decltype(CC::m1_ebf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m2_eeb", offsetof(CC, m2_eeb), descOf<decltype(CC::m2_eeb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_cfc", offsetof(CC, m3_cfc), descOf<decltype(CC::m3_cfc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_bcd", offsetof(CC, m4_bcd), descOf<decltype(CC::m4_bcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_dfe", offsetof(CC, m5_dfe), descOf<decltype(CC::m5_dfe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m6_cef", offsetof(CC, m6_cef), descOf<decltype(CC::m6_cef)>(), nullptr, nullptr, nullptr},
    MemberModel{"m7_ecc", offsetof(CC, m7_ecc), descOf<decltype(CC::m7_ecc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m8_edb", offsetof(CC, m8_edb), descOf<decltype(CC::m8_edb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_cbd", offsetof(CC, m9_cbd), descOf<decltype(CC::m9_cbd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m10_eca", offsetof(CC, m10_eca), descOf<decltype(CC::m10_eca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m11_ddd", offsetof(CC, m11_ddd), descOf<decltype(CC::m11_ddd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m12_ecb", offsetof(CC, m12_ecb), descOf<decltype(CC::m12_ecb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m13_efa", offsetof(CC, m13_efa), descOf<decltype(CC::m13_efa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m14_cec", offsetof(CC, m14_cec), descOf<decltype(CC::m14_cec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m15_cba", offsetof(CC, m15_cba), descOf<decltype(CC::m15_cba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m16_aaf", offsetof(CC, m16_aaf), descOf<decltype(CC::m16_aaf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m17_bed", offsetof(CC, m17_bed), descOf<decltype(CC::m17_bed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m18_feb", offsetof(CC, m18_feb), descOf<decltype(CC::m18_feb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m19_ecf", offsetof(CC, m19_ecf), descOf<decltype(CC::m19_ecf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m20_ccb", offsetof(CC, m20_ccb), descOf<decltype(CC::m20_ccb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m21_bfa", offsetof(CC, m21_bfa), descOf<decltype(CC::m21_bfa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m22_dbf", offsetof(CC, m22_dbf), descOf<decltype(CC::m22_dbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m23_ffa", offsetof(CC, m23_ffa), descOf<decltype(CC::m23_ffa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m24_ffe", offsetof(CC, m24_ffe), descOf<decltype(CC::m24_ffe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m25_acb", offsetof(CC, m25_acb), descOf<decltype(CC::m25_acb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m26_ccc", offsetof(CC, m26_ccc), descOf<decltype(CC::m26_ccc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m27_bbd", offsetof(CC, m27_bbd), descOf<decltype(CC::m27_bbd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m28_dad", offsetof(CC, m28_dad), descOf<decltype(CC::m28_dad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m29_cad", offsetof(CC, m29_cad), descOf<decltype(CC::m29_cad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m30_cef", offsetof(CC, m30_cef), descOf<decltype(CC::m30_cef)>(), nullptr, nullptr, nullptr},
    MemberModel{"m31_efe", offsetof(CC, m31_efe), descOf<decltype(CC::m31_efe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m32_fee", offsetof(CC, m32_fee), descOf<decltype(CC::m32_fee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m33_aac", offsetof(CC, m33_aac), descOf<decltype(CC::m33_aac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m34_cfb", offsetof(CC, m34_cfb), descOf<decltype(CC::m34_cfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m35_dfb", offsetof(CC, m35_dfb), descOf<decltype(CC::m35_dfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m36_bbe", offsetof(CC, m36_bbe), descOf<decltype(CC::m36_bbe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m37_fde", offsetof(CC, m37_fde), descOf<decltype(CC::m37_fde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m38_ceb", offsetof(CC, m38_ceb), descOf<decltype(CC::m38_ceb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m39_cbb", offsetof(CC, m39_cbb), descOf<decltype(CC::m39_cbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m40_cdf", offsetof(CC, m40_cdf), descOf<decltype(CC::m40_cdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m41_afa", offsetof(CC, m41_afa), descOf<decltype(CC::m41_afa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m42_fbd", offsetof(CC, m42_fbd), descOf<decltype(CC::m42_fbd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m43_cab", offsetof(CC, m43_cab), descOf<decltype(CC::m43_cab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m44_abe", offsetof(CC, m44_abe), descOf<decltype(CC::m44_abe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m45_bda", offsetof(CC, m45_bda), descOf<decltype(CC::m45_bda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m46_cff", offsetof(CC, m46_cff), descOf<decltype(CC::m46_cff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m47_aba", offsetof(CC, m47_aba), descOf<decltype(CC::m47_aba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m48_dac", offsetof(CC, m48_dac), descOf<decltype(CC::m48_dac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m49_afb", offsetof(CC, m49_afb), descOf<decltype(CC::m49_afb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m50_aee", offsetof(CC, m50_aee), descOf<decltype(CC::m50_aee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m51_fae", offsetof(CC, m51_fae), descOf<decltype(CC::m51_fae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m52_cdf", offsetof(CC, m52_cdf), descOf<decltype(CC::m52_cdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m53_dde", offsetof(CC, m53_dde), descOf<decltype(CC::m53_dde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m54_bbf", offsetof(CC, m54_bbf), descOf<decltype(CC::m54_bbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m55_cfb", offsetof(CC, m55_cfb), descOf<decltype(CC::m55_cfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m56_deb", offsetof(CC, m56_deb), descOf<decltype(CC::m56_deb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m57_aac", offsetof(CC, m57_aac), descOf<decltype(CC::m57_aac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m58_ebc", offsetof(CC, m58_ebc), descOf<decltype(CC::m58_ebc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m59_eff", offsetof(CC, m59_eff), descOf<decltype(CC::m59_eff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m60_abe", offsetof(CC, m60_abe), descOf<decltype(CC::m60_abe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m61_ddb", offsetof(CC, m61_ddb), descOf<decltype(CC::m61_ddb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m62_abf", offsetof(CC, m62_abf), descOf<decltype(CC::m62_abf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m63_efa", offsetof(CC, m63_efa), descOf<decltype(CC::m63_efa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m64_fda", offsetof(CC, m64_fda), descOf<decltype(CC::m64_fda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m65_abf", offsetof(CC, m65_abf), descOf<decltype(CC::m65_abf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m66_ece", offsetof(CC, m66_ece), descOf<decltype(CC::m66_ece)>(), nullptr, nullptr, nullptr},
    MemberModel{"m67_eef", offsetof(CC, m67_eef), descOf<decltype(CC::m67_eef)>(), nullptr, nullptr, nullptr},
    MemberModel{"m68_cbc", offsetof(CC, m68_cbc), descOf<decltype(CC::m68_cbc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m69_bca", offsetof(CC, m69_bca), descOf<decltype(CC::m69_bca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m70_cdf", offsetof(CC, m70_cdf), descOf<decltype(CC::m70_cdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m71_ece", offsetof(CC, m71_ece), descOf<decltype(CC::m71_ece)>(), nullptr, nullptr, nullptr},
    MemberModel{"m72_caa", offsetof(CC, m72_caa), descOf<decltype(CC::m72_caa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m73_dcb", offsetof(CC, m73_dcb), descOf<decltype(CC::m73_dcb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m74_eec", offsetof(CC, m74_eec), descOf<decltype(CC::m74_eec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m75_eaf", offsetof(CC, m75_eaf), descOf<decltype(CC::m75_eaf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m76_aaa", offsetof(CC, m76_aaa), descOf<decltype(CC::m76_aaa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m77_cde", offsetof(CC, m77_cde), descOf<decltype(CC::m77_cde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m78_afa", offsetof(CC, m78_afa), descOf<decltype(CC::m78_afa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m79_fce", offsetof(CC, m79_fce), descOf<decltype(CC::m79_fce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m80_eac", offsetof(CC, m80_eac), descOf<decltype(CC::m80_eac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m81_ceb", offsetof(CC, m81_ceb), descOf<decltype(CC::m81_ceb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m82_fae", offsetof(CC, m82_fae), descOf<decltype(CC::m82_fae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m83_eba", offsetof(CC, m83_eba), descOf<decltype(CC::m83_eba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m84_daa", offsetof(CC, m84_daa), descOf<decltype(CC::m84_daa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m85_fdb", offsetof(CC, m85_fdb), descOf<decltype(CC::m85_fdb)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen87 {
  std::array<uint8, 5> m80_bac;
  Bf16 m29_cfa;
  uint16 m37_cae;
  int16 m72_fbc;
  es::Flags<Fl64> m55_eab;
  es::Flags<Fl8, uint8> m77_fdc;
  Vector m71_dde;
  float m2_dbb;
  Vector2 m36_fff;
  A<uint64, 300> m13_ead;
  int16 m0_ebc;
  Leaf m42_ecb;
  A<En16, 4> m14_faf;
  float m59_bfb;
  Bw64 m21_cea;
  int32 m52_def;
  Leaf m48_fee;
  A<Vector2, 2> m18_bce;
  IVector4 m85_bdb;
  Vector m61_ecd;
  std::array<uint8, 5> m10_afb;
  A<bool, 9> m53_dee;
  Bf16 m6_adc;
  uint16 m41_fec;
  int16 m20_cda;
  es::Flags<Fl64> m33_dbe;
  A<uint64, 300> m78_ccc;
  A<int16, 3> m35_eda;
  uint16 m54_aee;
  std::array<uint8, 5> m79_ace;
  A<En16, 4> m83_eea;
  UCVector m62_ebc;
  float m46_fbc;
  es::Flags<Fl8, uint8> m3_aea;
  int64 m32_aba;
  int32 m63_ccc;
  int32 m65_bed;
  int64 m17_cec;
  uint32 m15_bce;
  UCVector m47_cdf;
  A<std::string, 2> m28_fda;
  Bw64 m50_abb;
  A<Leaf, 2> m9_fbb;
  A<Leaf, 2> m86_fea;
  double m58_cfa;
  En64 m22_ede;
  double m75_cae;
  Vector4A16 m60_bed;
  uint16 m69_cbc;
  int8 m67_ecd;
  Vector2 m64_cef;
  int32 m1_ead;
  Leaf m7_cca;
  uint64 m34_ece;
  int8 m23_fdb;
  int64 m16_adf;
  std::string m74_ece;
  A<En16, 4> m73_bcd;
  A<std::string, 2> m40_cac;
  std::array<uint8, 5> m70_eaf;
  A<Bf8, 5> m68_bbe;
  int16 m4_fbe;
  Bf16 m25_fac;
  Bf16 m43_ebc;
  A<std::string, 2> m84_abe;
  Vector2 m39_afa;
  uint16 m82_cdf;
  uint32 m45_fca;
  UCVector m57_ede;
  IVector4 m19_ebe;
  es::Flags<Fl8, uint8> m49_ebd;
  A<Bf8, 5> m44_ecd;
  UCVector m38_fba;
  double hidden0;
  A<En16, 4> m30_cff;
  A<Leaf, 2> m27_dfb;
  A<std::string, 2> m31_faa;
  int64 m26_aae;
  uint8 m24_eab;
  A<Vector2, 2> m12_acd;
  Vector4A16 m76_fef;
  A<std::string, 2> m66_afc;
  Leaf m11_ffd;
  uint16 m56_adf;
  Vector m5_ffd;
  En8 m81_fde;
  bool m8_eeb;
  A<std::string, 2> m51_feb;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen87, 1, VARNAMES, m0_ebc, m1_ead, m2_dbb, m3_aea, m4_fbe, m5_ffd, m6_adc, m7_cca, m8_eeb, m9_fbb, m10_afb, m11_ffd, m12_acd, m13_ead, m14_faf, m15_bce, m16_adf, m17_cec, m18_bce, m19_ebe, m20_cda, m21_cea, m22_ede, m23_fdb, m24_eab, m25_fac, m26_aae, m27_dfb, m28_fda, m29_cfa, m30_cff, m31_faa, m32_aba, m33_dbe, m34_ece, m35_eda, m36_fff, m37_cae, m38_fba, m39_afa, m40_cac, m41_fec, m42_ecb, m43_ebc, m44_ecd, m45_fca, m46_fbc, m47_cdf, m48_fee, m49_ebd, m50_abb, m51_feb, m52_def, m53_dee, m54_aee, m55_eab, m56_adf, m57_ede, m58_cfa, m59_bfb, m60_bed, m61_ecd, m62_ebc, m63_ccc, m64_cef, m65_bed, m66_afc, m67_ecd, m68_bbe, m69_cbc, m70_eaf, m71_dde, m72_fbc, m73_bcd, m74_ece, m75_cae, m76_fef, m77_fdc, m78_ccc, m79_ace, m80_bac, m81_fde, m82_cdf, m83_eea, m84_abe, m85_bdb, m86_fea)
template <> inline const ClassModel &classModel<Gen87>() { using CC = Gen87; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen87", {
    MemberModel{"m0_ebc", offsetof(CC, m0_ebc), descOf<decltype(CC::m0_ebc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_ead", offsetof(CC, m1_ead), descOf<decltype(CC::m1_ead)>(), nullptr, nullptr, nullptr},
    MemberModel{"m2_dbb", offsetof(CC, m2_dbb), descOf<decltype(CC::m2_dbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_aea", offsetof(CC, m3_aea), descOf<decltype(CC::m3_aea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_fbe", offsetof(CC, m4_fbe), descOf<decltype(CC::m4_fbe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_ffd", offsetof(CC, m5_ffd), descOf<decltype(CC::m5_ffd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m6_adc", offsetof(CC, m6_adc), descOf<decltype(CC::m6_adc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m7_cca", offsetof(CC, m7_cca), descOf<decltype(CC::m7_cca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m8_eeb", offsetof(CC, m8_eeb), descOf<decltype(CC::m8_eeb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_fbb", offsetof(CC, m9_fbb), descOf<decltype(CC::m9_fbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m10_afb", offsetof(CC, m10_afb), descOf<decltype(CC::m10_afb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m11_ffd", offsetof(CC, m11_ffd), descOf<decltype(CC::m11_ffd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m12_acd", offsetof(CC, m12_acd), descOf<decltype(CC::m12_acd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m13_ead", offsetof(CC, m13_ead), descOf<decltype(CC::m13_ead)>(), nullptr, nullptr, nullptr},
    MemberModel{"m14_faf", offsetof(CC, m14_faf), descOf<decltype(CC::m14_faf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m15_bce", offsetof(CC, m15_bce), descOf<decltype(CC::m15_bce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m16_adf", offsetof(CC, m16_adf), descOf<decltype(CC::m16_adf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m17_cec", offsetof(CC, m17_cec), descOf<decltype(CC::m17_cec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m18_bce", offsetof(CC, m18_bce), descOf<decltype(CC::m18_bce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m19_ebe", offsetof(CC, m19_ebe), descOf<decltype(CC::m19_ebe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m20_cda", offsetof(CC, m20_cda), descOf<decltype(CC::m20_cda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m21_cea", offsetof(CC, m21_cea), descOf<decltype(CC::m21_cea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m22_ede", offsetof(CC, m22_ede), descOf<decltype(CC::m22_ede)>(), nullptr, nullptr, nullptr},
    MemberModel{"m23_fdb", offsetof(CC, m23_fdb), descOf<decltype(CC::m23_fdb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m24_eab", offsetof(CC, m24_eab), descOf<decltype(CC::m24_eab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m25_fac", offsetof(CC, m25_fac), descOf<decltype(CC::m25_fac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m26_aae", offsetof(CC, m26_aae), descOf<decltype(CC::m26_aae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m27_dfb", offsetof(CC, m27_dfb), descOf<decltype(CC::m27_dfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m28_fda", offsetof(CC, m28_fda), descOf<decltype(CC::m28_fda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m29_cfa", offsetof(CC, m29_cfa), descOf<decltype(CC::m29_cfa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m30_cff", offsetof(CC, m30_cff), descOf<decltype(CC::m30_cff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m31_faa", offsetof(CC, m31_faa), descOf<decltype(CC::m31_faa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m32_aba", offsetof(CC, m32_aba), descOf<decltype(CC::m32_aba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m33_dbe", offsetof(CC, m33_dbe), descOf<decltype(CC::m33_dbe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m34_ece", offsetof(CC, m34_ece), descOf<decltype(CC::m34_ece)>(), nullptr, nullptr, nullptr},
    MemberModel{"m35_eda", offsetof(CC, m35_eda), descOf<decltype(CC::m35_eda)>(), nullptr, nullptr, nullptr},
    MemberModel{"m36_fff", offsetof(CC, m36_fff), descOf<decltype(CC::m36_fff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m37_cae", offsetof(CC, m37_cae), descOf<decltype(CC::m37_cae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m38_fba", offsetof(CC, m38_fba), descOf<decltype(CC::m38_fba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m39_afa", offsetof(CC, m39_afa), descOf<decltype(CC::m39_afa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m40_cac", offsetof(CC, m40_cac), descOf<decltype(CC::m40_cac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m41_fec", offsetof(CC, m41_fec), descOf<decltype(CC::m41_fec)>(), nullptr, nullptr, nullptr},
    MemberModel{"m42_ecb", offsetof(CC, m42_ecb), descOf<decltype(CC::m42_ecb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m43_ebc", offsetof(CC, m43_ebc), descOf<decltype(CC::m43_ebc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m44_ecd", offsetof(CC, m44_ecd), descOf<decltype(CC::m44_ecd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m45_fca", offsetof(CC, m45_fca), descOf<decltype(CC::m45_fca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m46_fbc", offsetof(CC, m46_fbc), descOf<decltype(CC::m46_fbc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m47_cdf", offsetof(CC, m47_cdf), descOf<decltype(CC::m47_cdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m48_fee", offsetof(CC, m48_fee), descOf<decltype(CC::m48_fee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m49_ebd", offsetof(CC, m49_ebd), descOf<decltype(CC::m49_ebd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m50_abb", offsetof(CC, m50_abb), descOf<decltype(CC::m50_abb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m51_feb", offsetof(CC, m51_feb), descOf<decltype(CC::m51_feb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m52_def", offsetof(CC, m52_def), descOf<decltype(CC::m52_def)>(), nullptr, nullptr, nullptr},
    MemberModel{"m53_dee", offsetof(CC, m53_dee), descOf<decltype(CC::m53_dee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m54_aee", offsetof(CC, m54_aee), descOf<decltype(CC::m54_aee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m55_eab", offsetof(CC, m55_eab), descOf<decltype(CC::m55_eab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m56_adf", offsetof(CC, m56_adf), descOf<decltype(CC::m56_adf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m57_ede", offsetof(CC, m57_ede), descOf<decltype(CC::m57_ede)>(), nullptr, nullptr, nullptr},
    MemberModel{"m58_cfa", offsetof(CC, m58_cfa), descOf<decltype(CC::m58_cfa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m59_bfb", offsetof(CC, m59_bfb), descOf<decltype(CC::m59_bfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m60_bed", offsetof(CC, m60_bed), descOf<decltype(CC::m60_bed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m61_ecd", offsetof(CC, m61_ecd), descOf<decltype(CC::m61_ecd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m62_ebc", offsetof(CC, m62_ebc), descOf<decltype(CC::m62_ebc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m63_ccc", offsetof(CC, m63_ccc), descOf<decltype(CC::m63_ccc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m64_cef", offsetof(CC, m64_cef), descOf<decltype(CC::m64_cef)>(), nullptr, nullptr, nullptr},
    MemberModel{"m65_bed", offsetof(CC, m65_bed), descOf<decltype(CC::m65_bed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m66_afc", offsetof(CC, m66_afc), descOf<decltype(CC::m66_afc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m67_ecd", offsetof(CC, m67_ecd), descOf<decltype(CC::m67_ecd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m68_bbe", offsetof(CC, m68_bbe), descOf<decltype(CC::m68_bbe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m69_cbc", offsetof(CC, m69_cbc), descOf<decltype(CC::m69_cbc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m70_eaf", offsetof(CC, m70_eaf), descOf<decltype(CC::m70_eaf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m71_dde", offsetof(CC, m71_dde), descOf<decltype(CC::m71_dde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m72_fbc", offsetof(CC, m72_fbc), descOf<decltype(CC::m72_fbc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m73_bcd", offsetof(CC, m73_bcd), descOf<decltype(CC::m73_bcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m74_ece", offsetof(CC, m74_ece), descOf<decltype(CC::m74_ece)>(), nullptr, nullptr, nullptr},
    MemberModel{"m75_cae", offsetof(CC, m75_cae), descOf<decltype(CC::m75_cae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m76_fef", offsetof(CC, m76_fef), descOf<decltype(CC::m76_fef)>(), nullptr, nullptr, nullptr},
    MemberModel{"m77_fdc", offsetof(CC, m77_fdc), descOf<decltype(CC::m77_fdc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m78_ccc", offsetof(CC, m78_ccc), descOf<decltype(CC::m78_ccc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m79_ace", offsetof(CC, m79_ace), descOf<decltype(CC::m79_ace)>(), nullptr, nullptr, nullptr},
    MemberModel{"m80_bac", offsetof(CC, m80_bac), descOf<decltype(CC::m80_bac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m81_fde", offsetof(CC, m81_fde), descOf<decltype(CC::m81_fde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m82_cdf", offsetof(CC, m82_cdf), descOf<decltype(CC::m82_cdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m83_eea", offsetof(CC, m83_eea), descOf<decltype(CC::m83_eea)>(), nullptr, nullptr, nullptr},
    MemberModel{"m84_abe", offsetof(CC, m84_abe), descOf<decltype(CC::m84_abe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m85_bdb", offsetof(CC, m85_bdb), descOf<decltype(CC::m85_bdb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m86_fea", offsetof(CC, m86_fea), descOf<decltype(CC::m86_fea)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
struct Gen88 {
  uint64 m74_bdf;
  A<uint64, 300> m10_aef;
  uint16 m75_efe;
  Vector m9_cfa;
  IVector4 m38_fcd;
  IVector4 m83_bbb;
  std::array<uint8, 5> m32_edd;
  double m80_dfb;
  uint32 m19_edb;
  uint32 m81_aac;
  A<uint64, 300> m79_feb;
  int8 m21_efd;
  uint32 m20_eae;
  double m36_cbc;
  A<std::string, 2> m44_cac;
  double m82_dfd;
  A<uint64, 300> m87_cce;
  A<Bf8, 5> m27_dfc;
  int32 m51_ced;
  A<Bf8, 5> m85_edf;
  std::array<uint8, 5> m31_dfd;
  es::Flags<Fl8, uint8> m6_eca;
  es::Flags<Fl8, uint8> m37_cad;
  uint32 m60_bcf;
  Bf16 m34_fde;
  A<Vector2, 2> m5_aaa;
  Leaf m2_aae;
  bool m24_afa;
  A<Vector2, 2> m41_bba;
  uint16 m69_bda;
  float m1_ecd;
  uint32 m16_edf;
  uint64 m78_bcd;
  Leaf m63_ffc;
  Vector2 m3_eeb;
  int8 m61_cbd;
  A<Vector2, 2> m72_dfb;
  IVector4 m28_ecf;
  IVector4 m39_fbd;
  Vector2 m71_bfc;
  int16 m13_bcc;
  A<Vector2, 2> hidden0;
  A<int16, 3> m35_efc;
  A<std::string, 2> m43_ebb;
  UCVector m67_eca;
  A<std::string, 2> m12_bfd;
  En64 m65_eda;
  A<uint64, 300> m57_ead;
  float m46_aca;
  IVector4 m18_dfe;
  IVector4 m66_fcf;
  A<Vector2, 2> m64_bca;
  Leaf m76_faa;
  A<Vector2, 2> m7_bfe;
  uint32 m0_cff;
  Leaf m22_edb;
  int64 m14_eab;
  double m26_cda;
  int32 m54_fdd;
  A<Bf8, 5> m11_afe;
  uint64 m8_fbf;
  Bf16 m45_eff;
  En64 m30_abd;
  A<Leaf, 2> m33_fba;
  A<uint64, 300> m73_ebb;
  uint8 m47_ffc;
  uint8 m49_fca;
  uint16 m48_fbe;
  A<En16, 4> m25_aee;
  En8 m70_dbc;
  Bf16 m56_baf;
  IVector4 m68_efe;
  uint8 m59_fbb;
  A<bool, 9> m40_cdd;
  int8 m42_ebc;
  Vector4A16 m55_dda;
  A<bool, 9> m23_bcb;
  uint64 m86_cef;
  float m52_aaf;
  int64 m4_aef;
  std::array<uint8, 5> m53_cda;
  std::string m58_bde;
  A<En16, 4> m15_ebb;
  Bw64 m29_dba;
  A<int16, 3> m84_fea;
  bool m77_daf;
  int64 m50_caf;
  En8 m62_bea;
  int32 m17_fea;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen88, 1, EXTENDED, (A, m0_cff, "alias of m0_cff"), (D, m1_ecd, "% after"), (A, m2_aae, "alias of m2_aae"), (D, m3_eeb, "i.hi  be.aji .aefaljjba.agba i acdeddgdlab chggclegglkeaib. hkl.digeheililjhbbgcaca.igajhjgcjc .ic d. jbaaacjfc lgkb.fdkaifikkddfgfigcbljhdkel ehlbieahfffdbjcgja.kalijgjbdahafhhk.kkf.flgibkkc alighedkileac.d.dkckhcgi.hlcjdefahaekd ll bcclklfb.ebfleifckcgf%.gdjjil alffkjaljgk.jlelhheakiebkgaeeej.jjkd lhkbbdf.kad.l.c glajiakaaci c.fb j b.j.fdfibjlgggcg.b.i a cjfbcdkgjijilfbfgfeifhbabaladgejhbadbcjaffckgi.flkg ckjfjeebi.gjllf..gahjh. kleijghl.kjggjc.iljcjbcijdedbiba.ia.bbbgejlfcgla  l bdeahf hlflekeliehleed "), (D, m4_aef, "before % after"), (A, m5_aaa, "alias of m5_aaa"), (D, m6_eca, "only"), (D, m7_bfe, "x%y"), (, m8_fbf), (A, m9_cfa, "alias of m9_cfa"), (A, m10_aef, "alias of m10_aef"), (D, m11_afe, "only"), (A, m12_bfd, "alias of m12_bfd"), (AD, m13_bcc, "alias of m13_bcc", "x%y"), (, m14_eab), (, m15_ebb), (AD, m16_edf, "alias of m16_edf", "before % after"), (D, m17_fea, "% after"), (D, m18_dfe, "%j"), (D, m19_edb, "% after"), (D, m20_eae, "before %"), (, m21_efd), (AD, m22_edb, "alias of m22_edb", "only"), (AD, m23_bcb, "alias of m23_bcb", "before %"), (AD, m24_afa, "alias of m24_afa", "only"), (, m25_aee), (AD, m26_cda, "alias of m26_cda", "x%y"), (AD, m27_dfc, "alias of m27_dfc", "ggi h hi cdfdj  likifi dl.g.h.hjj.ei kaegkcl.ijibchhfg.ghkhah.biljijbijke d.jchbcfdggkcbajjeajh deeehchab dikh l bhgbbdbejccfll%fbgjhhkcfbeillcbela.d cekl..i .blh.kiigbkkidab g.flebijdj.h bcjcbaehhai bc.gdlfgekhajghjhldbablbcf.f.ajg.eakibgcijdlgllcfhkbbgecheahlbbl lj hjalbhigjkkkkaidaakalice.ldgfhkbld.icfibc.g gcaf..bf.eljdacb.fafjfaffeh ejec led.kjibcdblihghde dbhgkfh..jhlgcffbdgii"), (A, m28_ecf, "alias of m28_ecf"), (AD, m29_dba, "alias of m29_dba", "before % after"), (, m30_abd), (AD, m31_dfd, "alias of m31_dfd", "only"), (A, m32_edd, "alias of m32_edd"), (A, m33_fba, "alias of m33_fba"), (D, m34_fde, "x%y"), (, m35_efc), (A, m36_cbc, "alias of m36_cbc"), (AD, m37_cad, "alias of m37_cad", "only"), (D, m38_fcd, "% after"), (AD, m39_fbd, "alias of m39_fbd", "% after"), (AD, m40_cdd, "alias of m40_cdd", "gi ifgeaeegih.lifkfhdcaiif.ljclajhadkke  .dih   blchldhaickb.gbgiajhbediajlkecch kfkbicjlfjaaifbkkfklgiljeiegcbdhjlf hhhfca.d%b"), (, m41_bba), (AD, m42_ebc, "alias of m42_ebc", "before %"), (A, m43_ebb, "alias of m43_ebb"), (AD, m44_cac, "alias of m44_cac", "only"), (D, m45_eff, "before % after"), (AD, m46_aca, "alias of m46_aca", "ial..fdf.cd.ekkddace.ika. aj.ia idchk. dde.ldhheeigigkfdcedigekcleikkcgfgebcb.ie e.hbbbil..bdhfejbgij.ade b cbahcabdi.ciclckf%icjk.b jacdgjbe.hccbfclbjed.hfjlfbbbdeihjgjaedkiidc hhg.kb.dk.ghac.kkffeik abjhcbg ihhlelaejdbeeahhjle.fc  cia bcddgked eeidhhaeffacc.h gfh. e. .dgd j jgheckgcdegal jgid .dfdhljjafi.bcliibe fkgfjhc akfcihchlhjhcha.bj kbdc.a gjliif.cagleadl l.dacklcghgiidhk"), (D, m47_ffc, "before % after"), (A, m48_fbe, "alias of m48_fbe"), (A, m49_fca, "alias of m49_fca"), (AD, m50_caf, "alias of m50_caf", "x%y"), (, m51_ced), (A, m52_aaf, "alias of m52_aaf"), (A, m53_cda, "alias of m53_cda"), (, m54_fdd), (A, m55_dda, "alias of m55_dda"), (D, m56_baf, "before %"), (D, m57_ead, "x%y"), (AD, m58_bde, "alias of m58_bde", "before %"), (A, m59_fbb, "alias of m59_fbb"), (D, m60_bcf, "x%y"), (D, m61_cbd, "x%y"), (AD, m62_bea, "alias of m62_bea", "before %"), (D, m63_ffc, "x%y"), (A, m64_bca, "alias of m64_bca"), (A, m65_eda, "alias of m65_eda"), (, m66_fcf), (AD, m67_eca, "alias of m67_eca", "x%y"), (A, m68_efe, "alias of m68_efe"), (AD, m69_bda, "alias of m69_bda", "only"), (AD, m70_dbc, "alias of m70_dbc", "before %"), (AD, m71_bfc, "alias of m71_bfc", "before %"), (D, m72_dfb, "x%y"), (AD, m73_ebb, "alias of m73_ebb", "fedag  e  . dkcidicgefeehaedihjkakcaihblfbeffeklhhjcgfkfkecljcddahgblkliffalji.cjiglfcjdib geflgdg.gkl.adfd.l.acjaeffb h.dife lhb dkilaigb ai.c d ickddjgljie.iiedlabiadhgjcdkajeca  .kc.f.dg. egedlicaggiddgifiiceeeidfebe .k.ghdgcecjfklgeciadgh  hba cfkfeei% llglfkbljbf.g eeagfb dibjhleibj.g.jdhcahaacbkag.c. he.ljebchgiieajgb.dedkcfcdgb lccfjbdfhdfajjfge d.ibgb.a dakci.l cblgklid.bc"), (, m74_bdf), (AD, m75_efe, "alias of m75_efe", "% after"), (, m76_faa), (D, m77_daf, "only"), (A, m78_bcd, "alias of m78_bcd"), (, m79_feb), (, m80_dfb), (A, m81_aac, "alias of m81_aac"), (AD, m82_dfd, "alias of m82_dfd", "fd.blilf kcckcjjllfihelafijkaj bj.jjaecaclgggaedfglbkeekiekjc.jlehecibk fkcldc.dh.jie aa i.lajjhghg ieledhgegkcf ehbkhldddfcacaejfeecfagckb.ebaed.gebdh .fdedjbblg.ga.lld.glehc.fggffbkacefhlf. bagjgghe a icljbceilijk h h.bdcbihc hegjidhljefiiakbjgjikfliadleffldhgleabledifjjhi.keleg.jgjhb lk kf.akha hgg.jlabhilaef d  ce igc..difkjgfaff.fljachchebhkb.flb f kjbkfaadadb hilf cl.d.ighgglbibecbgfifhjlbeagkdfidi.ldeagfkdagfjaikb cdchhg kjj   elbijfiejalcgi.kjcdeegfiegjiflblaibgla.hb  .cdabeb.cdfecjfcflg f. eccd gf.efbihfbi haf.klgllif.fjfib.fiijlkkekalchefekhddjjilkah.gjfeg behchfl.kaicedhecg lgafheklbeefiedjd .cj.ehfb dfbeehgjdhfffhlfbkgekhkijbhhchk  hajja bdbell  jlbcgieaki jjlceff.e.hghkkggbeglgdbh iacld.bjjhiaade.fejjdace.giklcdigc gdcafgjjelid.jiffcfik dicgejkhhddhiceiclhdjhgkbjjbag.icji.adlhhdldiekccela giikfchhjfjhfadg.ihdcdbbhgli kae gkegacii.f. hdjbgkjf.fhfgdkd .g aeja.fbci..iijajgalk..jfglhh hehbibjdbkdigle  i fikkafilbgdclkhejb  j abiihf..aglbfeejkkcl gllhh.lelbgc bgb cjkghhbfjilgek%ijgeljalgkdji jblld ff.c.fffbjebgejdkg fkca.dfekcicbgjfa ge.llgai gllkfda.dlehgdeeaiiclec.gcfgkeehl cll cigeijclfb .d hilacdabj"), (D, m83_bbb, "x%y"), (D, m84_fea, "only"), (AD, m85_edf, "alias of m85_edf", "before % after"), (A, m86_cef, "alias of m86_cef"), (D, m87_cce, "only"))
template <> inline const ClassModel &classModel<Gen88>() { using CC = Gen88; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen88", {
    MemberModel{"m0_cff", offsetof(CC, m0_cff), descOf<decltype(CC::m0_cff)>(), "alias of m0_cff", nullptr, nullptr},
    MemberModel{"m1_ecd", offsetof(CC, m1_ecd), descOf<decltype(CC::m1_ecd)>(), nullptr, "", " after"},
    MemberModel{"m2_aae", offsetof(CC, m2_aae), descOf<decltype(CC::m2_aae)>(), "alias of m2_aae", nullptr, nullptr},
    MemberModel{"m3_eeb", offsetof(CC, m3_eeb), descOf<decltype(CC::m3_eeb)>(), nullptr, "i.hi  be.aji .aefaljjba.agba i acdeddgdlab chggclegglkeaib. hkl.digeheililjhbbgcaca.igajhjgcjc .ic d. jbaaacjfc lgkb.fdkaifikkddfgfigcbljhdkel ehlbieahfffdbjcgja.kalijgjbdahafhhk.kkf.flgibkkc alighedkileac.d.dkckhcgi.hlcjdefahaekd ll bcclklfb.ebfleifckcgf", ".gdjjil alffkjaljgk.jlelhheakiebkgaeeej.jjkd lhkbbdf.kad.l.c glajiakaaci c.fb j b.j.fdfibjlgggcg.b.i a cjfbcdkgjijilfbfgfeifhbabaladgejhbadbcjaffckgi.flkg ckjfjeebi.gjllf..gahjh. kleijghl.kjggjc.iljcjbcijdedbiba.ia.bbbgejlfcgla  l bdeahf hlflekeliehleed "},
    MemberModel{"m4_aef", offsetof(CC, m4_aef), descOf<decltype(CC::m4_aef)>(), nullptr, "before ", " after"},
    MemberModel{"m5_aaa", offsetof(CC, m5_aaa), descOf<decltype(CC::m5_aaa)>(), "alias of m5_aaa", nullptr, nullptr},
    MemberModel{"m6_eca", offsetof(CC, m6_eca), descOf<decltype(CC::m6_eca)>(), nullptr, "only", ""},
    MemberModel{"m7_bfe", offsetof(CC, m7_bfe), descOf<decltype(CC::m7_bfe)>(), nullptr, "x", "y"},
    MemberModel{"m8_fbf", offsetof(CC, m8_fbf), descOf<decltype(CC::m8_fbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_cfa", offsetof(CC, m9_cfa), descOf<decltype(CC::m9_cfa)>(), "alias of m9_cfa", nullptr, nullptr},
    MemberModel{"m10_aef", offsetof(CC, m10_aef), descOf<decltype(CC::m10_aef)>(), "alias of m10_aef", nullptr, nullptr},
    MemberModel{"m11_afe", offsetof(CC, m11_afe), descOf<decltype(CC::m11_afe)>(), nullptr, "only", ""},
    MemberModel{"m12_bfd", offsetof(CC, m12_bfd), descOf<decltype(CC::m12_bfd)>(), "alias of m12_bfd", nullptr, nullptr},
    MemberModel{"m13_bcc", offsetof(CC, m13_bcc), descOf<decltype(CC::m13_bcc)>(), "alias of m13_bcc", "x", "y"},
    MemberModel{"m14_eab", offsetof(CC, m14_eab), descOf<decltype(CC::m14_eab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m15_ebb", offsetof(CC, m15_ebb), descOf<decltype(CC::m15_ebb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m16_edf", offsetof(CC, m16_edf), descOf<decltype(CC::m16_edf)>(), "alias of m16_edf", "before ", " after"},
    MemberModel{"m17_fea", offsetof(CC, m17_fea), descOf<decltype(CC::m17_fea)>(), nullptr, "", " after"},
    MemberModel{"m18_dfe", offsetof(CC, m18_dfe), descOf<decltype(CC::m18_dfe)>(), nullptr, "", "j"},
    MemberModel{"m19_edb", offsetof(CC, m19_edb), descOf<decltype(CC::m19_edb)>(), nullptr, "", " after"},
    MemberModel{"m20_eae", offsetof(CC, m20_eae), descOf<decltype(CC::m20_eae)>(), nullptr, "before ", ""},
    MemberModel{"m21_efd", offsetof(CC, m21_efd), descOf<decltype(CC::m21_efd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m22_edb", offsetof(CC, m22_edb), descOf<decltype(CC::m22_edb)>(), "alias of m22_edb", "only", ""},
    MemberModel{"m23_bcb", offsetof(CC, m23_bcb), descOf<decltype(CC::m23_bcb)>(), "alias of m23_bcb", "before ", ""},
    MemberModel{"m24_afa", offsetof(CC, m24_afa), descOf<decltype(CC::m24_afa)>(), "alias of m24_afa", "only", ""},
    MemberModel{"m25_aee", offsetof(CC, m25_aee), descOf<decltype(CC::m25_aee)>(), nullptr, nullptr, nullptr},
    MemberModel{"m26_cda", offsetof(CC, m26_cda), descOf<decltype(CC::m26_cda)>(), "alias of m26_cda", "x", "y"},
    MemberModel{"m27_dfc", offsetof(CC, m27_dfc), descOf<decltype(CC::m27_dfc)>(), "alias of m27_dfc", "ggi h hi cdfdj  likifi dl.g.h.hjj.ei kaegkcl.ijibchhfg.ghkhah.biljijbijke d.jchbcfdggkcbajjeajh deeehchab dikh l bhgbbdbejccfll", "fbgjhhkcfbeillcbela.d cekl..i .blh.kiigbkkidab g.flebijdj.h bcjcbaehhai bc.gdlfgekhajghjhldbablbcf.f.ajg.eakibgcijdlgllcfhkbbgecheahlbbl lj hjalbhigjkkkkaidaakalice.ldgfhkbld.icfibc.g gcaf..bf.eljdacb.fafjfaffeh ejec led.kjibcdblihghde dbhgkfh..jhlgcffbdgii"},
    MemberModel{"m28_ecf", offsetof(CC, m28_ecf), descOf<decltype(CC::m28_ecf)>(), "alias of m28_ecf", nullptr, nullptr},
    MemberModel{"m29_dba", offsetof(CC, m29_dba), descOf<decltype(CC::m29_dba)>(), "alias of m29_dba", "before ", " after"},
    MemberModel{"m30_abd", offsetof(CC, m30_abd), descOf<decltype(CC::m30_abd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m31_dfd", offsetof(CC, m31_dfd), descOf<decltype(CC::m31_dfd)>(), "alias of m31_dfd", "only", ""},
    MemberModel{"m32_edd", offsetof(CC, m32_edd), descOf<decltype(CC::m32_edd)>(), "alias of m32_edd", nullptr, nullptr},
    MemberModel{"m33_fba", offsetof(CC, m33_fba), descOf<decltype(CC::m33_fba)>(), "alias of m33_fba", nullptr, nullptr},
    MemberModel{"m34_fde", offsetof(CC, m34_fde), descOf<decltype(CC::m34_fde)>(), nullptr, "x", "y"},
    MemberModel{"m35_efc", offsetof(CC, m35_efc), descOf<decltype(CC::m35_efc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m36_cbc", offsetof(CC, m36_cbc), descOf<decltype(CC::m36_cbc)>(), "alias of m36_cbc", nullptr, nullptr},
    MemberModel{"m37_cad", offsetof(CC, m37_cad), descOf<decltype(CC::m37_cad)>(), "alias of m37_cad", "only", ""},
    MemberModel{"m38_fcd", offsetof(CC, m38_fcd), descOf<decltype(CC::m38_fcd)>(), nullptr, "", " after"},
    MemberModel{"m39_fbd", offsetof(CC, m39_fbd), descOf<decltype(CC::m39_fbd)>(), "alias of m39_fbd", "", " after"},
    MemberModel{"m40_cdd", offsetof(CC, m40_cdd), descOf<decltype(CC::m40_cdd)>(), "alias of m40_cdd", "gi ifgeaeegih.lifkfhdcaiif.ljclajhadkke  .dih   blchldhaickb.gbgiajhbediajlkecch kfkbicjlfjaaifbkkfklgiljeiegcbdhjlf hhhfca.d", "b"},
    MemberModel{"m41_bba", offsetof(CC, m41_bba), descOf<decltype(CC::m41_bba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m42_ebc", offsetof(CC, m42_ebc), descOf<decltype(CC::m42_ebc)>(), "alias of m42_ebc", "before ", ""},
    MemberModel{"m43_ebb", offsetof(CC, m43_ebb), descOf<decltype(CC::m43_ebb)>(), "alias of m43_ebb", nullptr, nullptr},
    MemberModel{"m44_cac", offsetof(CC, m44_cac), descOf<decltype(CC::m44_cac)>(), "alias of m44_cac", "only", ""},
    MemberModel{"m45_eff", offsetof(CC, m45_eff), descOf<decltype(CC::m45_eff)>(), nullptr, "before ", " after"},
    MemberModel{"m46_aca", offsetof(CC, m46_aca), descOf<decltype(CC::m46_aca)>(), "alias of m46_aca", "ial..fdf.cd.ekkddace.ika. aj.ia idchk. dde.ldhheeigigkfdcedigekcleikkcgfgebcb.ie e.hbbbil..bdhfejbgij.ade b cbahcabdi.ciclckf", "icjk.b jacdgjbe.hccbfclbjed.hfjlfbbbdeihjgjaedkiidc hhg.kb.dk.ghac.kkffeik abjhcbg ihhlelaejdbeeahhjle.fc  cia bcddgked eeidhhaeffacc.h gfh. e. .dgd j jgheckgcdegal jgid .dfdhljjafi.bcliibe fkgfjhc akfcihchlhjhcha.bj kbdc.a gjliif.cagleadl l.dacklcghgiidhk"},
    MemberModel{"m47_ffc", offsetof(CC, m47_ffc), descOf<decltype(CC::m47_ffc)>(), nullptr, "before ", " after"},
    MemberModel{"m48_fbe", offsetof(CC, m48_fbe), descOf<decltype(CC::m48_fbe)>(), "alias of m48_fbe", nullptr, nullptr},
    MemberModel{"m49_fca", offsetof(CC, m49_fca), descOf<decltype(CC::m49_fca)>(), "alias of m49_fca", nullptr, nullptr},
    MemberModel{"m50_caf", offsetof(CC, m50_caf), descOf<decltype(CC::m50_caf)>(), "alias of m50_caf", "x", "y"},
    MemberModel{"m51_ced", offsetof(CC, m51_ced), descOf<decltype(CC::m51_ced)>(), nullptr, nullptr, nullptr},
    MemberModel{"m52_aaf", offsetof(CC, m52_aaf), descOf<decltype(CC::m52_aaf)>(), "alias of m52_aaf", nullptr, nullptr},
    MemberModel{"m53_cda", offsetof(CC, m53_cda), descOf<decltype(CC::m53_cda)>(), "alias of m53_cda", nullptr, nullptr},
    MemberModel{"m54_fdd", offsetof(CC, m54_fdd), descOf<decltype(CC::m54_fdd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m55_dda", offsetof(CC, m55_dda), descOf<decltype(CC::m55_dda)>(), "alias of m55_dda", nullptr, nullptr},
    MemberModel{"m56_baf", offsetof(CC, m56_baf), descOf<decltype(CC::m56_baf)>(), nullptr, "before ", ""},
    MemberModel{"m57_ead", offsetof(CC, m57_ead), descOf<decltype(CC::m57_ead)>(), nullptr, "x", "y"},
    MemberModel{"m58_bde", offsetof(CC, m58_bde), descOf<decltype(CC::m58_bde)>(), "alias of m58_bde", "before ", ""},
    MemberModel{"m59_fbb", offsetof(CC, m59_fbb), descOf<decltype(CC::m59_fbb)>(), "alias of m59_fbb", nullptr, nullptr},
    MemberModel{"m60_bcf", offsetof(CC, m60_bcf), descOf<decltype(CC::m60_bcf)>(), nullptr, "x", "y"},
    MemberModel{"m61_cbd", offsetof(CC, m61_cbd), descOf<decltype(CC::m61_cbd)>(), nullptr, "x", "y"},
    MemberModel{"m62_bea", offsetof(CC, m62_bea), descOf<decltype(CC::m62_bea)>(), "alias of m62_bea", "before ", ""},
    MemberModel{"m63_ffc", offsetof(CC, m63_ffc), descOf<decltype(CC::m63_ffc)>(), nullptr, "x", "y"},
    MemberModel{"m64_bca", offsetof(CC, m64_bca), descOf<decltype(CC::m64_bca)>(), "alias of m64_bca", nullptr, nullptr},
    MemberModel{"m65_eda", offsetof(CC, m65_eda), descOf<decltype(CC::m65_eda)>(), "alias of m65_eda", nullptr, nullptr},
    MemberModel{"m66_fcf", offsetof(CC, m66_fcf), descOf<decltype(CC::m66_fcf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m67_eca", offsetof(CC, m67_eca), descOf<decltype(CC::m67_eca)>(), "alias of m67_eca", "x", "y"},
    MemberModel{"m68_efe", offsetof(CC, m68_efe), descOf<decltype(CC::m68_efe)>(), "alias of m68_efe", nullptr, nullptr},
    MemberModel{"m69_bda", offsetof(CC, m69_bda), descOf<decltype(CC::m69_bda)>(), "alias of m69_bda", "only", ""},
    MemberModel{"m70_dbc", offsetof(CC, m70_dbc), descOf<decltype(CC::m70_dbc)>(), "alias of m70_dbc", "before ", ""},
    MemberModel{"m71_bfc", offsetof(CC, m71_bfc), descOf<decltype(CC::m71_bfc)>(), "alias of m71_bfc", "before ", ""},
    MemberModel{"m72_dfb", offsetof(CC, m72_dfb), descOf<decltype(CC::m72_dfb)>(), nullptr, "x", "y"},
    MemberModel{"m73_ebb", offsetof(CC, m73_ebb), descOf<decltype(CC::m73_ebb)>(), "alias of m73_ebb", "fedag  e  . dkcidicgefeehaedihjkakcaihblfbeffeklhhjcgfkfkecljcddahgblkliffalji.cjiglfcjdib geflgdg.gkl.adfd.l.acjaeffb h.dife lhb dkilaigb ai.c d ickddjgljie.iiedlabiadhgjcdkajeca  .kc.f.dg. egedlicaggiddgifiiceeeidfebe .k.ghdgcecjfklgeciadgh  hba cfkfeei", " llglfkbljbf.g eeagfb dibjhleibj.g.jdhcahaacbkag.c. he.ljebchgiieajgb.dedkcfcdgb lccfjbdfhdfajjfge d.ibgb.a dakci.l cblgklid.bc"},
    MemberModel{"m74_bdf", offsetof(CC, m74_bdf), descOf<decltype(CC::m74_bdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m75_efe", offsetof(CC, m75_efe), descOf<decltype(CC::m75_efe)>(), "alias of m75_efe", "", " after"},
    MemberModel{"m76_faa", offsetof(CC, m76_faa), descOf<decltype(CC::m76_faa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m77_daf", offsetof(CC, m77_daf), descOf<decltype(CC::m77_daf)>(), nullptr, "only", ""},
    MemberModel{"m78_bcd", offsetof(CC, m78_bcd), descOf<decltype(CC::m78_bcd)>(), "alias of m78_bcd", nullptr, nullptr},
    MemberModel{"m79_feb", offsetof(CC, m79_feb), descOf<decltype(CC::m79_feb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m80_dfb", offsetof(CC, m80_dfb), descOf<decltype(CC::m80_dfb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m81_aac", offsetof(CC, m81_aac), descOf<decltype(CC::m81_aac)>(), "alias of m81_aac", nullptr, nullptr},
    MemberModel{"m82_dfd", offsetof(CC, m82_dfd), descOf<decltype(CC::m82_dfd)>(), "alias of m82_dfd", "fd.blilf kcckcjjllfihelafijkaj bj.jjaecaclgggaedfglbkeekiekjc.jlehecibk fkcldc.dh.jie aa i.lajjhghg ieledhgegkcf ehbkhldddfcacaejfeecfagckb.ebaed.gebdh .fdedjbblg.ga.lld.glehc.fggffbkacefhlf. bagjgghe a icljbceilijk h h.bdcbihc hegjidhljefiiakbjgjikfliadleffldhgleabledifjjhi.keleg.jgjhb lk kf.akha hgg.jlabhilaef d  ce igc..difkjgfaff.fljachchebhkb.flb f kjbkfaadadb hilf cl.d.ighgglbibecbgfifhjlbeagkdfidi.ldeagfkdagfjaikb cdchhg kjj   elbijfiejalcgi.kjcdeegfiegjiflblaibgla.hb  .cdabeb.cdfecjfcflg f. eccd gf.efbihfbi haf.klgllif.fjfib.fiijlkkekalchefekhddjjilkah.gjfeg behchfl.kaicedhecg lgafheklbeefiedjd .cj.ehfb dfbeehgjdhfffhlfbkgekhkijbhhchk  hajja bdbell  jlbcgieaki jjlceff.e.hghkkggbeglgdbh iacld.bjjhiaade.fejjdace.giklcdigc gdcafgjjelid.jiffcfik dicgejkhhddhiceiclhdjhgkbjjbag.icji.adlhhdldiekccela giikfchhjfjhfadg.ihdcdbbhgli kae gkegacii.f. hdjbgkjf.fhfgdkd .g aeja.fbci..iijajgalk..jfglhh hehbibjdbkdigle  i fikkafilbgdclkhejb  j abiihf..aglbfeejkkcl gllhh.lelbgc bgb cjkghhbfjilgek", "ijgeljalgkdji jblld ff.c.fffbjebgejdkg fkca.dfekcicbgjfa ge.llgai gllkfda.dlehgdeeaiiclec.gcfgkeehl cll cigeijclfb .d hilacdabj"},
    MemberModel{"m83_bbb", offsetof(CC, m83_bbb), descOf<decltype(CC::m83_bbb)>(), nullptr, "x", "y"},
    MemberModel{"m84_fea", offsetof(CC, m84_fea), descOf<decltype(CC::m84_fea)>(), nullptr, "only", ""},
    MemberModel{"m85_edf", offsetof(CC, m85_edf), descOf<decltype(CC::m85_edf)>(), "alias of m85_edf", "before ", " after"},
    MemberModel{"m86_cef", offsetof(CC, m86_cef), descOf<decltype(CC::m86_cef)>(), "alias of m86_cef", nullptr, nullptr},
    MemberModel{"m87_cce", offsetof(CC, m87_cce), descOf<decltype(CC::m87_cce)>(), nullptr, "only", ""},
  }); m.hasExt = true; return m; }(); return m; }
struct Gen89 {
  bool m47_cfe;
  Leaf m49_cde;
  Vector4A16 m7_dbb;
  double m36_dde;
  A<uint64, 300> m15_cdc;
  En64 m20_bed;
  bool m71_bac;
  A<Bf8, 5> m67_ccc;
  A<bool, 9> m26_bed;
  A<bool, 9> m0_fcc;
  int16 m85_eff;
  int16 m38_cde;
  En8 m25_bdd;
  UCVector m73_bdf;
  bool m18_fad;
  En64 m17_deb;
  A<std::string, 2> m43_bce;
  A<En16, 4> m39_afa;
  Bw64 m44_ade;
  uint16 m22_fcd;
  A<Bf8, 5> m35_acc;
  A<uint64, 300> m72_faa;
  UCVector m82_cad;
  A<bool, 9> m45_ede;
  Bf16 m23_dce;
  Vector2 m2_bbb;
  uint64 m50_cce;
  Vector4A16 m61_fcc;
  Bf16 m33_bbc;
  int16 m42_efc;
  Vector2 m51_deb;
  int64 m27_cce;
  A<Vector2, 2> m3_fad;
  Leaf m84_afc;
  A<int16, 3> m58_bfe;
  A<std::string, 2> m69_adf;
  int16 m55_fab;
  UCVector m76_afb;
  A<uint64, 300> m80_dbd;
  A<std::string, 2> m5_ede;
  std::array<uint8, 5> m30_cdf;
  es::Flags<Fl8, uint8> m86_ded;
  A<Vector2, 2> m34_dab;
  bool m79_cca;
  uint32 m40_cad;
  Vector2 m21_ddb;
  uint32 m87_bca;
  A<Vector2, 2> m28_bcf;
  A<Vector2, 2> m24_bde;
  A<Bf8, 5> m11_bbf;
  En64 m29_fdf;
  uint8 m66_ffa;
  Vector4A16 m1_ead;
  es::Flags<Fl64> m59_aad;
  uint32 m32_ebe;
  Leaf m53_abc;
  int64 m75_dbc;
  UCVector m60_acf;
  es::Flags<Fl8, uint8> m54_fde;
  Vector2 m65_cba;
  En64 m63_feb;
  es::Flags<Fl64> m41_cdf;
  uint32 m64_fdd;
  es::Flags<Fl64> m68_ded;
  Bw64 m31_cef;
  A<Vector2, 2> m70_cab;
  Leaf m74_adb;
  float m81_cba;
  uint8 m8_bdf;
  uint8 m10_ddf;
  uint16 m46_bcf;
  int8 m9_eaa;
  Bw64 m52_fff;
  Bf16 m62_acb;
  es::Flags<Fl8, uint8> m78_ece;
  double m12_fed;
  double m14_eba;
  uint8 m13_aca;
  int8 m48_bad;
  Bf16 m88_fec;
  es::Flags<Fl64> m6_aaa;
  std::string m57_ada;
  Leaf hidden0;
  int8 m4_ccf;
  A<uint64, 300> m56_eae;
  int8 m83_bad;
  A<bool, 9> m16_caf;
  En64 m37_bcd;
  UCVector m19_dcb;
  std::string m77_ffa;
  void ReflectorTag();
};
REFLECTOR_CREATE(Gen89, 1, VARNAMES, m0_fcc, m1_ead, m2_bbb, m3_fad, m4_ccf, m5_ede, m6_aaa, m7_dbb, m8_bdf, m9_eaa, m10_ddf, m11_bbf, m12_fed, m13_aca, m14_eba, m15_cdc, m16_caf, m17_deb, m18_fad, m19_dcb, m20_bed, m21_ddb, m22_fcd, m23_dce, m24_bde, m25_bdd, m26_bed, m27_cce, m28_bcf, m29_fdf, m30_cdf, m31_cef, m32_ebe, m33_bbc, m34_dab, m35_acc, m36_dde, m37_bcd, m38_cde, m39_afa, m40_cad, m41_cdf, m42_efc, m43_bce, m44_ade, m45_ede, m46_bcf, m47_cfe, m48_bad, m49_cde, m50_cce, m51_deb, m52_fff, m53_abc, m54_fde, m55_fab, m56_eae, m57_ada, m58_bfe, m59_aad, m60_acf, m61_fcc, m62_acb, m63_feb, m64_fdd, m65_cba, m66_ffa, m67_ccc, m68_ded, m69_adf, m70_cab, m71_bac, m72_faa, m73_bdf, m74_adb, m75_dbc, m76_afb, m77_ffa, m78_ece, m79_cca, m80_dbd, m81_cba, m82_cad, m83_bad, m84_afc, m85_eff, m86_ded, m87_bca, m88_fec)
template <> inline const ClassModel &classModel<Gen89>() { using CC = Gen89; static ClassModel m = [] { ClassModel m = mkClass<CC>("Gen89", {
    MemberModel{"m0_fcc", offsetof(CC, m0_fcc), descOf<decltype(CC::m0_fcc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m1_ead", offsetof(CC, m1_ead), descOf<decltype(CC::m1_ead)>(), nullptr, nullptr, nullptr},
    MemberModel{"m2_bbb", offsetof(CC, m2_bbb), descOf<decltype(CC::m2_bbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m3_fad", offsetof(CC, m3_fad), descOf<decltype(CC::m3_fad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m4_ccf", offsetof(CC, m4_ccf), descOf<decltype(CC::m4_ccf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m5_ede", offsetof(CC, m5_ede), descOf<decltype(CC::m5_ede)>(), nullptr, nullptr, nullptr},
    MemberModel{"m6_aaa", offsetof(CC, m6_aaa), descOf<decltype(CC::m6_aaa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m7_dbb", offsetof(CC, m7_dbb), descOf<decltype(CC::m7_dbb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m8_bdf", offsetof(CC, m8_bdf), descOf<decltype(CC::m8_bdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m9_eaa", offsetof(CC, m9_eaa), descOf<decltype(CC::m9_eaa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m10_ddf", offsetof(CC, m10_ddf), descOf<decltype(CC::m10_ddf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m11_bbf", offsetof(CC, m11_bbf), descOf<decltype(CC::m11_bbf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m12_fed", offsetof(CC, m12_fed), descOf<decltype(CC::m12_fed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m13_aca", offsetof(CC, m13_aca), descOf<decltype(CC::m13_aca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m14_eba", offsetof(CC, m14_eba), descOf<decltype(CC::m14_eba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m15_cdc", offsetof(CC, m15_cdc), descOf<decltype(CC::m15_cdc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m16_caf", offsetof(CC, m16_caf), descOf<decltype(CC::m16_caf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m17_deb", offsetof(CC, m17_deb), descOf<decltype(CC::m17_deb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m18_fad", offsetof(CC, m18_fad), descOf<decltype(CC::m18_fad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m19_dcb", offsetof(CC, m19_dcb), descOf<decltype(CC::m19_dcb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m20_bed", offsetof(CC, m20_bed), descOf<decltype(CC::m20_bed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m21_ddb", offsetof(CC, m21_ddb), descOf<decltype(CC::m21_ddb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m22_fcd", offsetof(CC, m22_fcd), descOf<decltype(CC::m22_fcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m23_dce", offsetof(CC, m23_dce), descOf<decltype(CC::m23_dce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m24_bde", offsetof(CC, m24_bde), descOf<decltype(CC::m24_bde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m25_bdd", offsetof(CC, m25_bdd), descOf<decltype(CC::m25_bdd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m26_bed", offsetof(CC, m26_bed), descOf<decltype(CC::m26_bed)>(), nullptr, nullptr, nullptr},
    MemberModel{"m27_cce", offsetof(CC, m27_cce), descOf<decltype(CC::m27_cce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m28_bcf", offsetof(CC, m28_bcf), descOf<decltype(CC::m28_bcf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m29_fdf", offsetof(CC, m29_fdf), descOf<decltype(CC::m29_fdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m30_cdf", offsetof(CC, m30_cdf), descOf<decltype(CC::m30_cdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m31_cef", offsetof(CC, m31_cef), descOf<decltype(CC::m31_cef)>(), nullptr, nullptr, nullptr},
    MemberModel{"m32_ebe", offsetof(CC, m32_ebe), descOf<decltype(CC::m32_ebe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m33_bbc", offsetof(CC, m33_bbc), descOf<decltype(CC::m33_bbc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m34_dab", offsetof(CC, m34_dab), descOf<decltype(CC::m34_dab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m35_acc", offsetof(CC, m35_acc), descOf<decltype(CC::m35_acc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m36_dde", offsetof(CC, m36_dde), descOf<decltype(CC::m36_dde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m37_bcd", offsetof(CC, m37_bcd), descOf<decltype(CC::m37_bcd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m38_cde", offsetof(CC, m38_cde), descOf<decltype(CC::m38_cde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m39_afa", offsetof(CC, m39_afa), descOf<decltype(CC::m39_afa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m40_cad", offsetof(CC, m40_cad), descOf<decltype(CC::m40_cad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m41_cdf", offsetof(CC, m41_cdf), descOf<decltype(CC::m41_cdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m42_efc", offsetof(CC, m42_efc), descOf<decltype(CC::m42_efc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m43_bce", offsetof(CC, m43_bce), descOf<decltype(CC::m43_bce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m44_ade", offsetof(CC, m44_ade), descOf<decltype(CC::m44_ade)>(), nullptr, nullptr, nullptr},
    MemberModel{"m45_ede", offsetof(CC, m45_ede), descOf<decltype(CC::m45_ede)>(), nullptr, nullptr, nullptr},
    MemberModel{"m46_bcf", offsetof(CC, m46_bcf), descOf<decltype(CC::m46_bcf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m47_cfe", offsetof(CC, m47_cfe), descOf<decltype(CC::m47_cfe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m48_bad", offsetof(CC, m48_bad), descOf<decltype(CC::m48_bad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m49_cde", offsetof(CC, m49_cde), descOf<decltype(CC::m49_cde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m50_cce", offsetof(CC, m50_cce), descOf<decltype(CC::m50_cce)>(), nullptr, nullptr, nullptr},
    MemberModel{"m51_deb", offsetof(CC, m51_deb), descOf<decltype(CC::m51_deb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m52_fff", offsetof(CC, m52_fff), descOf<decltype(CC::m52_fff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m53_abc", offsetof(CC, m53_abc), descOf<decltype(CC::m53_abc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m54_fde", offsetof(CC, m54_fde), descOf<decltype(CC::m54_fde)>(), nullptr, nullptr, nullptr},
    MemberModel{"m55_fab", offsetof(CC, m55_fab), descOf<decltype(CC::m55_fab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m56_eae", offsetof(CC, m56_eae), descOf<decltype(CC::m56_eae)>(), nullptr, nullptr, nullptr},
    MemberModel{"m57_ada", offsetof(CC, m57_ada), descOf<decltype(CC::m57_ada)>(), nullptr, nullptr, nullptr},
    MemberModel{"m58_bfe", offsetof(CC, m58_bfe), descOf<decltype(CC::m58_bfe)>(), nullptr, nullptr, nullptr},
    MemberModel{"m59_aad", offsetof(CC, m59_aad), descOf<decltype(CC::m59_aad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m60_acf", offsetof(CC, m60_acf), descOf<decltype(CC::m60_acf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m61_fcc", offsetof(CC, m61_fcc), descOf<decltype(CC::m61_fcc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m62_acb", offsetof(CC, m62_acb), descOf<decltype(CC::m62_acb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m63_feb", offsetof(CC, m63_feb), descOf<decltype(CC::m63_feb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m64_fdd", offsetof(CC, m64_fdd), descOf<decltype(CC::m64_fdd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m65_cba", offsetof(CC, m65_cba), descOf<decltype(CC::m65_cba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m66_ffa", offsetof(CC, m66_ffa), descOf<decltype(CC::m66_ffa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m67_ccc", offsetof(CC, m67_ccc), descOf<decltype(CC::m67_ccc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m68_ded", offsetof(CC, m68_ded), descOf<decltype(CC::m68_ded)>(), nullptr, nullptr, nullptr},
    MemberModel{"m69_adf", offsetof(CC, m69_adf), descOf<decltype(CC::m69_adf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m70_cab", offsetof(CC, m70_cab), descOf<decltype(CC::m70_cab)>(), nullptr, nullptr, nullptr},
    MemberModel{"m71_bac", offsetof(CC, m71_bac), descOf<decltype(CC::m71_bac)>(), nullptr, nullptr, nullptr},
    MemberModel{"m72_faa", offsetof(CC, m72_faa), descOf<decltype(CC::m72_faa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m73_bdf", offsetof(CC, m73_bdf), descOf<decltype(CC::m73_bdf)>(), nullptr, nullptr, nullptr},
    MemberModel{"m74_adb", offsetof(CC, m74_adb), descOf<decltype(CC::m74_adb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m75_dbc", offsetof(CC, m75_dbc), descOf<decltype(CC::m75_dbc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m76_afb", offsetof(CC, m76_afb), descOf<decltype(CC::m76_afb)>(), nullptr, nullptr, nullptr},
    MemberModel{"m77_ffa", offsetof(CC, m77_ffa), descOf<decltype(CC::m77_ffa)>(), nullptr, nullptr, nullptr},
    MemberModel{"m78_ece", offsetof(CC, m78_ece), descOf<decltype(CC::m78_ece)>(), nullptr, nullptr, nullptr},
    MemberModel{"m79_cca", offsetof(CC, m79_cca), descOf<decltype(CC::m79_cca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m80_dbd", offsetof(CC, m80_dbd), descOf<decltype(CC::m80_dbd)>(), nullptr, nullptr, nullptr},
    MemberModel{"m81_cba", offsetof(CC, m81_cba), descOf<decltype(CC::m81_cba)>(), nullptr, nullptr, nullptr},
    MemberModel{"m82_cad", offsetof(CC, m82_cad), descOf<decltype(CC::m82_cad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m83_bad", offsetof(CC, m83_bad), descOf<decltype(CC::m83_bad)>(), nullptr, nullptr, nullptr},
    MemberModel{"m84_afc", offsetof(CC, m84_afc), descOf<decltype(CC::m84_afc)>(), nullptr, nullptr, nullptr},
    MemberModel{"m85_eff", offsetof(CC, m85_eff), descOf<decltype(CC::m85_eff)>(), nullptr, nullptr, nullptr},
    MemberModel{"m86_ded", offsetof(CC, m86_ded), descOf<decltype(CC::m86_ded)>(), nullptr, nullptr, nullptr},
    MemberModel{"m87_bca", offsetof(CC, m87_bca), descOf<decltype(CC::m87_bca)>(), nullptr, nullptr, nullptr},
    MemberModel{"m88_fec", offsetof(CC, m88_fec), descOf<decltype(CC::m88_fec)>(), nullptr, nullptr, nullptr},
  }); m.hasExt = false; return m; }(); return m; }
inline const std::vector<const ClassModel *> &genClasses() { static std::vector<const ClassModel *> v{&classModel<Gen1>(), &classModel<Gen2>(), &classModel<Gen3>(), &classModel<Gen5>(), &classModel<Gen9>(), &classModel<Gen16>(), &classModel<Gen27>(), &classModel<Gen40>(), &classModel<Gen58>(), &classModel<Gen73>(), &classModel<Gen84>(), &classModel<Gen85>(), &classModel<Gen86>(), &classModel<Gen87>(), &classModel<Gen88>(), &classModel<Gen89>()}; return v; }
REFLECTOR_CREATE(GEnum1, ENUM, 2, CLASS, 8, GEnum1_v0)
template <> inline const EnumModel &enumModel<GEnum1>() { static EnumModel m{"GEnum1", sizeof(GEnum1), {{"GEnum1_v0", (uint64_t)GEnum1::GEnum1_v0}}}; return m; }
REFLECTOR_CREATE(GEnum2, ENUM, 2, CLASS, 16, GEnum2_v0, GEnum2_1 = 0x528A)
template <> inline const EnumModel &enumModel<GEnum2>() { static EnumModel m{"GEnum2", sizeof(GEnum2), {{"GEnum2_v0", (uint64_t)GEnum2::GEnum2_v0}, {"GEnum2_1", (uint64_t)GEnum2::GEnum2_1}}}; return m; }
REFLECTOR_CREATE(GEnum3, ENUM, 2, CLASS, 32, GEnum3_0, GEnum3_1 = 0x49, GEnum3_2)
template <> inline const EnumModel &enumModel<GEnum3>() { static EnumModel m{"GEnum3", sizeof(GEnum3), {{"GEnum3_0", (uint64_t)GEnum3::GEnum3_0}, {"GEnum3_1", (uint64_t)GEnum3::GEnum3_1}, {"GEnum3_2", (uint64_t)GEnum3::GEnum3_2}}}; return m; }
REFLECTOR_CREATE(GEnum5, ENUM, 1, 64, GEnum5_0, GEnum5_v1, GEnum5_v2, GEnum5_v3, GEnum5_v4=12976040140312967160ull)
template <> inline const EnumModel &enumModel<GEnum5>() { static EnumModel m{"GEnum5", sizeof(GEnum5), {{"GEnum5_0", (uint64_t)GEnum5::GEnum5_0}, {"GEnum5_v1", (uint64_t)GEnum5::GEnum5_v1}, {"GEnum5_v2", (uint64_t)GEnum5::GEnum5_v2}, {"GEnum5_v3", (uint64_t)GEnum5::GEnum5_v3}, {"GEnum5_v4", (uint64_t)GEnum5::GEnum5_v4}}}; return m; }
REFLECTOR_CREATE(GEnum9, ENUM, 1, CLASS, GEnum9_v0, GEnum9_1, GEnum9_2, GEnum9_3=-0x354a7bbf, GEnum9_v4, GEnum9_v5 = 0x92, GEnum9_6, GEnum9_7, GEnum9_8 = 1827052013)
template <> inline const EnumModel &enumModel<GEnum9>() { static EnumModel m{"GEnum9", sizeof(GEnum9), {{"GEnum9_v0", (uint64_t)GEnum9::GEnum9_v0}, {"GEnum9_1", (uint64_t)GEnum9::GEnum9_1}, {"GEnum9_2", (uint64_t)GEnum9::GEnum9_2}, {"GEnum9_3", (uint64_t)GEnum9::GEnum9_3}, {"GEnum9_v4", (uint64_t)GEnum9::GEnum9_v4}, {"GEnum9_v5", (uint64_t)GEnum9::GEnum9_v5}, {"GEnum9_6", (uint64_t)GEnum9::GEnum9_6}, {"GEnum9_7", (uint64_t)GEnum9::GEnum9_7}, {"GEnum9_8", (uint64_t)GEnum9::GEnum9_8}}}; return m; }
REFLECTOR_CREATE(GEnum16, ENUM, 2, CLASS, 8, GEnum16_0 = 38, GEnum16_v1, GEnum16_v2 = 0x4A, GEnum16_v3, GEnum16_4, GEnum16_5 = 0x8f, GEnum16_6 = 0x38, GEnum16_v7 = 0X65, GEnum16_8, GEnum16_9, GEnum16_v10, GEnum16_v11 = 0x5D, GEnum16_v12, GEnum16_v13, GEnum16_v14 = 0xB5, GEnum16_v15)
template <> inline const EnumModel &enumModel<GEnum16>() { static EnumModel m{"GEnum16", sizeof(GEnum16), {{"GEnum16_0", (uint64_t)GEnum16::GEnum16_0}, {"GEnum16_v1", (uint64_t)GEnum16::GEnum16_v1}, {"GEnum16_v2", (uint64_t)GEnum16::GEnum16_v2}, {"GEnum16_v3", (uint64_t)GEnum16::GEnum16_v3}, {"GEnum16_4", (uint64_t)GEnum16::GEnum16_4}, {"GEnum16_5", (uint64_t)GEnum16::GEnum16_5}, {"GEnum16_6", (uint64_t)GEnum16::GEnum16_6}, {"GEnum16_v7", (uint64_t)GEnum16::GEnum16_v7}, {"GEnum16_8", (uint64_t)GEnum16::GEnum16_8}, {"GEnum16_9", (uint64_t)GEnum16::GEnum16_9}, {"GEnum16_v10", (uint64_t)GEnum16::GEnum16_v10}, {"GEnum16_v11", (uint64_t)GEnum16::GEnum16_v11}, {"GEnum16_v12", (uint64_t)GEnum16::GEnum16_v12}, {"GEnum16_v13", (uint64_t)GEnum16::GEnum16_v13}, {"GEnum16_v14", (uint64_t)GEnum16::GEnum16_v14}, {"GEnum16_v15", (uint64_t)GEnum16::GEnum16_v15}}}; return m; }
REFLECTOR_CREATE(GEnum27, ENUM, 2, CLASS, 16, GEnum27_0, GEnum27_v1, GEnum27_2, GEnum27_v3, GEnum27_v4, GEnum27_5 = 0X9559, GEnum27_v6, GEnum27_v7 = 0x51, GEnum27_8, GEnum27_v9 = 40094, GEnum27_v10, GEnum27_v11, GEnum27_v12 = 161, GEnum27_v13, GEnum27_14 = 0x92, GEnum27_v15, GEnum27_16 = 0x37D, GEnum27_v17 = 4, GEnum27_18=0Xb6ab, GEnum27_19, GEnum27_v20, GEnum27_21 = 36180, GEnum27_22 = 0x90, GEnum27_23, GEnum27_v24, GEnum27_v25=0x47, GEnum27_v26=0X82c3)
template <> inline const EnumModel &enumModel<GEnum27>() { static EnumModel m{"GEnum27", sizeof(GEnum27), {{"GEnum27_0", (uint64_t)GEnum27::GEnum27_0}, {"GEnum27_v1", (uint64_t)GEnum27::GEnum27_v1}, {"GEnum27_2", (uint64_t)GEnum27::GEnum27_2}, {"GEnum27_v3", (uint64_t)GEnum27::GEnum27_v3}, {"GEnum27_v4", (uint64_t)GEnum27::GEnum27_v4}, {"GEnum27_5", (uint64_t)GEnum27::GEnum27_5}, {"GEnum27_v6", (uint64_t)GEnum27::GEnum27_v6}, {"GEnum27_v7", (uint64_t)GEnum27::GEnum27_v7}, {"GEnum27_8", (uint64_t)GEnum27::GEnum27_8}, {"GEnum27_v9", (uint64_t)GEnum27::GEnum27_v9}, {"GEnum27_v10", (uint64_t)GEnum27::GEnum27_v10}, {"GEnum27_v11", (uint64_t)GEnum27::GEnum27_v11}, {"GEnum27_v12", (uint64_t)GEnum27::GEnum27_v12}, {"GEnum27_v13", (uint64_t)GEnum27::GEnum27_v13}, {"GEnum27_14", (uint64_t)GEnum27::GEnum27_14}, {"GEnum27_v15", (uint64_t)GEnum27::GEnum27_v15}, {"GEnum27_16", (uint64_t)GEnum27::GEnum27_16}, {"GEnum27_v17", (uint64_t)GEnum27::GEnum27_v17}, {"GEnum27_18", (uint64_t)GEnum27::GEnum27_18}, {"GEnum27_19", (uint64_t)GEnum27::GEnum27_19}, {"GEnum27_v20", (uint64_t)GEnum27::GEnum27_v20}, {"GEnum27_21", (uint64_t)GEnum27::GEnum27_21}, {"GEnum27_22", (uint64_t)GEnum27::GEnum27_22}, {"GEnum27_23", (uint64_t)GEnum27::GEnum27_23}, {"GEnum27_v24", (uint64_t)GEnum27::GEnum27_v24}, {"GEnum27_v25", (uint64_t)GEnum27::GEnum27_v25}, {"GEnum27_v26", (uint64_t)GEnum27::GEnum27_v26}}}; return m; }
REFLECTOR_CREATE(GEnum40, ENUM, 2, CLASS, 32, GEnum40_0, GEnum40_1 = 0X6d, GEnum40_2=0xb, GEnum40_3 = 73, GEnum40_4 = 0X87, GEnum40_v5, GEnum40_6, GEnum40_v7, GEnum40_8=0x81af33f6, GEnum40_9, GEnum40_v10 = 0X40274104, GEnum40_11, GEnum40_12, GEnum40_13, GEnum40_v14, GEnum40_v15 = 0x3A, GEnum40_v16, GEnum40_v17, GEnum40_18 = 770147710, GEnum40_19 = 2689918378, GEnum40_20 = 0Xc3, GEnum40_v21 = 0Xa9, GEnum40_v22, GEnum40_23, GEnum40_24 = 0X193bdacf, GEnum40_25, GEnum40_v26 = 148, GEnum40_27 = 0x3912933C, GEnum40_v28 = 0X3c118cde, GEnum40_v29, GEnum40_v30, GEnum40_v31, GEnum40_v32 = 0X61, GEnum40_v33, GEnum40_v34, GEnum40_v35, GEnum40_36, GEnum40_v37 = 0xD7CD3D62, GEnum40_v38, GEnum40_v39)
template <> inline const EnumModel &enumModel<GEnum40>() { static EnumModel m{"GEnum40", sizeof(GEnum40), {{"GEnum40_0", (uint64_t)GEnum40::GEnum40_0}, {"GEnum40_1", (uint64_t)GEnum40::GEnum40_1}, {"GEnum40_2", (uint64_t)GEnum40::GEnum40_2}, {"GEnum40_3", (uint64_t)GEnum40::GEnum40_3}, {"GEnum40_4", (uint64_t)GEnum40::GEnum40_4}, {"GEnum40_v5", (uint64_t)GEnum40::GEnum40_v5}, {"GEnum40_6", (uint64_t)GEnum40::GEnum40_6}, {"GEnum40_v7", (uint64_t)GEnum40::GEnum40_v7}, {"GEnum40_8", (uint64_t)GEnum40::GEnum40_8}, {"GEnum40_9", (uint64_t)GEnum40::GEnum40_9}, {"GEnum40_v10", (uint64_t)GEnum40::GEnum40_v10}, {"GEnum40_11", (uint64_t)GEnum40::GEnum40_11}, {"GEnum40_12", (uint64_t)GEnum40::GEnum40_12}, {"GEnum40_13", (uint64_t)GEnum40::GEnum40_13}, {"GEnum40_v14", (uint64_t)GEnum40::GEnum40_v14}, {"GEnum40_v15", (uint64_t)GEnum40::GEnum40_v15}, {"GEnum40_v16", (uint64_t)GEnum40::GEnum40_v16}, {"GEnum40_v17", (uint64_t)GEnum40::GEnum40_v17}, {"GEnum40_18", (uint64_t)GEnum40::GEnum40_18}, {"GEnum40_19", (uint64_t)GEnum40::GEnum40_19}, {"GEnum40_20", (uint64_t)GEnum40::GEnum40_20}, {"GEnum40_v21", (uint64_t)GEnum40::GEnum40_v21}, {"GEnum40_v22", (uint64_t)GEnum40::GEnum40_v22}, {"GEnum40_23", (uint64_t)GEnum40::GEnum40_23}, {"GEnum40_24", (uint64_t)GEnum40::GEnum40_24}, {"GEnum40_25", (uint64_t)GEnum40::GEnum40_25}, {"GEnum40_v26", (uint64_t)GEnum40::GEnum40_v26}, {"GEnum40_27", (uint64_t)GEnum40::GEnum40_27}, {"GEnum40_v28", (uint64_t)GEnum40::GEnum40_v28}, {"GEnum40_v29", (uint64_t)GEnum40::GEnum40_v29}, {"GEnum40_v30", (uint64_t)GEnum40::GEnum40_v30}, {"GEnum40_v31", (uint64_t)GEnum40::GEnum40_v31}, {"GEnum40_v32", (uint64_t)GEnum40::GEnum40_v32}, {"GEnum40_v33", (uint64_t)GEnum40::GEnum40_v33}, {"GEnum40_v34", (uint64_t)GEnum40::GEnum40_v34}, {"GEnum40_v35", (uint64_t)GEnum40::GEnum40_v35}, {"GEnum40_36", (uint64_t)GEnum40::GEnum40_36}, {"GEnum40_v37", (uint64_t)GEnum40::GEnum40_v37}, {"GEnum40_v38", (uint64_t)GEnum40::GEnum40_v38}, {"GEnum40_v39", (uint64_t)GEnum40::GEnum40_v39}}}; return m; }
REFLECTOR_CREATE(GEnum58, ENUM, 2, CLASS, 64, GEnum58_0, GEnum58_v1, GEnum58_v2, GEnum58_v3, GEnum58_4, GEnum58_5 = 0x92B4518931635A4Dull, GEnum58_6, GEnum58_7 = 37, GEnum58_v8, GEnum58_9, GEnum58_10, GEnum58_v11, GEnum58_v12, GEnum58_v13, GEnum58_v14 = 0X10, GEnum58_15 = 0Xc7, GEnum58_v16, GEnum58_17, GEnum58_v18=0xbe, GEnum58_v19, GEnum58_20, GEnum58_v21, GEnum58_v22, GEnum58_23, GEnum58_v24 = 131, GEnum58_25 = 0Xa9, GEnum58_v26, GEnum58_v27, GEnum58_28 = 0x8E825CC70CC6486Aull, GEnum58_29, GEnum58_30 = 0x76, GEnum58_31 = 0xcf68ba5a9568c98cull, GEnum58_v32, GEnum58_v33, GEnum58_v34, GEnum58_v35, GEnum58_36, GEnum58_v37=0X7a5293b74e9c1590, GEnum58_v38=16936933042184568748ull, GEnum58_v39 = 0X1c42162ed6bd9586, GEnum58_40, GEnum58_v41 = 0xB2, GEnum58_v42=0X4e, GEnum58_v43=0X7baf484e9af94dd7, GEnum58_v44 = 0x9A, GEnum58_45, GEnum58_46, GEnum58_47, GEnum58_48, GEnum58_v49, GEnum58_v50, GEnum58_51, GEnum58_52, GEnum58_53, GEnum58_v54 = 0X3eb7d9c67ec52c82, GEnum58_55 = 0x15A94FBDCF281338, GEnum58_v56, GEnum58_57=0x1)
template <> inline const EnumModel &enumModel<GEnum58>() { static EnumModel m{"GEnum58", sizeof(GEnum58), {{"GEnum58_0", (uint64_t)GEnum58::GEnum58_0}, {"GEnum58_v1", (uint64_t)GEnum58::GEnum58_v1}, {"GEnum58_v2", (uint64_t)GEnum58::GEnum58_v2}, {"GEnum58_v3", (uint64_t)GEnum58::GEnum58_v3}, {"GEnum58_4", (uint64_t)GEnum58::GEnum58_4}, {"GEnum58_5", (uint64_t)GEnum58::GEnum58_5}, {"GEnum58_6", (uint64_t)GEnum58::GEnum58_6}, {"GEnum58_7", (uint64_t)GEnum58::GEnum58_7}, {"GEnum58_v8", (uint64_t)GEnum58::GEnum58_v8}, {"GEnum58_9", (uint64_t)GEnum58::GEnum58_9}, {"GEnum58_10", (uint64_t)GEnum58::GEnum58_10}, {"GEnum58_v11", (uint64_t)GEnum58::GEnum58_v11}, {"GEnum58_v12", (uint64_t)GEnum58::GEnum58_v12}, {"GEnum58_v13", (uint64_t)GEnum58::GEnum58_v13}, {"GEnum58_v14", (uint64_t)GEnum58::GEnum58_v14}, {"GEnum58_15", (uint64_t)GEnum58::GEnum58_15}, {"GEnum58_v16", (uint64_t)GEnum58::GEnum58_v16}, {"GEnum58_17", (uint64_t)GEnum58::GEnum58_17}, {"GEnum58_v18", (uint64_t)GEnum58::GEnum58_v18}, {"GEnum58_v19", (uint64_t)GEnum58::GEnum58_v19}, {"GEnum58_20", (uint64_t)GEnum58::GEnum58_20}, {"GEnum58_v21", (uint64_t)GEnum58::GEnum58_v21}, {"GEnum58_v22", (uint64_t)GEnum58::GEnum58_v22}, {"GEnum58_23", (uint64_t)GEnum58::GEnum58_23}, {"GEnum58_v24", (uint64_t)GEnum58::GEnum58_v24}, {"GEnum58_25", (uint64_t)GEnum58::GEnum58_25}, {"GEnum58_v26", (uint64_t)GEnum58::GEnum58_v26}, {"GEnum58_v27", (uint64_t)GEnum58::GEnum58_v27}, {"GEnum58_28", (uint64_t)GEnum58::GEnum58_28}, {"GEnum58_29", (uint64_t)GEnum58::GEnum58_29}, {"GEnum58_30", (uint64_t)GEnum58::GEnum58_30}, {"GEnum58_31", (uint64_t)GEnum58::GEnum58_31}, {"GEnum58_v32", (uint64_t)GEnum58::GEnum58_v32}, {"GEnum58_v33", (uint64_t)GEnum58::GEnum58_v33}, {"GEnum58_v34", (uint64_t)GEnum58::GEnum58_v34}, {"GEnum58_v35", (uint64_t)GEnum58::GEnum58_v35}, {"GEnum58_36", (uint64_t)GEnum58::GEnum58_36}, {"GEnum58_v37", (uint64_t)GEnum58::GEnum58_v37}, {"GEnum58_v38", (uint64_t)GEnum58::GEnum58_v38}, {"GEnum58_v39", (uint64_t)GEnum58::GEnum58_v39}, {"GEnum58_40", (uint64_t)GEnum58::GEnum58_40}, {"GEnum58_v41", (uint64_t)GEnum58::GEnum58_v41}, {"GEnum58_v42", (uint64_t)GEnum58::GEnum58_v42}, {"GEnum58_v43", (uint64_t)GEnum58::GEnum58_v43}, {"GEnum58_v44", (uint64_t)GEnum58::GEnum58_v44}, {"GEnum58_45", (uint64_t)GEnum58::GEnum58_45}, {"GEnum58_46", (uint64_t)GEnum58::GEnum58_46}, {"GEnum58_47", (uint64_t)GEnum58::GEnum58_47}, {"GEnum58_48", (uint64_t)GEnum58::GEnum58_48}, {"GEnum58_v49", (uint64_t)GEnum58::GEnum58_v49}, {"GEnum58_v50", (uint64_t)GEnum58::GEnum58_v50}, {"GEnum58_51", (uint64_t)GEnum58::GEnum58_51}, {"GEnum58_52", (uint64_t)GEnum58::GEnum58_52}, {"GEnum58_53", (uint64_t)GEnum58::GEnum58_53}, {"GEnum58_v54", (uint64_t)GEnum58::GEnum58_v54}, {"GEnum58_55", (uint64_t)GEnum58::GEnum58_55}, {"GEnum58_v56", (uint64_t)GEnum58::GEnum58_v56}, {"GEnum58_57", (uint64_t)GEnum58::GEnum58_57}}}; return m; }
REFLECTOR_CREATE(GEnum73, ENUM, 1, CLASS, GEnum73_v0, GEnum73_1, GEnum73_v2=0Xc480328, GEnum73_v3 = -965711052, GEnum73_4, GEnum73_5, GEnum73_6, GEnum73_v7 = 0x4b, GEnum73_8, GEnum73_9 = 0X2f, GEnum73_v10=-0xB9, GEnum73_11 = 0X76, GEnum73_12, GEnum73_13, GEnum73_v14, GEnum73_15=0X1e, GEnum73_16, GEnum73_17, GEnum73_v18 = -186, GEnum73_v19 = 0X76, GEnum73_v20, GEnum73_v21 = -0x94, GEnum73_v22, GEnum73_23, GEnum73_24, GEnum73_25, GEnum73_v26, GEnum73_v27, GEnum73_v28, GEnum73_29 = 0X2d, GEnum73_30, GEnum73_v31=1244402892, GEnum73_32, GEnum73_33 = 1411274149, GEnum73_34, GEnum73_v35, GEnum73_36 = -1397667944, GEnum73_v37, GEnum73_v38, GEnum73_v39 = -0x26, GEnum73_40, GEnum73_v41 = -536418568, GEnum73_42, GEnum73_v43 = -0xb5, GEnum73_44, GEnum73_v45, GEnum73_v46, GEnum73_47 = -0x2A9EDEFC, GEnum73_48, GEnum73_v49, GEnum73_50, GEnum73_v51, GEnum73_v52 = -0x23, GEnum73_v53, GEnum73_54, GEnum73_55 = -0x42e63a2b, GEnum73_v56 = 0x6f8e9a39, GEnum73_57, GEnum73_v58 = 0x5D88D6CF, GEnum73_59, GEnum73_60, GEnum73_61, GEnum73_v62 = -0xb6, GEnum73_63=-0x4, GEnum73_64, GEnum73_v65, GEnum73_66, GEnum73_v67, GEnum73_v68, GEnum73_69 = 0x85, GEnum73_v70 = 716965497, GEnum73_71, GEnum73_v72)
template <> inline const EnumModel &enumModel<GEnum73>() { static EnumModel m{"GEnum73", sizeof(GEnum73), {{"GEnum73_v0", (uint64_t)GEnum73::GEnum73_v0}, {"GEnum73_1", (uint64_t)GEnum73::GEnum73_1}, {"GEnum73_v2", (uint64_t)GEnum73::GEnum73_v2}, {"GEnum73_v3", (uint64_t)GEnum73::GEnum73_v3}, {"GEnum73_4", (uint64_t)GEnum73::GEnum73_4}, {"GEnum73_5", (uint64_t)GEnum73::GEnum73_5}, {"GEnum73_6", (uint64_t)GEnum73::GEnum73_6}, {"GEnum73_v7", (uint64_t)GEnum73::GEnum73_v7}, {"GEnum73_8", (uint64_t)GEnum73::GEnum73_8}, {"GEnum73_9", (uint64_t)GEnum73::GEnum73_9}, {"GEnum73_v10", (uint64_t)GEnum73::GEnum73_v10}, {"GEnum73_11", (uint64_t)GEnum73::GEnum73_11}, {"GEnum73_12", (uint64_t)GEnum73::GEnum73_12}, {"GEnum73_13", (uint64_t)GEnum73::GEnum73_13}, {"GEnum73_v14", (uint64_t)GEnum73::GEnum73_v14}, {"GEnum73_15", (uint64_t)GEnum73::GEnum73_15}, {"GEnum73_16", (uint64_t)GEnum73::GEnum73_16}, {"GEnum73_17", (uint64_t)GEnum73::GEnum73_17}, {"GEnum73_v18", (uint64_t)GEnum73::GEnum73_v18}, {"GEnum73_v19", (uint64_t)GEnum73::GEnum73_v19}, {"GEnum73_v20", (uint64_t)GEnum73::GEnum73_v20}, {"GEnum73_v21", (uint64_t)GEnum73::GEnum73_v21}, {"GEnum73_v22", (uint64_t)GEnum73::GEnum73_v22}, {"GEnum73_23", (uint64_t)GEnum73::GEnum73_23}, {"GEnum73_24", (uint64_t)GEnum73::GEnum73_24}, {"GEnum73_25", (uint64_t)GEnum73::GEnum73_25}, {"GEnum73_v26", (uint64_t)GEnum73::GEnum73_v26}, {"GEnum73_v27", (uint64_t)GEnum73::GEnum73_v27}, {"GEnum73_v28", (uint64_t)GEnum73::GEnum73_v28}, {"GEnum73_29", (uint64_t)GEnum73::GEnum73_29}, {"GEnum73_30", (uint64_t)GEnum73::GEnum73_30}, {"GEnum73_v31", (uint64_t)GEnum73::GEnum73_v31}, {"GEnum73_32", (uint64_t)GEnum73::GEnum73_32}, {"GEnum73_33", (uint64_t)GEnum73::GEnum73_33}, {"GEnum73_34", (uint64_t)GEnum73::GEnum73_34}, {"GEnum73_v35", (uint64_t)GEnum73::GEnum73_v35}, {"GEnum73_36", (uint64_t)GEnum73::GEnum73_36}, {"GEnum73_v37", (uint64_t)GEnum73::GEnum73_v37}, {"GEnum73_v38", (uint64_t)GEnum73::GEnum73_v38}, {"GEnum73_v39", (uint64_t)GEnum73::GEnum73_v39}, {"GEnum73_40", (uint64_t)GEnum73::GEnum73_40}, {"GEnum73_v41", (uint64_t)GEnum73::GEnum73_v41}, {"GEnum73_42", (uint64_t)GEnum73::GEnum73_42}, {"GEnum73_v43", (uint64_t)GEnum73::GEnum73_v43}, {"GEnum73_44", (uint64_t)GEnum73::GEnum73_44}, {"GEnum73_v45", (uint64_t)GEnum73::GEnum73_v45}, {"GEnum73_v46", (uint64_t)GEnum73::GEnum73_v46}, {"GEnum73_47", (uint64_t)GEnum73::GEnum73_47}, {"GEnum73_48", (uint64_t)GEnum73::GEnum73_48}, {"GEnum73_v49", (uint64_t)GEnum73::GEnum73_v49}, {"GEnum73_50", (uint64_t)GEnum73::GEnum73_50}, {"GEnum73_v51", (uint64_t)GEnum73::GEnum73_v51}, {"GEnum73_v52", (uint64_t)GEnum73::GEnum73_v52}, {"GEnum73_v53", (uint64_t)GEnum73::GEnum73_v53}, {"GEnum73_54", (uint64_t)GEnum73::GEnum73_54}, {"GEnum73_55", (uint64_t)GEnum73::GEnum73_55}, {"GEnum73_v56", (uint64_t)GEnum73::GEnum73_v56}, {"GEnum73_57", (uint64_t)GEnum73::GEnum73_57}, {"GEnum73_v58", (uint64_t)GEnum73::GEnum73_v58}, {"GEnum73_59", (uint64_t)GEnum73::GEnum73_59}, {"GEnum73_60", (uint64_t)GEnum73::GEnum73_60}, {"GEnum73_61", (uint64_t)GEnum73::GEnum73_61}, {"GEnum73_v62", (uint64_t)GEnum73::GEnum73_v62}, {"GEnum73_63", (uint64_t)GEnum73::GEnum73_63}, {"GEnum73_64", (uint64_t)GEnum73::GEnum73_64}, {"GEnum73_v65", (uint64_t)GEnum73::GEnum73_v65}, {"GEnum73_66", (uint64_t)GEnum73::GEnum73_66}, {"GEnum73_v67", (uint64_t)GEnum73::GEnum73_v67}, {"GEnum73_v68", (uint64_t)GEnum73::GEnum73_v68}, {"GEnum73_69", (uint64_t)GEnum73::GEnum73_69}, {"GEnum73_v70", (uint64_t)GEnum73::GEnum73_v70}, {"GEnum73_71", (uint64_t)GEnum73::GEnum73_71}, {"GEnum73_v72", (uint64_t)GEnum73::GEnum73_v72}}}; return m; }
REFLECTOR_CREATE(GEnum84, ENUM, 2, CLASS, 8, GEnum84_0 = 0x55, GEnum84_1=0X93, GEnum84_v2, GEnum84_3, GEnum84_v4 = 0x8E, GEnum84_5, GEnum84_6, GEnum84_7 = 80, GEnum84_8, GEnum84_v9 = 0x8b, GEnum84_10, GEnum84_11 = 100, GEnum84_v12, GEnum84_v13, GEnum84_14 = 0X27, GEnum84_15, GEnum84_v16, GEnum84_17 = 0X48, GEnum84_v18, GEnum84_v19 = 0X13, GEnum84_20, GEnum84_21, GEnum84_22, GEnum84_23, GEnum84_24 = 0X2b, GEnum84_v25, GEnum84_26 = 0x75, GEnum84_27, GEnum84_v28, GEnum84_v29, GEnum84_30, GEnum84_31, GEnum84_v32, GEnum84_33 = 11, GEnum84_v34, GEnum84_v35 = 21, GEnum84_v36=0x90, GEnum84_v37 = 0x41, GEnum84_38, GEnum84_39 = 0X15, GEnum84_v40 = 0x15, GEnum84_v41 = 0x52, GEnum84_v42 = 0X32, GEnum84_v43, GEnum84_v44, GEnum84_v45, GEnum84_46, GEnum84_v47, GEnum84_v48, GEnum84_49, GEnum84_v50, GEnum84_v51, GEnum84_52 = 0X60, GEnum84_v53, GEnum84_54, GEnum84_55, GEnum84_v56, GEnum84_v57, GEnum84_v58, GEnum84_v59, GEnum84_60 = 0X5f, GEnum84_61 = 0X5d, GEnum84_v62, GEnum84_63, GEnum84_64 = 0X99, GEnum84_65, GEnum84_66 = 0x6, GEnum84_67 = 0x7f, GEnum84_v68, GEnum84_v69, GEnum84_70, GEnum84_v71, GEnum84_72, GEnum84_73, GEnum84_v74, GEnum84_75=0xA7, GEnum84_v76 = 119, GEnum84_v77 = 0X2e, GEnum84_v78=0X4d, GEnum84_79, GEnum84_v80 = 66, GEnum84_81=0X15, GEnum84_82 = 0X2b, GEnum84_83)
template <> inline const EnumModel &enumModel<GEnum84>() { static EnumModel m{"GEnum84", sizeof(GEnum84), {{"GEnum84_0", (uint64_t)GEnum84::GEnum84_0}, {"GEnum84_1", (uint64_t)GEnum84::GEnum84_1}, {"GEnum84_v2", (uint64_t)GEnum84::GEnum84_v2}, {"GEnum84_3", (uint64_t)GEnum84::GEnum84_3}, {"GEnum84_v4", (uint64_t)GEnum84::GEnum84_v4}, {"GEnum84_5", (uint64_t)GEnum84::GEnum84_5}, {"GEnum84_6", (uint64_t)GEnum84::GEnum84_6}, {"GEnum84_7", (uint64_t)GEnum84::GEnum84_7}, {"GEnum84_8", (uint64_t)GEnum84::GEnum84_8}, {"GEnum84_v9", (uint64_t)GEnum84::GEnum84_v9}, {"GEnum84_10", (uint64_t)GEnum84::GEnum84_10}, {"GEnum84_11", (uint64_t)GEnum84::GEnum84_11}, {"GEnum84_v12", (uint64_t)GEnum84::GEnum84_v12}, {"GEnum84_v13", (uint64_t)GEnum84::GEnum84_v13}, {"GEnum84_14", (uint64_t)GEnum84::GEnum84_14}, {"GEnum84_15", (uint64_t)GEnum84::GEnum84_15}, {"GEnum84_v16", (uint64_t)GEnum84::GEnum84_v16}, {"GEnum84_17", (uint64_t)GEnum84::GEnum84_17}, {"GEnum84_v18", (uint64_t)GEnum84::GEnum84_v18}, {"GEnum84_v19", (uint64_t)GEnum84::GEnum84_v19}, {"GEnum84_20", (uint64_t)GEnum84::GEnum84_20}, {"GEnum84_21", (uint64_t)GEnum84::GEnum84_21}, {"GEnum84_22", (uint64_t)GEnum84::GEnum84_22}, {"GEnum84_23", (uint64_t)GEnum84::GEnum84_23}, {"GEnum84_24", (uint64_t)GEnum84::GEnum84_24}, {"GEnum84_v25", (uint64_t)GEnum84::GEnum84_v25}, {"GEnum84_26", (uint64_t)GEnum84::GEnum84_26}, {"GEnum84_27", (uint64_t)GEnum84::GEnum84_27}, {"GEnum84_v28", (uint64_t)GEnum84::GEnum84_v28}, {"GEnum84_v29", (uint64_t)GEnum84::GEnum84_v29}, {"GEnum84_30", (uint64_t)GEnum84::GEnum84_30}, {"GEnum84_31", (uint64_t)GEnum84::GEnum84_31}, {"GEnum84_v32", (uint64_t)GEnum84::GEnum84_v32}, {"GEnum84_33", (uint64_t)GEnum84::GEnum84_33}, {"GEnum84_v34", (uint64_t)GEnum84::GEnum84_v34}, {"GEnum84_v35", (uint64_t)GEnum84::GEnum84_v35}, {"GEnum84_v36", (uint64_t)GEnum84::GEnum84_v36}, {"GEnum84_v37", (uint64_t)GEnum84::GEnum84_v37}, {"GEnum84_38", (uint64_t)GEnum84::GEnum84_38}, {"GEnum84_39", (uint64_t)GEnum84::GEnum84_39}, {"GEnum84_v40", (uint64_t)GEnum84::GEnum84_v40}, {"GEnum84_v41", (uint64_t)GEnum84::GEnum84_v41}, {"GEnum84_v42", (uint64_t)GEnum84::GEnum84_v42}, {"GEnum84_v43", (uint64_t)GEnum84::GEnum84_v43}, {"GEnum84_v44", (uint64_t)GEnum84::GEnum84_v44}, {"GEnum84_v45", (uint64_t)GEnum84::GEnum84_v45}, {"GEnum84_46", (uint64_t)GEnum84::GEnum84_46}, {"GEnum84_v47", (uint64_t)GEnum84::GEnum84_v47}, {"GEnum84_v48", (uint64_t)GEnum84::GEnum84_v48}, {"GEnum84_49", (uint64_t)GEnum84::GEnum84_49}, {"GEnum84_v50", (uint64_t)GEnum84::GEnum84_v50}, {"GEnum84_v51", (uint64_t)GEnum84::GEnum84_v51}, {"GEnum84_52", (uint64_t)GEnum84::GEnum84_52}, {"GEnum84_v53", (uint64_t)GEnum84::GEnum84_v53}, {"GEnum84_54", (uint64_t)GEnum84::GEnum84_54}, {"GEnum84_55", (uint64_t)GEnum84::GEnum84_55}, {"GEnum84_v56", (uint64_t)GEnum84::GEnum84_v56}, {"GEnum84_v57", (uint64_t)GEnum84::GEnum84_v57}, {"GEnum84_v58", (uint64_t)GEnum84::GEnum84_v58}, {"GEnum84_v59", (uint64_t)GEnum84::GEnum84_v59}, {"GEnum84_60", (uint64_t)GEnum84::GEnum84_60}, {"GEnum84_61", (uint64_t)GEnum84::GEnum84_61}, {"GEnum84_v62", (uint64_t)GEnum84::GEnum84_v62}, {"GEnum84_63", (uint64_t)GEnum84::GEnum84_63}, {"GEnum84_64", (uint64_t)GEnum84::GEnum84_64}, {"GEnum84_65", (uint64_t)GEnum84::GEnum84_65}, {"GEnum84_66", (uint64_t)GEnum84::GEnum84_66}, {"GEnum84_67", (uint64_t)GEnum84::GEnum84_67}, {"GEnum84_v68", (uint64_t)GEnum84::GEnum84_v68}, {"GEnum84_v69", (uint64_t)GEnum84::GEnum84_v69}, {"GEnum84_70", (uint64_t)GEnum84::GEnum84_70}, {"GEnum84_v71", (uint64_t)GEnum84::GEnum84_v71}, {"GEnum84_72", (uint64_t)GEnum84::GEnum84_72}, {"GEnum84_73", (uint64_t)GEnum84::GEnum84_73}, {"GEnum84_v74", (uint64_t)GEnum84::GEnum84_v74}, {"GEnum84_75", (uint64_t)GEnum84::GEnum84_75}, {"GEnum84_v76", (uint64_t)GEnum84::GEnum84_v76}, {"GEnum84_v77", (uint64_t)GEnum84::GEnum84_v77}, {"GEnum84_v78", (uint64_t)GEnum84::GEnum84_v78}, {"GEnum84_79", (uint64_t)GEnum84::GEnum84_79}, {"GEnum84_v80", (uint64_t)GEnum84::GEnum84_v80}, {"GEnum84_81", (uint64_t)GEnum84::GEnum84_81}, {"GEnum84_82", (uint64_t)GEnum84::GEnum84_82}, {"GEnum84_83", (uint64_t)GEnum84::GEnum84_83}}}; return m; }
REFLECTOR_CREATE(GEnum85, ENUM, 2, CLASS, 16, GEnum85_0 = 0xD38B, GEnum85_1, GEnum85_v2, GEnum85_v3, GEnum85_v4, GEnum85_v5, GEnum85_6 = 0xA5E4, GEnum85_v7, GEnum85_v8 = 0x99, GEnum85_9 = 0x69e8, GEnum85_10, GEnum85_11 = 0xad64, GEnum85_v12, GEnum85_v13, GEnum85_v14 = 0x15CE, GEnum85_v15, GEnum85_v16, GEnum85_v17, GEnum85_18, GEnum85_v19, GEnum85_20 = 0xd648, GEnum85_v21, GEnum85_v22 = 0x2f, GEnum85_23 = 0Xa7, GEnum85_v24, GEnum85_v25, GEnum85_v26, GEnum85_27 = 0xE8DA, GEnum85_v28, GEnum85_29, GEnum85_30, GEnum85_v31, GEnum85_v32 = 0x44, GEnum85_33, GEnum85_v34, GEnum85_35, GEnum85_v36, GEnum85_v37, GEnum85_v38=0x18A7, GEnum85_v39 = 0xE1F2, GEnum85_40 = 0x8E, GEnum85_v41, GEnum85_42, GEnum85_v43, GEnum85_44=0x731F, GEnum85_v45, GEnum85_46, GEnum85_v47 = 152, GEnum85_v48 = 0x6a, GEnum85_v49=0xac, GEnum85_v50, GEnum85_51 = 199, GEnum85_52 = 0xb73c, GEnum85_53, GEnum85_54, GEnum85_55, GEnum85_56, GEnum85_v57, GEnum85_v58 = 0x3c, GEnum85_59, GEnum85_60, GEnum85_61, GEnum85_v62 = 20, GEnum85_63, GEnum85_v64, GEnum85_65, GEnum85_66, GEnum85_67 = 0x6901, GEnum85_v68, GEnum85_69, GEnum85_v70 = 0X6063, GEnum85_v71, GEnum85_72, GEnum85_73=0xE978, GEnum85_v74 = 0xBF, GEnum85_75 = 36087, GEnum85_76 = 0xe9a8, GEnum85_77 = 0xc, GEnum85_78, GEnum85_v79, GEnum85_80 = 0xFE3F, GEnum85_81 = 0x44e7, GEnum85_v82, GEnum85_v83, GEnum85_v84 = 0x18)
template <> inline const EnumModel &enumModel<GEnum85>() { static EnumModel m{"GEnum85", sizeof(GEnum85), {{"GEnum85_0", (uint64_t)GEnum85::GEnum85_0}, {"GEnum85_1", (uint64_t)GEnum85::GEnum85_1}, {"GEnum85_v2", (uint64_t)GEnum85::GEnum85_v2}, {"GEnum85_v3", (uint64_t)GEnum85::GEnum85_v3}, {"GEnum85_v4", (uint64_t)GEnum85::GEnum85_v4}, {"GEnum85_v5", (uint64_t)GEnum85::GEnum85_v5}, {"GEnum85_6", (uint64_t)GEnum85::GEnum85_6}, {"GEnum85_v7", (uint64_t)GEnum85::GEnum85_v7}, {"GEnum85_v8", (uint64_t)GEnum85::GEnum85_v8}, {"GEnum85_9", (uint64_t)GEnum85::GEnum85_9}, {"GEnum85_10", (uint64_t)GEnum85::GEnum85_10}, {"GEnum85_11", (uint64_t)GEnum85::GEnum85_11}, {"GEnum85_v12", (uint64_t)GEnum85::GEnum85_v12}, {"GEnum85_v13", (uint64_t)GEnum85::GEnum85_v13}, {"GEnum85_v14", (uint64_t)GEnum85::GEnum85_v14}, {"GEnum85_v15", (uint64_t)GEnum85::GEnum85_v15}, {"GEnum85_v16", (uint64_t)GEnum85::GEnum85_v16}, {"GEnum85_v17", (uint64_t)GEnum85::GEnum85_v17}, {"GEnum85_18", (uint64_t)GEnum85::GEnum85_18}, {"GEnum85_v19", (uint64_t)GEnum85::GEnum85_v19}, {"GEnum85_20", (uint64_t)GEnum85::GEnum85_20}, {"GEnum85_v21", (uint64_t)GEnum85::GEnum85_v21}, {"GEnum85_v22", (uint64_t)GEnum85::GEnum85_v22}, {"GEnum85_23", (uint64_t)GEnum85::GEnum85_23}, {"GEnum85_v24", (uint64_t)GEnum85::GEnum85_v24}, {"GEnum85_v25", (uint64_t)GEnum85::GEnum85_v25}, {"GEnum85_v26", (uint64_t)GEnum85::GEnum85_v26}, {"GEnum85_27", (uint64_t)GEnum85::GEnum85_27}, {"GEnum85_v28", (uint64_t)GEnum85::GEnum85_v28}, {"GEnum85_29", (uint64_t)GEnum85::GEnum85_29}, {"GEnum85_30", (uint64_t)GEnum85::GEnum85_30}, {"GEnum85_v31", (uint64_t)GEnum85::GEnum85_v31}, {"GEnum85_v32", (uint64_t)GEnum85::GEnum85_v32}, {"GEnum85_33", (uint64_t)GEnum85::GEnum85_33}, {"GEnum85_v34", (uint64_t)GEnum85::GEnum85_v34}, {"GEnum85_35", (uint64_t)GEnum85::GEnum85_35}, {"GEnum85_v36", (uint64_t)GEnum85::GEnum85_v36}, {"GEnum85_v37", (uint64_t)GEnum85::GEnum85_v37}, {"GEnum85_v38", (uint64_t)GEnum85::GEnum85_v38}, {"GEnum85_v39", (uint64_t)GEnum85::GEnum85_v39}, {"GEnum85_40", (uint64_t)GEnum85::GEnum85_40}, {"GEnum85_v41", (uint64_t)GEnum85::GEnum85_v41}, {"GEnum85_42", (uint64_t)GEnum85::GEnum85_42}, {"GEnum85_v43", (uint64_t)GEnum85::GEnum85_v43}, {"GEnum85_44", (uint64_t)GEnum85::GEnum85_44}, {"GEnum85_v45", (uint64_t)GEnum85::GEnum85_v45}, {"GEnum85_46", (uint64_t)GEnum85::GEnum85_46}, {"GEnum85_v47", (uint64_t)GEnum85::GEnum85_v47}, {"GEnum85_v48", (uint64_t)GEnum85::GEnum85_v48}, {"GEnum85_v49", (uint64_t)GEnum85::GEnum85_v49}, {"GEnum85_v50", (uint64_t)GEnum85::GEnum85_v50}, {"GEnum85_51", (uint64_t)GEnum85::GEnum85_51}, {"GEnum85_52", (uint64_t)GEnum85::GEnum85_52}, {"GEnum85_53", (uint64_t)GEnum85::GEnum85_53}, {"GEnum85_54", (uint64_t)GEnum85::GEnum85_54}, {"GEnum85_55", (uint64_t)GEnum85::GEnum85_55}, {"GEnum85_56", (uint64_t)GEnum85::GEnum85_56}, {"GEnum85_v57", (uint64_t)GEnum85::GEnum85_v57}, {"GEnum85_v58", (uint64_t)GEnum85::GEnum85_v58}, {"GEnum85_59", (uint64_t)GEnum85::GEnum85_59}, {"GEnum85_60", (uint64_t)GEnum85::GEnum85_60}, {"GEnum85_61", (uint64_t)GEnum85::GEnum85_61}, {"GEnum85_v62", (uint64_t)GEnum85::GEnum85_v62}, {"GEnum85_63", (uint64_t)GEnum85::GEnum85_63}, {"GEnum85_v64", (uint64_t)GEnum85::GEnum85_v64}, {"GEnum85_65", (uint64_t)GEnum85::GEnum85_65}, {"GEnum85_66", (uint64_t)GEnum85::GEnum85_66}, {"GEnum85_67", (uint64_t)GEnum85::GEnum85_67}, {"GEnum85_v68", (uint64_t)GEnum85::GEnum85_v68}, {"GEnum85_69", (uint64_t)GEnum85::GEnum85_69}, {"GEnum85_v70", (uint64_t)GEnum85::GEnum85_v70}, {"GEnum85_v71", (uint64_t)GEnum85::GEnum85_v71}, {"GEnum85_72", (uint64_t)GEnum85::GEnum85_72}, {"GEnum85_73", (uint64_t)GEnum85::GEnum85_73}, {"GEnum85_v74", (uint64_t)GEnum85::GEnum85_v74}, {"GEnum85_75", (uint64_t)GEnum85::GEnum85_75}, {"GEnum85_76", (uint64_t)GEnum85::GEnum85_76}, {"GEnum85_77", (uint64_t)GEnum85::GEnum85_77}, {"GEnum85_78", (uint64_t)GEnum85::GEnum85_78}, {"GEnum85_v79", (uint64_t)GEnum85::GEnum85_v79}, {"GEnum85_80", (uint64_t)GEnum85::GEnum85_80}, {"GEnum85_81", (uint64_t)GEnum85::GEnum85_81}, {"GEnum85_v82", (uint64_t)GEnum85::GEnum85_v82}, {"GEnum85_v83", (uint64_t)GEnum85::GEnum85_v83}, {"GEnum85_v84", (uint64_t)GEnum85::GEnum85_v84}}}; return m; }
REFLECTOR_CREATE(GEnum86, ENUM, 1, 32, GEnum86_0, GEnum86_1, GEnum86_2 = 0x6A6CD257, GEnum86_v3, GEnum86_4 = 1809257898, GEnum86_5 = 1, GEnum86_6, GEnum86_v7=131, GEnum86_8, GEnum86_v9 = 0X7428444d, GEnum86_v10, GEnum86_v11, GEnum86_v12, GEnum86_v13, GEnum86_v14 = 0Xd1af4e00, GEnum86_v15, GEnum86_16, GEnum86_17 = 0x3, GEnum86_v18, GEnum86_v19, GEnum86_v20, GEnum86_v21, GEnum86_22, GEnum86_23, GEnum86_24 = 4197570105, GEnum86_25 = 0xB954AB8, GEnum86_26 = 1012468008, GEnum86_v27, GEnum86_v28=99, GEnum86_29, GEnum86_v30 = 0X73, GEnum86_31, GEnum86_32=262365606, GEnum86_33, GEnum86_v34, GEnum86_35=71, GEnum86_v36 = 0X11, GEnum86_v37, GEnum86_38 = 0X32, GEnum86_v39 = 0x38, GEnum86_v40, GEnum86_41, GEnum86_v42, GEnum86_43, GEnum86_44=0x80679b3, GEnum86_45, GEnum86_46, GEnum86_v47, GEnum86_v48 = 2877513838, GEnum86_v49, GEnum86_v50, GEnum86_51, GEnum86_v52, GEnum86_v53, GEnum86_v54, GEnum86_v55, GEnum86_v56, GEnum86_57, GEnum86_58 = 616775968, GEnum86_v59 = 0xC2, GEnum86_v60, GEnum86_61 = 0x429CDA9E, GEnum86_62, GEnum86_63, GEnum86_64, GEnum86_65 = 1423690060, GEnum86_v66, GEnum86_v67 = 0X43, GEnum86_v68, GEnum86_v69, GEnum86_70 = 0X5a145a13, GEnum86_v71, GEnum86_72 = 0xBA, GEnum86_73, GEnum86_v74, GEnum86_v75, GEnum86_v76, GEnum86_77, GEnum86_v78, GEnum86_79, GEnum86_80, GEnum86_81, GEnum86_82, GEnum86_v83, GEnum86_v84 = 0x2c030332, GEnum86_v85 = 2352447972)
template <> inline const EnumModel &enumModel<GEnum86>() { static EnumModel m{"GEnum86", sizeof(GEnum86), {{"GEnum86_0", (uint64_t)GEnum86::GEnum86_0}, {"GEnum86_1", (uint64_t)GEnum86::GEnum86_1}, {"GEnum86_2", (uint64_t)GEnum86::GEnum86_2}, {"GEnum86_v3", (uint64_t)GEnum86::GEnum86_v3}, {"GEnum86_4", (uint64_t)GEnum86::GEnum86_4}, {"GEnum86_5", (uint64_t)GEnum86::GEnum86_5}, {"GEnum86_6", (uint64_t)GEnum86::GEnum86_6}, {"GEnum86_v7", (uint64_t)GEnum86::GEnum86_v7}, {"GEnum86_8", (uint64_t)GEnum86::GEnum86_8}, {"GEnum86_v9", (uint64_t)GEnum86::GEnum86_v9}, {"GEnum86_v10", (uint64_t)GEnum86::GEnum86_v10}, {"GEnum86_v11", (uint64_t)GEnum86::GEnum86_v11}, {"GEnum86_v12", (uint64_t)GEnum86::GEnum86_v12}, {"GEnum86_v13", (uint64_t)GEnum86::GEnum86_v13}, {"GEnum86_v14", (uint64_t)GEnum86::GEnum86_v14}, {"GEnum86_v15", (uint64_t)GEnum86::GEnum86_v15}, {"GEnum86_16", (uint64_t)GEnum86::GEnum86_16}, {"GEnum86_17", (uint64_t)GEnum86::GEnum86_17}, {"GEnum86_v18", (uint64_t)GEnum86::GEnum86_v18}, {"GEnum86_v19", (uint64_t)GEnum86::GEnum86_v19}, {"GEnum86_v20", (uint64_t)GEnum86::GEnum86_v20}, {"GEnum86_v21", (uint64_t)GEnum86::GEnum86_v21}, {"GEnum86_22", (uint64_t)GEnum86::GEnum86_22}, {"GEnum86_23", (uint64_t)GEnum86::GEnum86_23}, {"GEnum86_24", (uint64_t)GEnum86::GEnum86_24}, {"GEnum86_25", (uint64_t)GEnum86::GEnum86_25}, {"GEnum86_26", (uint64_t)GEnum86::GEnum86_26}, {"GEnum86_v27", (uint64_t)GEnum86::GEnum86_v27}, {"GEnum86_v28", (uint64_t)GEnum86::GEnum86_v28}, {"GEnum86_29", (uint64_t)GEnum86::GEnum86_29}, {"GEnum86_v30", (uint64_t)GEnum86::GEnum86_v30}, {"GEnum86_31", (uint64_t)GEnum86::GEnum86_31}, {"GEnum86_32", (uint64_t)GEnum86::GEnum86_32}, {"GEnum86_33", (uint64_t)GEnum86::GEnum86_33}, {"GEnum86_v34", (uint64_t)GEnum86::GEnum86_v34}, {"GEnum86_35", (uint64_t)GEnum86::GEnum86_35}, {"GEnum86_v36", (uint64_t)GEnum86::GEnum86_v36}, {"GEnum86_v37", (uint64_t)GEnum86::GEnum86_v37}, {"GEnum86_38", (uint64_t)GEnum86::GEnum86_38}, {"GEnum86_v39", (uint64_t)GEnum86::GEnum86_v39}, {"GEnum86_v40", (uint64_t)GEnum86::GEnum86_v40}, {"GEnum86_41", (uint64_t)GEnum86::GEnum86_41}, {"GEnum86_v42", (uint64_t)GEnum86::GEnum86_v42}, {"GEnum86_43", (uint64_t)GEnum86::GEnum86_43}, {"GEnum86_44", (uint64_t)GEnum86::GEnum86_44}, {"GEnum86_45", (uint64_t)GEnum86::GEnum86_45}, {"GEnum86_46", (uint64_t)GEnum86::GEnum86_46}, {"GEnum86_v47", (uint64_t)GEnum86::GEnum86_v47}, {"GEnum86_v48", (uint64_t)GEnum86::GEnum86_v48}, {"GEnum86_v49", (uint64_t)GEnum86::GEnum86_v49}, {"GEnum86_v50", (uint64_t)GEnum86::GEnum86_v50}, {"GEnum86_51", (uint64_t)GEnum86::GEnum86_51}, {"GEnum86_v52", (uint64_t)GEnum86::GEnum86_v52}, {"GEnum86_v53", (uint64_t)GEnum86::GEnum86_v53}, {"GEnum86_v54", (uint64_t)GEnum86::GEnum86_v54}, {"GEnum86_v55", (uint64_t)GEnum86::GEnum86_v55}, {"GEnum86_v56", (uint64_t)GEnum86::GEnum86_v56}, {"GEnum86_57", (uint64_t)GEnum86::GEnum86_57}, {"GEnum86_58", (uint64_t)GEnum86::GEnum86_58}, {"GEnum86_v59", (uint64_t)GEnum86::GEnum86_v59}, {"GEnum86_v60", (uint64_t)GEnum86::GEnum86_v60}, {"GEnum86_61", (uint64_t)GEnum86::GEnum86_61}, {"GEnum86_62", (uint64_t)GEnum86::GEnum86_62}, {"GEnum86_63", (uint64_t)GEnum86::GEnum86_63}, {"GEnum86_64", (uint64_t)GEnum86::GEnum86_64}, {"GEnum86_65", (uint64_t)GEnum86::GEnum86_65}, {"GEnum86_v66", (uint64_t)GEnum86::GEnum86_v66}, {"GEnum86_v67", (uint64_t)GEnum86::GEnum86_v67}, {"GEnum86_v68", (uint64_t)GEnum86::GEnum86_v68}, {"GEnum86_v69", (uint64_t)GEnum86::GEnum86_v69}, {"GEnum86_70", (uint64_t)GEnum86::GEnum86_70}, {"GEnum86_v71", (uint64_t)GEnum86::GEnum86_v71}, {"GEnum86_72", (uint64_t)GEnum86::GEnum86_72}, {"GEnum86_73", (uint64_t)GEnum86::GEnum86_73}, {"GEnum86_v74", (uint64_t)GEnum86::GEnum86_v74}, {"GEnum86_v75", (uint64_t)GEnum86::GEnum86_v75}, {"GEnum86_v76", (uint64_t)GEnum86::GEnum86_v76}, {"GEnum86_77", (uint64_t)GEnum86::GEnum86_77}, {"GEnum86_v78", (uint64_t)GEnum86::GEnum86_v78}, {"GEnum86_79", (uint64_t)GEnum86::GEnum86_79}, {"GEnum86_80", (uint64_t)GEnum86::GEnum86_80}, {"GEnum86_81", (uint64_t)GEnum86::GEnum86_81}, {"GEnum86_82", (uint64_t)GEnum86::GEnum86_82}, {"GEnum86_v83", (uint64_t)GEnum86::GEnum86_v83}, {"GEnum86_v84", (uint64_t)GEnum86::GEnum86_v84}, {"GEnum86_v85", (uint64_t)GEnum86::GEnum86_v85}}}; return m; }
REFLECTOR_CREATE(GEnum87, ENUM, 2, CLASS, 64, GEnum87_0, GEnum87_1, GEnum87_2, GEnum87_v3 = 77, GEnum87_4 = 150, GEnum87_v5, GEnum87_6, GEnum87_7, GEnum87_v8=0X7e, GEnum87_9, GEnum87_v10, GEnum87_11 = 14160966868906845243ull, GEnum87_12, GEnum87_13 = 0X65, GEnum87_v14, GEnum87_v15, GEnum87_v16, GEnum87_v17, GEnum87_v18, GEnum87_v19=0x2fbd49138a8b85b8, GEnum87_v20, GEnum87_v21, GEnum87_v22 = 0x8723349542A85A99ull, GEnum87_v23, GEnum87_v24, GEnum87_v25 = 57, GEnum87_v26, GEnum87_v27, GEnum87_v28, GEnum87_29, GEnum87_30 = 13693107249614153419ull, GEnum87_v31, GEnum87_32 = 0xf7d4fd5329a5f1c2ull, GEnum87_v33, GEnum87_v34, GEnum87_v35 = 0X5661597c99c1e8fb, GEnum87_v36, GEnum87_v37, GEnum87_v38, GEnum87_39, GEnum87_40, GEnum87_v41 = 6290505126874303853, GEnum87_v42, GEnum87_v43 = 21, GEnum87_v44, GEnum87_45, GEnum87_46=0X5a, GEnum87_v47, GEnum87_48, GEnum87_49, GEnum87_50, GEnum87_51 = 163, GEnum87_v52, GEnum87_53 = 0x38, GEnum87_v54, GEnum87_55, GEnum87_56, GEnum87_57, GEnum87_v58 = 12113611160628579482ull, GEnum87_v59, GEnum87_60, GEnum87_v61 = 0X84e188bd7923177, GEnum87_v62, GEnum87_63, GEnum87_64, GEnum87_65, GEnum87_66 = 0X365f01d7b3345644, GEnum87_67, GEnum87_v68, GEnum87_69 = 0xCC890464E1208AF4ull, GEnum87_v70, GEnum87_v71 = 5, GEnum87_v72, GEnum87_73 = 0Xb5ec131cd90e353, GEnum87_74 = 0X77, GEnum87_v75, GEnum87_76, GEnum87_v77, GEnum87_v78, GEnum87_v79 = 0x11, GEnum87_80, GEnum87_v81, GEnum87_82, GEnum87_v83 = 0x66, GEnum87_v84, GEnum87_85 = 3765646177344561333, GEnum87_v86)
template <> inline const EnumModel &enumModel<GEnum87>() { static EnumModel m{"GEnum87", sizeof(GEnum87), {{"GEnum87_0", (uint64_t)GEnum87::GEnum87_0}, {"GEnum87_1", (uint64_t)GEnum87::GEnum87_1}, {"GEnum87_2", (uint64_t)GEnum87::GEnum87_2}, {"GEnum87_v3", (uint64_t)GEnum87::GEnum87_v3}, {"GEnum87_4", (uint64_t)GEnum87::GEnum87_4}, {"GEnum87_v5", (uint64_t)GEnum87::GEnum87_v5}, {"GEnum87_6", (uint64_t)GEnum87::GEnum87_6}, {"GEnum87_7", (uint64_t)GEnum87::GEnum87_7}, {"GEnum87_v8", (uint64_t)GEnum87::GEnum87_v8}, {"GEnum87_9", (uint64_t)GEnum87::GEnum87_9}, {"GEnum87_v10", (uint64_t)GEnum87::GEnum87_v10}, {"GEnum87_11", (uint64_t)GEnum87::GEnum87_11}, {"GEnum87_12", (uint64_t)GEnum87::GEnum87_12}, {"GEnum87_13", (uint64_t)GEnum87::GEnum87_13}, {"GEnum87_v14", (uint64_t)GEnum87::GEnum87_v14}, {"GEnum87_v15", (uint64_t)GEnum87::GEnum87_v15}, {"GEnum87_v16", (uint64_t)GEnum87::GEnum87_v16}, {"GEnum87_v17", (uint64_t)GEnum87::GEnum87_v17}, {"GEnum87_v18", (uint64_t)GEnum87::GEnum87_v18}, {"GEnum87_v19", (uint64_t)GEnum87::GEnum87_v19}, {"GEnum87_v20", (uint64_t)GEnum87::GEnum87_v20}, {"GEnum87_v21", (uint64_t)GEnum87::GEnum87_v21}, {"GEnum87_v22", (uint64_t)GEnum87::GEnum87_v22}, {"GEnum87_v23", (uint64_t)GEnum87::GEnum87_v23}, {"GEnum87_v24", (uint64_t)GEnum87::GEnum87_v24}, {"GEnum87_v25", (uint64_t)GEnum87::GEnum87_v25}, {"GEnum87_v26", (uint64_t)GEnum87::GEnum87_v26}, {"GEnum87_v27", (uint64_t)GEnum87::GEnum87_v27}, {"GEnum87_v28", (uint64_t)GEnum87::GEnum87_v28}, {"GEnum87_29", (uint64_t)GEnum87::GEnum87_29}, {"GEnum87_30", (uint64_t)GEnum87::GEnum87_30}, {"GEnum87_v31", (uint64_t)GEnum87::GEnum87_v31}, {"GEnum87_32", (uint64_t)GEnum87::GEnum87_32}, {"GEnum87_v33", (uint64_t)GEnum87::GEnum87_v33}, {"GEnum87_v34", (uint64_t)GEnum87::GEnum87_v34}, {"GEnum87_v35", (uint64_t)GEnum87::GEnum87_v35}, {"GEnum87_v36", (uint64_t)GEnum87::GEnum87_v36}, {"GEnum87_v37", (uint64_t)GEnum87::GEnum87_v37}, {"GEnum87_v38", (uint64_t)GEnum87::GEnum87_v38}, {"GEnum87_39", (uint64_t)GEnum87::GEnum87_39}, {"GEnum87_40", (uint64_t)GEnum87::GEnum87_40}, {"GEnum87_v41", (uint64_t)GEnum87::GEnum87_v41}, {"GEnum87_v42", (uint64_t)GEnum87::GEnum87_v42}, {"GEnum87_v43", (uint64_t)GEnum87::GEnum87_v43}, {"GEnum87_v44", (uint64_t)GEnum87::GEnum87_v44}, {"GEnum87_45", (uint64_t)GEnum87::GEnum87_45}, {"GEnum87_46", (uint64_t)GEnum87::GEnum87_46}, {"GEnum87_v47", (uint64_t)GEnum87::GEnum87_v47}, {"GEnum87_48", (uint64_t)GEnum87::GEnum87_48}, {"GEnum87_49", (uint64_t)GEnum87::GEnum87_49}, {"GEnum87_50", (uint64_t)GEnum87::GEnum87_50}, {"GEnum87_51", (uint64_t)GEnum87::GEnum87_51}, {"GEnum87_v52", (uint64_t)GEnum87::GEnum87_v52}, {"GEnum87_53", (uint64_t)GEnum87::GEnum87_53}, {"GEnum87_v54", (uint64_t)GEnum87::GEnum87_v54}, {"GEnum87_55", (uint64_t)GEnum87::GEnum87_55}, {"GEnum87_56", (uint64_t)GEnum87::GEnum87_56}, {"GEnum87_57", (uint64_t)GEnum87::GEnum87_57}, {"GEnum87_v58", (uint64_t)GEnum87::GEnum87_v58}, {"GEnum87_v59", (uint64_t)GEnum87::GEnum87_v59}, {"GEnum87_60", (uint64_t)GEnum87::GEnum87_60}, {"GEnum87_v61", (uint64_t)GEnum87::GEnum87_v61}, {"GEnum87_v62", (uint64_t)GEnum87::GEnum87_v62}, {"GEnum87_63", (uint64_t)GEnum87::GEnum87_63}, {"GEnum87_64", (uint64_t)GEnum87::GEnum87_64}, {"GEnum87_65", (uint64_t)GEnum87::GEnum87_65}, {"GEnum87_66", (uint64_t)GEnum87::GEnum87_66}, {"GEnum87_67", (uint64_t)GEnum87::GEnum87_67}, {"GEnum87_v68", (uint64_t)GEnum87::GEnum87_v68}, {"GEnum87_69", (uint64_t)GEnum87::GEnum87_69}, {"GEnum87_v70", (uint64_t)GEnum87::GEnum87_v70}, {"GEnum87_v71", (uint64_t)GEnum87::GEnum87_v71}, {"GEnum87_v72", (uint64_t)GEnum87::GEnum87_v72}, {"GEnum87_73", (uint64_t)GEnum87::GEnum87_73}, {"GEnum87_74", (uint64_t)GEnum87::GEnum87_74}, {"GEnum87_v75", (uint64_t)GEnum87::GEnum87_v75}, {"GEnum87_76", (uint64_t)GEnum87::GEnum87_76}, {"GEnum87_v77", (uint64_t)GEnum87::GEnum87_v77}, {"GEnum87_v78", (uint64_t)GEnum87::GEnum87_v78}, {"GEnum87_v79", (uint64_t)GEnum87::GEnum87_v79}, {"GEnum87_80", (uint64_t)GEnum87::GEnum87_80}, {"GEnum87_v81", (uint64_t)GEnum87::GEnum87_v81}, {"GEnum87_82", (uint64_t)GEnum87::GEnum87_82}, {"GEnum87_v83", (uint64_t)GEnum87::GEnum87_v83}, {"GEnum87_v84", (uint64_t)GEnum87::GEnum87_v84}, {"GEnum87_85", (uint64_t)GEnum87::GEnum87_85}, {"GEnum87_v86", (uint64_t)GEnum87::GEnum87_v86}}}; return m; }
REFLECTOR_CREATE(GEnum88, ENUM, 1, CLASS, GEnum88_v0, GEnum88_1, GEnum88_v2, GEnum88_3, GEnum88_v4 = -0X1f, GEnum88_5, GEnum88_6, GEnum88_7, GEnum88_8=150, GEnum88_v9 = -0x1f, GEnum88_10, GEnum88_11, GEnum88_v12, GEnum88_13=-1591748726, GEnum88_v14, GEnum88_15 = -0x63, GEnum88_v16, GEnum88_v17, GEnum88_18 = 0X2f, GEnum88_19 = -0x12, GEnum88_20, GEnum88_21, GEnum88_v22 = -0x5c, GEnum88_23, GEnum88_v24, GEnum88_25, GEnum88_v26 = -0X1eab4dab, GEnum88_27 = -1716305817, GEnum88_v28, GEnum88_29, GEnum88_30, GEnum88_31, GEnum88_v32 = 0x4b, GEnum88_33, GEnum88_34, GEnum88_35 = -0X5f, GEnum88_36 = 0X32ee5ca4, GEnum88_37, GEnum88_38 = 0x1E11FC82, GEnum88_v39, GEnum88_40, GEnum88_v41, GEnum88_v42 = -0x3ec23aa7, GEnum88_43, GEnum88_44, GEnum88_45 = -0X77, GEnum88_46, GEnum88_v47, GEnum88_48, GEnum88_49 = -0x2827C1DF, GEnum88_50 = 0X3b037077, GEnum88_v51, GEnum88_52 = -2122628573, GEnum88_53, GEnum88_54=-0x65, GEnum88_55, GEnum88_v56, GEnum88_57, GEnum88_v58, GEnum88_v59 = 170861211, GEnum88_v60 = 0Xbc, GEnum88_61 = 0X1f, GEnum88_62, GEnum88_63, GEnum88_64, GEnum88_v65, GEnum88_66, GEnum88_v67, GEnum88_v68, GEnum88_v69 = -0x1095C47, GEnum88_70, GEnum88_71, GEnum88_72 = -0xc6, GEnum88_v73, GEnum88_v74 = 0X54c1ed55, GEnum88_75, GEnum88_v76, GEnum88_v77, GEnum88_v78 = 0xa1f159a, GEnum88_v79, GEnum88_80 = 0x45A665A0, GEnum88_v81, GEnum88_82, GEnum88_83, GEnum88_84 = -198, GEnum88_v85, GEnum88_v86, GEnum88_87 = -0x506cea11)
template <> inline const EnumModel &enumModel<GEnum88>() { static EnumModel m{"GEnum88", sizeof(GEnum88), {{"GEnum88_v0", (uint64_t)GEnum88::GEnum88_v0}, {"GEnum88_1", (uint64_t)GEnum88::GEnum88_1}, {"GEnum88_v2", (uint64_t)GEnum88::GEnum88_v2}, {"GEnum88_3", (uint64_t)GEnum88::GEnum88_3}, {"GEnum88_v4", (uint64_t)GEnum88::GEnum88_v4}, {"GEnum88_5", (uint64_t)GEnum88::GEnum88_5}, {"GEnum88_6", (uint64_t)GEnum88::GEnum88_6}, {"GEnum88_7", (uint64_t)GEnum88::GEnum88_7}, {"GEnum88_8", (uint64_t)GEnum88::GEnum88_8}, {"GEnum88_v9", (uint64_t)GEnum88::GEnum88_v9}, {"GEnum88_10", (uint64_t)GEnum88::GEnum88_10}, {"GEnum88_11", (uint64_t)GEnum88::GEnum88_11}, {"GEnum88_v12", (uint64_t)GEnum88::GEnum88_v12}, {"GEnum88_13", (uint64_t)GEnum88::GEnum88_13}, {"GEnum88_v14", (uint64_t)GEnum88::GEnum88_v14}, {"GEnum88_15", (uint64_t)GEnum88::GEnum88_15}, {"GEnum88_v16", (uint64_t)GEnum88::GEnum88_v16}, {"GEnum88_v17", (uint64_t)GEnum88::GEnum88_v17}, {"GEnum88_18", (uint64_t)GEnum88::GEnum88_18}, {"GEnum88_19", (uint64_t)GEnum88::GEnum88_19}, {"GEnum88_20", (uint64_t)GEnum88::GEnum88_20}, {"GEnum88_21", (uint64_t)GEnum88::GEnum88_21}, {"GEnum88_v22", (uint64_t)GEnum88::GEnum88_v22}, {"GEnum88_23", (uint64_t)GEnum88::GEnum88_23}, {"GEnum88_v24", (uint64_t)GEnum88::GEnum88_v24}, {"GEnum88_25", (uint64_t)GEnum88::GEnum88_25}, {"GEnum88_v26", (uint64_t)GEnum88::GEnum88_v26}, {"GEnum88_27", (uint64_t)GEnum88::GEnum88_27}, {"GEnum88_v28", (uint64_t)GEnum88::GEnum88_v28}, {"GEnum88_29", (uint64_t)GEnum88::GEnum88_29}, {"GEnum88_30", (uint64_t)GEnum88::GEnum88_30}, {"GEnum88_31", (uint64_t)GEnum88::GEnum88_31}, {"GEnum88_v32", (uint64_t)GEnum88::GEnum88_v32}, {"GEnum88_33", (uint64_t)GEnum88::GEnum88_33}, {"GEnum88_34", (uint64_t)GEnum88::GEnum88_34}, {"GEnum88_35", (uint64_t)GEnum88::GEnum88_35}, {"GEnum88_36", (uint64_t)GEnum88::GEnum88_36}, {"GEnum88_37", (uint64_t)GEnum88::GEnum88_37}, {"GEnum88_38", (uint64_t)GEnum88::GEnum88_38}, {"GEnum88_v39", (uint64_t)GEnum88::GEnum88_v39}, {"GEnum88_40", (uint64_t)GEnum88::GEnum88_40}, {"GEnum88_v41", (uint64_t)GEnum88::GEnum88_v41}, {"GEnum88_v42", (uint64_t)GEnum88::GEnum88_v42}, {"GEnum88_43", (uint64_t)GEnum88::GEnum88_43}, {"GEnum88_44", (uint64_t)GEnum88::GEnum88_44}, {"GEnum88_45", (uint64_t)GEnum88::GEnum88_45}, {"GEnum88_46", (uint64_t)GEnum88::GEnum88_46}, {"GEnum88_v47", (uint64_t)GEnum88::GEnum88_v47}, {"GEnum88_48", (uint64_t)GEnum88::GEnum88_48}, {"GEnum88_49", (uint64_t)GEnum88::GEnum88_49}, {"GEnum88_50", (uint64_t)GEnum88::GEnum88_50}, {"GEnum88_v51", (uint64_t)GEnum88::GEnum88_v51}, {"GEnum88_52", (uint64_t)GEnum88::GEnum88_52}, {"GEnum88_53", (uint64_t)GEnum88::GEnum88_53}, {"GEnum88_54", (uint64_t)GEnum88::GEnum88_54}, {"GEnum88_55", (uint64_t)GEnum88::GEnum88_55}, {"GEnum88_v56", (uint64_t)GEnum88::GEnum88_v56}, {"GEnum88_57", (uint64_t)GEnum88::GEnum88_57}, {"GEnum88_v58", (uint64_t)GEnum88::GEnum88_v58}, {"GEnum88_v59", (uint64_t)GEnum88::GEnum88_v59}, {"GEnum88_v60", (uint64_t)GEnum88::GEnum88_v60}, {"GEnum88_61", (uint64_t)GEnum88::GEnum88_61}, {"GEnum88_62", (uint64_t)GEnum88::GEnum88_62}, {"GEnum88_63", (uint64_t)GEnum88::GEnum88_63}, {"GEnum88_64", (uint64_t)GEnum88::GEnum88_64}, {"GEnum88_v65", (uint64_t)GEnum88::GEnum88_v65}, {"GEnum88_66", (uint64_t)GEnum88::GEnum88_66}, {"GEnum88_v67", (uint64_t)GEnum88::GEnum88_v67}, {"GEnum88_v68", (uint64_t)GEnum88::GEnum88_v68}, {"GEnum88_v69", (uint64_t)GEnum88::GEnum88_v69}, {"GEnum88_70", (uint64_t)GEnum88::GEnum88_70}, {"GEnum88_71", (uint64_t)GEnum88::GEnum88_71}, {"GEnum88_72", (uint64_t)GEnum88::GEnum88_72}, {"GEnum88_v73", (uint64_t)GEnum88::GEnum88_v73}, {"GEnum88_v74", (uint64_t)GEnum88::GEnum88_v74}, {"GEnum88_75", (uint64_t)GEnum88::GEnum88_75}, {"GEnum88_v76", (uint64_t)GEnum88::GEnum88_v76}, {"GEnum88_v77", (uint64_t)GEnum88::GEnum88_v77}, {"GEnum88_v78", (uint64_t)GEnum88::GEnum88_v78}, {"GEnum88_v79", (uint64_t)GEnum88::GEnum88_v79}, {"GEnum88_80", (uint64_t)GEnum88::GEnum88_80}, {"GEnum88_v81", (uint64_t)GEnum88::GEnum88_v81}, {"GEnum88_82", (uint64_t)GEnum88::GEnum88_82}, {"GEnum88_83", (uint64_t)GEnum88::GEnum88_83}, {"GEnum88_84", (uint64_t)GEnum88::GEnum88_84}, {"GEnum88_v85", (uint64_t)GEnum88::GEnum88_v85}, {"GEnum88_v86", (uint64_t)GEnum88::GEnum88_v86}, {"GEnum88_87", (uint64_t)GEnum88::GEnum88_87}}}; return m; }
REFLECTOR_CREATE(GEnum89, ENUM, 2, CLASS, 8, GEnum89_v0, GEnum89_v1, GEnum89_2, GEnum89_v3, GEnum89_4=0x74, GEnum89_5, GEnum89_v6=43, GEnum89_7, GEnum89_8, GEnum89_9, GEnum89_v10, GEnum89_11, GEnum89_v12 = 0x1B, GEnum89_13, GEnum89_v14, GEnum89_15 = 116, GEnum89_16, GEnum89_v17, GEnum89_18, GEnum89_v19, GEnum89_20, GEnum89_v21, GEnum89_22, GEnum89_23, GEnum89_24 = 0X50, GEnum89_25, GEnum89_v26 = 0X7a, GEnum89_27 = 0X9b, GEnum89_v28, GEnum89_v29 = 0X96, GEnum89_v30, GEnum89_31, GEnum89_v32, GEnum89_v33, GEnum89_v34 = 0xA4, GEnum89_35, GEnum89_v36 = 115, GEnum89_v37=0x94, GEnum89_v38, GEnum89_v39, GEnum89_v40, GEnum89_41 = 0x1b, GEnum89_v42, GEnum89_v43, GEnum89_v44, GEnum89_45=0x85, GEnum89_46, GEnum89_v47, GEnum89_v48, GEnum89_49, GEnum89_v50, GEnum89_51 = 0X77, GEnum89_v52, GEnum89_v53, GEnum89_v54, GEnum89_v55, GEnum89_56, GEnum89_57 = 137, GEnum89_58 = 0x97, GEnum89_59, GEnum89_60=0x3A, GEnum89_v61, GEnum89_62, GEnum89_v63, GEnum89_64, GEnum89_65, GEnum89_v66, GEnum89_v67, GEnum89_68, GEnum89_69 = 0x8F, GEnum89_70 = 0x16, GEnum89_v71 = 97, GEnum89_v72, GEnum89_v73 = 0X77, GEnum89_74, GEnum89_75, GEnum89_76, GEnum89_v77 = 2, GEnum89_v78, GEnum89_79, GEnum89_v80, GEnum89_v81 = 0x44, GEnum89_82, GEnum89_83, GEnum89_84, GEnum89_v85 = 0x39, GEnum89_v86 = 0X65, GEnum89_87, GEnum89_88)
template <> inline const EnumModel &enumModel<GEnum89>() { static EnumModel m{"GEnum89", sizeof(GEnum89), {{"GEnum89_v0", (uint64_t)GEnum89::GEnum89_v0}, {"GEnum89_v1", (uint64_t)GEnum89::GEnum89_v1}, {"GEnum89_2", (uint64_t)GEnum89::GEnum89_2}, {"GEnum89_v3", (uint64_t)GEnum89::GEnum89_v3}, {"GEnum89_4", (uint64_t)GEnum89::GEnum89_4}, {"GEnum89_5", (uint64_t)GEnum89::GEnum89_5}, {"GEnum89_v6", (uint64_t)GEnum89::GEnum89_v6}, {"GEnum89_7", (uint64_t)GEnum89::GEnum89_7}, {"GEnum89_8", (uint64_t)GEnum89::GEnum89_8}, {"GEnum89_9", (uint64_t)GEnum89::GEnum89_9}, {"GEnum89_v10", (uint64_t)GEnum89::GEnum89_v10}, {"GEnum89_11", (uint64_t)GEnum89::GEnum89_11}, {"GEnum89_v12", (uint64_t)GEnum89::GEnum89_v12}, {"GEnum89_13", (uint64_t)GEnum89::GEnum89_13}, {"GEnum89_v14", (uint64_t)GEnum89::GEnum89_v14}, {"GEnum89_15", (uint64_t)GEnum89::GEnum89_15}, {"GEnum89_16", (uint64_t)GEnum89::GEnum89_16}, {"GEnum89_v17", (uint64_t)GEnum89::GEnum89_v17}, {"GEnum89_18", (uint64_t)GEnum89::GEnum89_18}, {"GEnum89_v19", (uint64_t)GEnum89::GEnum89_v19}, {"GEnum89_20", (uint64_t)GEnum89::GEnum89_20}, {"GEnum89_v21", (uint64_t)GEnum89::GEnum89_v21}, {"GEnum89_22", (uint64_t)GEnum89::GEnum89_22}, {"GEnum89_23", (uint64_t)GEnum89::GEnum89_23}, {"GEnum89_24", (uint64_t)GEnum89::GEnum89_24}, {"GEnum89_25", (uint64_t)GEnum89::GEnum89_25}, {"GEnum89_v26", (uint64_t)GEnum89::GEnum89_v26}, {"GEnum89_27", (uint64_t)GEnum89::GEnum89_27}, {"GEnum89_v28", (uint64_t)GEnum89::GEnum89_v28}, {"GEnum89_v29", (uint64_t)GEnum89::GEnum89_v29}, {"GEnum89_v30", (uint64_t)GEnum89::GEnum89_v30}, {"GEnum89_31", (uint64_t)GEnum89::GEnum89_31}, {"GEnum89_v32", (uint64_t)GEnum89::GEnum89_v32}, {"GEnum89_v33", (uint64_t)GEnum89::GEnum89_v33}, {"GEnum89_v34", (uint64_t)GEnum89::GEnum89_v34}, {"GEnum89_35", (uint64_t)GEnum89::GEnum89_35}, {"GEnum89_v36", (uint64_t)GEnum89::GEnum89_v36}, {"GEnum89_v37", (uint64_t)GEnum89::GEnum89_v37}, {"GEnum89_v38", (uint64_t)GEnum89::GEnum89_v38}, {"GEnum89_v39", (uint64_t)GEnum89::GEnum89_v39}, {"GEnum89_v40", (uint64_t)GEnum89::GEnum89_v40}, {"GEnum89_41", (uint64_t)GEnum89::GEnum89_41}, {"GEnum89_v42", (uint64_t)GEnum89::GEnum89_v42}, {"GEnum89_v43", (uint64_t)GEnum89::GEnum89_v43}, {"GEnum89_v44", (uint64_t)GEnum89::GEnum89_v44}, {"GEnum89_45", (uint64_t)GEnum89::GEnum89_45}, {"GEnum89_46", (uint64_t)GEnum89::GEnum89_46}, {"GEnum89_v47", (uint64_t)GEnum89::GEnum89_v47}, {"GEnum89_v48", (uint64_t)GEnum89::GEnum89_v48}, {"GEnum89_49", (uint64_t)GEnum89::GEnum89_49}, {"GEnum89_v50", (uint64_t)GEnum89::GEnum89_v50}, {"GEnum89_51", (uint64_t)GEnum89::GEnum89_51}, {"GEnum89_v52", (uint64_t)GEnum89::GEnum89_v52}, {"GEnum89_v53", (uint64_t)GEnum89::GEnum89_v53}, {"GEnum89_v54", (uint64_t)GEnum89::GEnum89_v54}, {"GEnum89_v55", (uint64_t)GEnum89::GEnum89_v55}, {"GEnum89_56", (uint64_t)GEnum89::GEnum89_56}, {"GEnum89_57", (uint64_t)GEnum89::GEnum89_57}, {"GEnum89_58", (uint64_t)GEnum89::GEnum89_58}, {"GEnum89_59", (uint64_t)GEnum89::GEnum89_59}, {"GEnum89_60", (uint64_t)GEnum89::GEnum89_60}, {"GEnum89_v61", (uint64_t)GEnum89::GEnum89_v61}, {"GEnum89_62", (uint64_t)GEnum89::GEnum89_62}, {"GEnum89_v63", (uint64_t)GEnum89::GEnum89_v63}, {"GEnum89_64", (uint64_t)GEnum89::GEnum89_64}, {"GEnum89_65", (uint64_t)GEnum89::GEnum89_65}, {"GEnum89_v66", (uint64_t)GEnum89::GEnum89_v66}, {"GEnum89_v67", (uint64_t)GEnum89::GEnum89_v67}, {"GEnum89_68", (uint64_t)GEnum89::GEnum89_68}, {"GEnum89_69", (uint64_t)GEnum89::GEnum89_69}, {"GEnum89_70", (uint64_t)GEnum89::GEnum89_70}, {"GEnum89_v71", (uint64_t)GEnum89::GEnum89_v71}, {"GEnum89_v72", (uint64_t)GEnum89::GEnum89_v72}, {"GEnum89_v73", (uint64_t)GEnum89::GEnum89_v73}, {"GEnum89_74", (uint64_t)GEnum89::GEnum89_74}, {"GEnum89_75", (uint64_t)GEnum89::GEnum89_75}, {"GEnum89_76", (uint64_t)GEnum89::GEnum89_76}, {"GEnum89_v77", (uint64_t)GEnum89::GEnum89_v77}, {"GEnum89_v78", (uint64_t)GEnum89::GEnum89_v78}, {"GEnum89_79", (uint64_t)GEnum89::GEnum89_79}, {"GEnum89_v80", (uint64_t)GEnum89::GEnum89_v80}, {"GEnum89_v81", (uint64_t)GEnum89::GEnum89_v81}, {"GEnum89_82", (uint64_t)GEnum89::GEnum89_82}, {"GEnum89_83", (uint64_t)GEnum89::GEnum89_83}, {"GEnum89_84", (uint64_t)GEnum89::GEnum89_84}, {"GEnum89_v85", (uint64_t)GEnum89::GEnum89_v85}, {"GEnum89_v86", (uint64_t)GEnum89::GEnum89_v86}, {"GEnum89_87", (uint64_t)GEnum89::GEnum89_87}, {"GEnum89_88", (uint64_t)GEnum89::GEnum89_88}}}; return m; }
#define ALL_GEN_ENUMS(X) X(GEnum1) X(GEnum2) X(GEnum3) X(GEnum5) X(GEnum9) X(GEnum16) X(GEnum27) X(GEnum40) X(GEnum58) X(GEnum73) X(GEnum84) X(GEnum85) X(GEnum86) X(GEnum87) X(GEnum88) X(GEnum89)
