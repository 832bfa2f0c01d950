// generated by tools/gen_layouts.py
#pragma once
#include "datas/bitfield.hpp"
typedef BitFieldType<uint8, BitMemberDecl<0, 1>, BitMemberDecl<1, 7>> L0;
template <class F> void members(L0 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 7>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 7>, BitMemberDecl<1, 1>> L1;
template <class F> void members(L1 *, F f) { f.template op<BitMemberDecl<0, 7>>(); f.template op<BitMemberDecl<1, 1>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 4>, BitMemberDecl<1, 4>> L2;
template <class F> void members(L2 *, F f) { f.template op<BitMemberDecl<0, 4>>(); f.template op<BitMemberDecl<1, 4>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 1>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>, BitMemberDecl<7, 1>> L3;
template <class F> void members(L3 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 1>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 1>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 2>, BitMemberDecl<4, 1>> L4;
template <class F> void members(L4 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 2>>(); f.template op<BitMemberDecl<4, 1>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 2>, BitMemberDecl<1, 4>, BitMemberDecl<2, 2>> L5;
template <class F> void members(L5 *, F f) { f.template op<BitMemberDecl<0, 2>>(); f.template op<BitMemberDecl<1, 4>>(); f.template op<BitMemberDecl<2, 2>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 2>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>> L6;
template <class F> void members(L6 *, F f) { f.template op<BitMemberDecl<0, 2>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 1>, BitMemberDecl<1, 1>, BitMemberDecl<2, 4>, BitMemberDecl<3, 2>> L7;
template <class F> void members(L7 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 4>>(); f.template op<BitMemberDecl<3, 2>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 3>, BitMemberDecl<1, 1>> L8;
template <class F> void members(L8 *, F f) { f.template op<BitMemberDecl<0, 3>>(); f.template op<BitMemberDecl<1, 1>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 5>, BitMemberDecl<1, 1>, BitMemberDecl<2, 2>> L9;
template <class F> void members(L9 *, F f) { f.template op<BitMemberDecl<0, 5>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 2>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 4>, BitMemberDecl<1, 2>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>> L10;
template <class F> void members(L10 *, F f) { f.template op<BitMemberDecl<0, 4>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 1>, BitMemberDecl<1, 2>, BitMemberDecl<2, 3>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>> L11;
template <class F> void members(L11 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 3>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 1>, BitMemberDecl<1, 15>> L12;
template <class F> void members(L12 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 15>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 15>, BitMemberDecl<1, 1>> L13;
template <class F> void members(L13 *, F f) { f.template op<BitMemberDecl<0, 15>>(); f.template op<BitMemberDecl<1, 1>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 8>, BitMemberDecl<1, 8>> L14;
template <class F> void members(L14 *, F f) { f.template op<BitMemberDecl<0, 8>>(); f.template op<BitMemberDecl<1, 8>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 1>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>, BitMemberDecl<7, 1>, BitMemberDecl<8, 1>, BitMemberDecl<9, 1>, BitMemberDecl<10, 1>, BitMemberDecl<11, 1>, BitMemberDecl<12, 1>, BitMemberDecl<13, 1>, BitMemberDecl<14, 1>, BitMemberDecl<15, 1>> L15;
template <class F> void members(L15 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 1>>(); f.template op<BitMemberDecl<8, 1>>(); f.template op<BitMemberDecl<9, 1>>(); f.template op<BitMemberDecl<10, 1>>(); f.template op<BitMemberDecl<11, 1>>(); f.template op<BitMemberDecl<12, 1>>(); f.template op<BitMemberDecl<13, 1>>(); f.template op<BitMemberDecl<14, 1>>(); f.template op<BitMemberDecl<15, 1>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 1>, BitMemberDecl<1, 2>, BitMemberDecl<2, 2>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>, BitMemberDecl<7, 1>, BitMemberDecl<8, 1>, BitMemberDecl<9, 1>, BitMemberDecl<10, 2>, BitMemberDecl<11, 2>> L16;
template <class F> void members(L16 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 2>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 1>>(); f.template op<BitMemberDecl<8, 1>>(); f.template op<BitMemberDecl<9, 1>>(); f.template op<BitMemberDecl<10, 2>>(); f.template op<BitMemberDecl<11, 2>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 2>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>> L17;
template <class F> void members(L17 *, F f) { f.template op<BitMemberDecl<0, 2>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 1>, BitMemberDecl<1, 3>, BitMemberDecl<2, 1>, BitMemberDecl<3, 2>, BitMemberDecl<4, 1>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>, BitMemberDecl<7, 1>, BitMemberDecl<8, 2>, BitMemberDecl<9, 1>, BitMemberDecl<10, 1>, BitMemberDecl<11, 1>> L18;
template <class F> void members(L18 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 3>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 2>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 1>>(); f.template op<BitMemberDecl<8, 2>>(); f.template op<BitMemberDecl<9, 1>>(); f.template op<BitMemberDecl<10, 1>>(); f.template op<BitMemberDecl<11, 1>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 2>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>> L19;
template <class F> void members(L19 *, F f) { f.template op<BitMemberDecl<0, 2>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 3>, BitMemberDecl<1, 4>, BitMemberDecl<2, 1>, BitMemberDecl<3, 6>, BitMemberDecl<4, 2>> L20;
template <class F> void members(L20 *, F f) { f.template op<BitMemberDecl<0, 3>>(); f.template op<BitMemberDecl<1, 4>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 6>>(); f.template op<BitMemberDecl<4, 2>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 1>, BitMemberDecl<1, 3>, BitMemberDecl<2, 7>, BitMemberDecl<3, 3>, BitMemberDecl<4, 2>> L21;
template <class F> void members(L21 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 3>>(); f.template op<BitMemberDecl<2, 7>>(); f.template op<BitMemberDecl<3, 3>>(); f.template op<BitMemberDecl<4, 2>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 8>, BitMemberDecl<1, 4>, BitMemberDecl<2, 4>> L22;
template <class F> void members(L22 *, F f) { f.template op<BitMemberDecl<0, 8>>(); f.template op<BitMemberDecl<1, 4>>(); f.template op<BitMemberDecl<2, 4>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 1>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>, BitMemberDecl<7, 1>, BitMemberDecl<8, 1>> L23;
template <class F> void members(L23 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 1>>(); f.template op<BitMemberDecl<8, 1>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 11>, BitMemberDecl<1, 5>> L24;
template <class F> void members(L24 *, F f) { f.template op<BitMemberDecl<0, 11>>(); f.template op<BitMemberDecl<1, 5>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 2>, BitMemberDecl<1, 1>, BitMemberDecl<2, 2>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>> L25;
template <class F> void members(L25 *, F f) { f.template op<BitMemberDecl<0, 2>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 2>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 1>, BitMemberDecl<1, 31>> L26;
template <class F> void members(L26 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 31>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 31>, BitMemberDecl<1, 1>> L27;
template <class F> void members(L27 *, F f) { f.template op<BitMemberDecl<0, 31>>(); f.template op<BitMemberDecl<1, 1>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 16>, BitMemberDecl<1, 16>> L28;
template <class F> void members(L28 *, F f) { f.template op<BitMemberDecl<0, 16>>(); f.template op<BitMemberDecl<1, 16>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 15>, BitMemberDecl<1, 2>, BitMemberDecl<2, 15>> L29;
template <class F> void members(L29 *, F f) { f.template op<BitMemberDecl<0, 15>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 15>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 4>, BitMemberDecl<1, 3>, BitMemberDecl<2, 2>, BitMemberDecl<3, 23>> L30;
template <class F> void members(L30 *, F f) { f.template op<BitMemberDecl<0, 4>>(); f.template op<BitMemberDecl<1, 3>>(); f.template op<BitMemberDecl<2, 2>>(); f.template op<BitMemberDecl<3, 23>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 2>, BitMemberDecl<1, 5>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 2>> L31;
template <class F> void members(L31 *, F f) { f.template op<BitMemberDecl<0, 2>>(); f.template op<BitMemberDecl<1, 5>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 2>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 29>, BitMemberDecl<1, 3>> L32;
template <class F> void members(L32 *, F f) { f.template op<BitMemberDecl<0, 29>>(); f.template op<BitMemberDecl<1, 3>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 3>, BitMemberDecl<1, 2>, BitMemberDecl<2, 1>, BitMemberDecl<3, 4>, BitMemberDecl<4, 1>, BitMemberDecl<5, 4>, BitMemberDecl<6, 4>, BitMemberDecl<7, 4>, BitMemberDecl<8, 2>> L33;
template <class F> void members(L33 *, F f) { f.template op<BitMemberDecl<0, 3>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 4>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 4>>(); f.template op<BitMemberDecl<6, 4>>(); f.template op<BitMemberDecl<7, 4>>(); f.template op<BitMemberDecl<8, 2>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 5>, BitMemberDecl<1, 2>, BitMemberDecl<2, 2>, BitMemberDecl<3, 1>, BitMemberDecl<4, 3>, BitMemberDecl<5, 6>, BitMemberDecl<6, 1>, BitMemberDecl<7, 2>, BitMemberDecl<8, 1>, BitMemberDecl<9, 1>, BitMemberDecl<10, 6>, BitMemberDecl<11, 2>> L34;
template <class F> void members(L34 *, F f) { f.template op<BitMemberDecl<0, 5>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 2>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 3>>(); f.template op<BitMemberDecl<5, 6>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 2>>(); f.template op<BitMemberDecl<8, 1>>(); f.template op<BitMemberDecl<9, 1>>(); f.template op<BitMemberDecl<10, 6>>(); f.template op<BitMemberDecl<11, 2>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 4>, BitMemberDecl<1, 3>, BitMemberDecl<2, 3>, BitMemberDecl<3, 2>, BitMemberDecl<4, 3>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>> L35;
template <class F> void members(L35 *, F f) { f.template op<BitMemberDecl<0, 4>>(); f.template op<BitMemberDecl<1, 3>>(); f.template op<BitMemberDecl<2, 3>>(); f.template op<BitMemberDecl<3, 2>>(); f.template op<BitMemberDecl<4, 3>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 1>, BitMemberDecl<1, 21>, BitMemberDecl<2, 10>> L36;
template <class F> void members(L36 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 21>>(); f.template op<BitMemberDecl<2, 10>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 1>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 3>, BitMemberDecl<5, 1>, BitMemberDecl<6, 5>, BitMemberDecl<7, 2>, BitMemberDecl<8, 2>> L37;
template <class F> void members(L37 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 3>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 5>>(); f.template op<BitMemberDecl<7, 2>>(); f.template op<BitMemberDecl<8, 2>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 26>, BitMemberDecl<1, 6>> L38;
template <class F> void members(L38 *, F f) { f.template op<BitMemberDecl<0, 26>>(); f.template op<BitMemberDecl<1, 6>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 2>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 8>> L39;
template <class F> void members(L39 *, F f) { f.template op<BitMemberDecl<0, 2>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 8>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 1>, BitMemberDecl<1, 63>> L40;
template <class F> void members(L40 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 63>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 63>, BitMemberDecl<1, 1>> L41;
template <class F> void members(L41 *, F f) { f.template op<BitMemberDecl<0, 63>>(); f.template op<BitMemberDecl<1, 1>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 32>, BitMemberDecl<1, 32>> L42;
template <class F> void members(L42 *, F f) { f.template op<BitMemberDecl<0, 32>>(); f.template op<BitMemberDecl<1, 32>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 31>, BitMemberDecl<1, 2>, BitMemberDecl<2, 31>> L43;
template <class F> void members(L43 *, F f) { f.template op<BitMemberDecl<0, 31>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 31>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 33>, BitMemberDecl<1, 31>> L44;
template <class F> void members(L44 *, F f) { f.template op<BitMemberDecl<0, 33>>(); f.template op<BitMemberDecl<1, 31>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 34>, BitMemberDecl<1, 20>> L45;
template <class F> void members(L45 *, F f) { f.template op<BitMemberDecl<0, 34>>(); f.template op<BitMemberDecl<1, 20>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 10>, BitMemberDecl<1, 48>, BitMemberDecl<2, 6>> L46;
template <class F> void members(L46 *, F f) { f.template op<BitMemberDecl<0, 10>>(); f.template op<BitMemberDecl<1, 48>>(); f.template op<BitMemberDecl<2, 6>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 1>, BitMemberDecl<1, 13>, BitMemberDecl<2, 1>, BitMemberDecl<3, 2>, BitMemberDecl<4, 11>, BitMemberDecl<5, 3>, BitMemberDecl<6, 3>> L47;
template <class F> void members(L47 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 13>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 2>>(); f.template op<BitMemberDecl<4, 11>>(); f.template op<BitMemberDecl<5, 3>>(); f.template op<BitMemberDecl<6, 3>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 6>, BitMemberDecl<1, 1>, BitMemberDecl<2, 5>, BitMemberDecl<3, 9>, BitMemberDecl<4, 10>, BitMemberDecl<5, 9>, BitMemberDecl<6, 4>, BitMemberDecl<7, 18>, BitMemberDecl<8, 2>> L48;
template <class F> void members(L48 *, F f) { f.template op<BitMemberDecl<0, 6>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 5>>(); f.template op<BitMemberDecl<3, 9>>(); f.template op<BitMemberDecl<4, 10>>(); f.template op<BitMemberDecl<5, 9>>(); f.template op<BitMemberDecl<6, 4>>(); f.template op<BitMemberDecl<7, 18>>(); f.template op<BitMemberDecl<8, 2>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 13>, BitMemberDecl<1, 3>> L49;
template <class F> void members(L49 *, F f) { f.template op<BitMemberDecl<0, 13>>(); f.template op<BitMemberDecl<1, 3>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 26>, BitMemberDecl<1, 2>, BitMemberDecl<2, 2>, BitMemberDecl<3, 3>, BitMemberDecl<4, 3>, BitMemberDecl<5, 2>, BitMemberDecl<6, 3>, BitMemberDecl<7, 8>, BitMemberDecl<8, 15>> L50;
template <class F> void members(L50 *, F f) { f.template op<BitMemberDecl<0, 26>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 2>>(); f.template op<BitMemberDecl<3, 3>>(); f.template op<BitMemberDecl<4, 3>>(); f.template op<BitMemberDecl<5, 2>>(); f.template op<BitMemberDecl<6, 3>>(); f.template op<BitMemberDecl<7, 8>>(); f.template op<BitMemberDecl<8, 15>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 7>, BitMemberDecl<1, 7>, BitMemberDecl<2, 13>> L51;
template <class F> void members(L51 *, F f) { f.template op<BitMemberDecl<0, 7>>(); f.template op<BitMemberDecl<1, 7>>(); f.template op<BitMemberDecl<2, 13>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 32>, BitMemberDecl<1, 2>, BitMemberDecl<2, 3>, BitMemberDecl<3, 23>, BitMemberDecl<4, 4>> L52;
template <class F> void members(L52 *, F f) { f.template op<BitMemberDecl<0, 32>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 3>>(); f.template op<BitMemberDecl<3, 23>>(); f.template op<BitMemberDecl<4, 4>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 2>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>> L53;
template <class F> void members(L53 *, F f) { f.template op<BitMemberDecl<0, 2>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 8>> L54;
template <class F> void members(L54 *, F f) { f.template op<BitMemberDecl<0, 8>>(); }
typedef BitFieldType<uint8, BitMemberDecl<0, 5>> L55;
template <class F> void members(L55 *, F f) { f.template op<BitMemberDecl<0, 5>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 16>> L56;
template <class F> void members(L56 *, F f) { f.template op<BitMemberDecl<0, 16>>(); }
typedef BitFieldType<uint16, BitMemberDecl<0, 10>> L57;
template <class F> void members(L57 *, F f) { f.template op<BitMemberDecl<0, 10>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 32>> L58;
template <class F> void members(L58 *, F f) { f.template op<BitMemberDecl<0, 32>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 20>> L59;
template <class F> void members(L59 *, F f) { f.template op<BitMemberDecl<0, 20>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 64>> L60;
template <class F> void members(L60 *, F f) { f.template op<BitMemberDecl<0, 64>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 40>> L61;
template <class F> void members(L61 *, F f) { f.template op<BitMemberDecl<0, 40>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 1>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>, BitMemberDecl<7, 1>, BitMemberDecl<8, 1>, BitMemberDecl<9, 1>, BitMemberDecl<10, 1>, BitMemberDecl<11, 1>, BitMemberDecl<12, 1>, BitMemberDecl<13, 1>, BitMemberDecl<14, 1>, BitMemberDecl<15, 1>, BitMemberDecl<16, 1>, BitMemberDecl<17, 1>, BitMemberDecl<18, 1>, BitMemberDecl<19, 1>, BitMemberDecl<20, 1>, BitMemberDecl<21, 1>, BitMemberDecl<22, 1>, BitMemberDecl<23, 1>, BitMemberDecl<24, 1>, BitMemberDecl<25, 1>, BitMemberDecl<26, 1>, BitMemberDecl<27, 1>, BitMemberDecl<28, 1>, BitMemberDecl<29, 1>, BitMemberDecl<30, 1>, BitMemberDecl<31, 1>, BitMemberDecl<32, 1>, BitMemberDecl<33, 1>, BitMemberDecl<34, 1>, BitMemberDecl<35, 1>, BitMemberDecl<36, 1>, BitMemberDecl<37, 1>, BitMemberDecl<38, 1>, BitMemberDecl<39, 1>, BitMemberDecl<40, 1>, BitMemberDecl<41, 1>, BitMemberDecl<42, 1>, BitMemberDecl<43, 1>, BitMemberDecl<44, 1>, BitMemberDecl<45, 1>, BitMemberDecl<46, 1>, BitMemberDecl<47, 1>, BitMemberDecl<48, 1>, BitMemberDecl<49, 1>, BitMemberDecl<50, 1>, BitMemberDecl<51, 1>, BitMemberDecl<52, 1>, BitMemberDecl<53, 1>, BitMemberDecl<54, 1>, BitMemberDecl<55, 1>, BitMemberDecl<56, 1>, BitMemberDecl<57, 1>, BitMemberDecl<58, 1>, BitMemberDecl<59, 1>, BitMemberDecl<60, 1>, BitMemberDecl<61, 1>, BitMemberDecl<62, 1>, BitMemberDecl<63, 1>> L62;
template <class F> void members(L62 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 1>>(); f.template op<BitMemberDecl<8, 1>>(); f.template op<BitMemberDecl<9, 1>>(); f.template op<BitMemberDecl<10, 1>>(); f.template op<BitMemberDecl<11, 1>>(); f.template op<BitMemberDecl<12, 1>>(); f.template op<BitMemberDecl<13, 1>>(); f.template op<BitMemberDecl<14, 1>>(); f.template op<BitMemberDecl<15, 1>>(); f.template op<BitMemberDecl<16, 1>>(); f.template op<BitMemberDecl<17, 1>>(); f.template op<BitMemberDecl<18, 1>>(); f.template op<BitMemberDecl<19, 1>>(); f.template op<BitMemberDecl<20, 1>>(); f.template op<BitMemberDecl<21, 1>>(); f.template op<BitMemberDecl<22, 1>>(); f.template op<BitMemberDecl<23, 1>>(); f.template op<BitMemberDecl<24, 1>>(); f.template op<BitMemberDecl<25, 1>>(); f.template op<BitMemberDecl<26, 1>>(); f.template op<BitMemberDecl<27, 1>>(); f.template op<BitMemberDecl<28, 1>>(); f.template op<BitMemberDecl<29, 1>>(); f.template op<BitMemberDecl<30, 1>>(); f.template op<BitMemberDecl<31, 1>>(); f.template op<BitMemberDecl<32, 1>>(); f.template op<BitMemberDecl<33, 1>>(); f.template op<BitMemberDecl<34, 1>>(); f.template op<BitMemberDecl<35, 1>>(); f.template op<BitMemberDecl<36, 1>>(); f.template op<BitMemberDecl<37, 1>>(); f.template op<BitMemberDecl<38, 1>>(); f.template op<BitMemberDecl<39, 1>>(); f.template op<BitMemberDecl<40, 1>>(); f.template op<BitMemberDecl<41, 1>>(); f.template op<BitMemberDecl<42, 1>>(); f.template op<BitMemberDecl<43, 1>>(); f.template op<BitMemberDecl<44, 1>>(); f.template op<BitMemberDecl<45, 1>>(); f.template op<BitMemberDecl<46, 1>>(); f.template op<BitMemberDecl<47, 1>>(); f.template op<BitMemberDecl<48, 1>>(); f.template op<BitMemberDecl<49, 1>>(); f.template op<BitMemberDecl<50, 1>>(); f.template op<BitMemberDecl<51, 1>>(); f.template op<BitMemberDecl<52, 1>>(); f.template op<BitMemberDecl<53, 1>>(); f.template op<BitMemberDecl<54, 1>>(); f.template op<BitMemberDecl<55, 1>>(); f.template op<BitMemberDecl<56, 1>>(); f.template op<BitMemberDecl<57, 1>>(); f.template op<BitMemberDecl<58, 1>>(); f.template op<BitMemberDecl<59, 1>>(); f.template op<BitMemberDecl<60, 1>>(); f.template op<BitMemberDecl<61, 1>>(); f.template op<BitMemberDecl<62, 1>>(); f.template op<BitMemberDecl<63, 1>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 1>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>, BitMemberDecl<7, 1>, BitMemberDecl<8, 1>, BitMemberDecl<9, 1>, BitMemberDecl<10, 1>, BitMemberDecl<11, 1>, BitMemberDecl<12, 1>, BitMemberDecl<13, 1>, BitMemberDecl<14, 1>, BitMemberDecl<15, 1>, BitMemberDecl<16, 1>, BitMemberDecl<17, 1>, BitMemberDecl<18, 1>, BitMemberDecl<19, 1>, BitMemberDecl<20, 1>, BitMemberDecl<21, 1>, BitMemberDecl<22, 1>, BitMemberDecl<23, 1>, BitMemberDecl<24, 1>, BitMemberDecl<25, 1>, BitMemberDecl<26, 1>, BitMemberDecl<27, 1>, BitMemberDecl<28, 1>, BitMemberDecl<29, 1>, BitMemberDecl<30, 1>, BitMemberDecl<31, 1>, BitMemberDecl<32, 1>, BitMemberDecl<33, 1>, BitMemberDecl<34, 1>, BitMemberDecl<35, 1>, BitMemberDecl<36, 1>, BitMemberDecl<37, 1>, BitMemberDecl<38, 1>, BitMemberDecl<39, 1>, BitMemberDecl<40, 24>> L63;
template <class F> void members(L63 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 1>>(); f.template op<BitMemberDecl<8, 1>>(); f.template op<BitMemberDecl<9, 1>>(); f.template op<BitMemberDecl<10, 1>>(); f.template op<BitMemberDecl<11, 1>>(); f.template op<BitMemberDecl<12, 1>>(); f.template op<BitMemberDecl<13, 1>>(); f.template op<BitMemberDecl<14, 1>>(); f.template op<BitMemberDecl<15, 1>>(); f.template op<BitMemberDecl<16, 1>>(); f.template op<BitMemberDecl<17, 1>>(); f.template op<BitMemberDecl<18, 1>>(); f.template op<BitMemberDecl<19, 1>>(); f.template op<BitMemberDecl<20, 1>>(); f.template op<BitMemberDecl<21, 1>>(); f.template op<BitMemberDecl<22, 1>>(); f.template op<BitMemberDecl<23, 1>>(); f.template op<BitMemberDecl<24, 1>>(); f.template op<BitMemberDecl<25, 1>>(); f.template op<BitMemberDecl<26, 1>>(); f.template op<BitMemberDecl<27, 1>>(); f.template op<BitMemberDecl<28, 1>>(); f.template op<BitMemberDecl<29, 1>>(); f.template op<BitMemberDecl<30, 1>>(); f.template op<BitMemberDecl<31, 1>>(); f.template op<BitMemberDecl<32, 1>>(); f.template op<BitMemberDecl<33, 1>>(); f.template op<BitMemberDecl<34, 1>>(); f.template op<BitMemberDecl<35, 1>>(); f.template op<BitMemberDecl<36, 1>>(); f.template op<BitMemberDecl<37, 1>>(); f.template op<BitMemberDecl<38, 1>>(); f.template op<BitMemberDecl<39, 1>>(); f.template op<BitMemberDecl<40, 24>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 31>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>, BitMemberDecl<7, 1>, BitMemberDecl<8, 1>, BitMemberDecl<9, 1>, BitMemberDecl<10, 1>, BitMemberDecl<11, 1>, BitMemberDecl<12, 1>, BitMemberDecl<13, 1>, BitMemberDecl<14, 1>, BitMemberDecl<15, 1>, BitMemberDecl<16, 1>, BitMemberDecl<17, 1>, BitMemberDecl<18, 1>, BitMemberDecl<19, 1>, BitMemberDecl<20, 1>, BitMemberDecl<21, 1>, BitMemberDecl<22, 1>, BitMemberDecl<23, 1>, BitMemberDecl<24, 1>, BitMemberDecl<25, 1>, BitMemberDecl<26, 1>, BitMemberDecl<27, 1>, BitMemberDecl<28, 1>, BitMemberDecl<29, 1>, BitMemberDecl<30, 1>, BitMemberDecl<31, 1>, BitMemberDecl<32, 1>, BitMemberDecl<33, 1>> L64;
template <class F> void members(L64 *, F f) { f.template op<BitMemberDecl<0, 31>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 1>>(); f.template op<BitMemberDecl<8, 1>>(); f.template op<BitMemberDecl<9, 1>>(); f.template op<BitMemberDecl<10, 1>>(); f.template op<BitMemberDecl<11, 1>>(); f.template op<BitMemberDecl<12, 1>>(); f.template op<BitMemberDecl<13, 1>>(); f.template op<BitMemberDecl<14, 1>>(); f.template op<BitMemberDecl<15, 1>>(); f.template op<BitMemberDecl<16, 1>>(); f.template op<BitMemberDecl<17, 1>>(); f.template op<BitMemberDecl<18, 1>>(); f.template op<BitMemberDecl<19, 1>>(); f.template op<BitMemberDecl<20, 1>>(); f.template op<BitMemberDecl<21, 1>>(); f.template op<BitMemberDecl<22, 1>>(); f.template op<BitMemberDecl<23, 1>>(); f.template op<BitMemberDecl<24, 1>>(); f.template op<BitMemberDecl<25, 1>>(); f.template op<BitMemberDecl<26, 1>>(); f.template op<BitMemberDecl<27, 1>>(); f.template op<BitMemberDecl<28, 1>>(); f.template op<BitMemberDecl<29, 1>>(); f.template op<BitMemberDecl<30, 1>>(); f.template op<BitMemberDecl<31, 1>>(); f.template op<BitMemberDecl<32, 1>>(); f.template op<BitMemberDecl<33, 1>>(); }
typedef BitFieldType<uint32, BitMemberDecl<0, 1>, BitMemberDecl<1, 1>, BitMemberDecl<2, 1>, BitMemberDecl<3, 1>, BitMemberDecl<4, 1>, BitMemberDecl<5, 1>, BitMemberDecl<6, 1>, BitMemberDecl<7, 1>, BitMemberDecl<8, 1>, BitMemberDecl<9, 1>, BitMemberDecl<10, 1>, BitMemberDecl<11, 1>, BitMemberDecl<12, 1>, BitMemberDecl<13, 1>, BitMemberDecl<14, 1>, BitMemberDecl<15, 1>, BitMemberDecl<16, 1>, BitMemberDecl<17, 1>, BitMemberDecl<18, 1>, BitMemberDecl<19, 1>, BitMemberDecl<20, 1>, BitMemberDecl<21, 1>, BitMemberDecl<22, 1>, BitMemberDecl<23, 1>, BitMemberDecl<24, 1>, BitMemberDecl<25, 1>, BitMemberDecl<26, 1>, BitMemberDecl<27, 1>, BitMemberDecl<28, 1>, BitMemberDecl<29, 1>, BitMemberDecl<30, 1>, BitMemberDecl<31, 1>> L65;
template <class F> void members(L65 *, F f) { f.template op<BitMemberDecl<0, 1>>(); f.template op<BitMemberDecl<1, 1>>(); f.template op<BitMemberDecl<2, 1>>(); f.template op<BitMemberDecl<3, 1>>(); f.template op<BitMemberDecl<4, 1>>(); f.template op<BitMemberDecl<5, 1>>(); f.template op<BitMemberDecl<6, 1>>(); f.template op<BitMemberDecl<7, 1>>(); f.template op<BitMemberDecl<8, 1>>(); f.template op<BitMemberDecl<9, 1>>(); f.template op<BitMemberDecl<10, 1>>(); f.template op<BitMemberDecl<11, 1>>(); f.template op<BitMemberDecl<12, 1>>(); f.template op<BitMemberDecl<13, 1>>(); f.template op<BitMemberDecl<14, 1>>(); f.template op<BitMemberDecl<15, 1>>(); f.template op<BitMemberDecl<16, 1>>(); f.template op<BitMemberDecl<17, 1>>(); f.template op<BitMemberDecl<18, 1>>(); f.template op<BitMemberDecl<19, 1>>(); f.template op<BitMemberDecl<20, 1>>(); f.template op<BitMemberDecl<21, 1>>(); f.template op<BitMemberDecl<22, 1>>(); f.template op<BitMemberDecl<23, 1>>(); f.template op<BitMemberDecl<24, 1>>(); f.template op<BitMemberDecl<25, 1>>(); f.template op<BitMemberDecl<26, 1>>(); f.template op<BitMemberDecl<27, 1>>(); f.template op<BitMemberDecl<28, 1>>(); f.template op<BitMemberDecl<29, 1>>(); f.template op<BitMemberDecl<30, 1>>(); f.template op<BitMemberDecl<31, 1>>(); }
typedef BitFieldType<uint64, BitMemberDecl<0, 2>, BitMemberDecl<1, 2>, BitMemberDecl<2, 2>, BitMemberDecl<3, 2>, BitMemberDecl<4, 2>, BitMemberDecl<5, 2>, BitMemberDecl<6, 2>, BitMemberDecl<7, 2>, BitMemberDecl<8, 2>, BitMemberDecl<9, 2>, BitMemberDecl<10, 2>, BitMemberDecl<11, 2>, BitMemberDecl<12, 2>, BitMemberDecl<13, 2>, BitMemberDecl<14, 2>, BitMemberDecl<15, 2>, BitMemberDecl<16, 2>, BitMemberDecl<17, 2>, BitMemberDecl<18, 2>, BitMemberDecl<19, 2>, BitMemberDecl<20, 2>, BitMemberDecl<21, 2>, BitMemberDecl<22, 2>, BitMemberDecl<23, 2>, BitMemberDecl<24, 2>, BitMemberDecl<25, 2>, BitMemberDecl<26, 2>, BitMemberDecl<27, 2>, BitMemberDecl<28, 2>, BitMemberDecl<29, 2>, BitMemberDecl<30, 2>, BitMemberDecl<31, 2>> L66;
template <class F> void members(L66 *, F f) { f.template op<BitMemberDecl<0, 2>>(); f.template op<BitMemberDecl<1, 2>>(); f.template op<BitMemberDecl<2, 2>>(); f.template op<BitMemberDecl<3, 2>>(); f.template op<BitMemberDecl<4, 2>>(); f.template op<BitMemberDecl<5, 2>>(); f.template op<BitMemberDecl<6, 2>>(); f.template op<BitMemberDecl<7, 2>>(); f.template op<BitMemberDecl<8, 2>>(); f.template op<BitMemberDecl<9, 2>>(); f.template op<BitMemberDecl<10, 2>>(); f.template op<BitMemberDecl<11, 2>>(); f.template op<BitMemberDecl<12, 2>>(); f.template op<BitMemberDecl<13, 2>>(); f.template op<BitMemberDecl<14, 2>>(); f.template op<BitMemberDecl<15, 2>>(); f.template op<BitMemberDecl<16, 2>>(); f.template op<BitMemberDecl<17, 2>>(); f.template op<BitMemberDecl<18, 2>>(); f.template op<BitMemberDecl<19, 2>>(); f.template op<BitMemberDecl<20, 2>>(); f.template op<BitMemberDecl<21, 2>>(); f.template op<BitMemberDecl<22, 2>>(); f.template op<BitMemberDecl<23, 2>>(); f.template op<BitMemberDecl<24, 2>>(); f.template op<BitMemberDecl<25, 2>>(); f.template op<BitMemberDecl<26, 2>>(); f.template op<BitMemberDecl<27, 2>>(); f.template op<BitMemberDecl<28, 2>>(); f.template op<BitMemberDecl<29, 2>>(); f.template op<BitMemberDecl<30, 2>>(); f.template op<BitMemberDecl<31, 2>>(); }
#define ALL_LAYOUTS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) X(46) X(47) X(48) X(49) X(50) X(51) X(52) X(53) X(54) X(55) X(56) X(57) X(58) X(59) X(60) X(61) X(62) X(63) X(64) X(65) X(66)
static const size_t NUM_LAYOUTS = 67;
static const std::vector<std::vector<unsigned>> LAYOUT_SIZES = {{1, 7}, {7, 1}, {4, 4}, {1, 1, 1, 1, 1, 1, 1, 1}, {1, 1, 1, 2, 1}, {2, 4, 2}, {2, 1, 1, 1, 1}, {1, 1, 4, 2}, {3, 1}, {5, 1, 2}, {4, 2, 1, 1}, {1, 2, 3, 1, 1}, {1, 15}, {15, 1}, {8, 8}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 2, 2}, {2, 1, 1}, {1, 3, 1, 2, 1, 1, 1, 1, 2, 1, 1, 1}, {2, 1, 1, 1}, {3, 4, 1, 6, 2}, {1, 3, 7, 3, 2}, {8, 4, 4}, {1, 1, 1, 1, 1, 1, 1, 1, 1}, {11, 5}, {2, 1, 2, 1, 1}, {1, 31}, {31, 1}, {16, 16}, {15, 2, 15}, {4, 3, 2, 23}, {2, 5, 1, 1, 2}, {29, 3}, {3, 2, 1, 4, 1, 4, 4, 4, 2}, {5, 2, 2, 1, 3, 6, 1, 2, 1, 1, 6, 2}, {4, 3, 3, 2, 3, 1, 1}, {1, 21, 10}, {1, 1, 1, 1, 3, 1, 5, 2, 2}, {26, 6}, {2, 1, 1, 1, 8}, {1, 63}, {63, 1}, {32, 32}, {31, 2, 31}, {33, 31}, {34, 20}, {10, 48, 6}, {1, 13, 1, 2, 11, 3, 3}, {6, 1, 5, 9, 10, 9, 4, 18, 2}, {13, 3}, {26, 2, 2, 3, 3, 2, 3, 8, 15}, {7, 7, 13}, {32, 2, 3, 23, 4}, {2, 1, 1, 1}, {8}, {5}, {16}, {10}, {32}, {20}, {64}, {40}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 24}, {31, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2}};
