// One version of the class "Ver", in a translation unit of its own.
#pragma once
#include "refl_types.hpp"
namespace {
struct Ver {
#if VER == 1
  int32 a; float b; Vector c; En16 d; uint8 e[3]; std::string f; Leaf2 g; es::Flags<Fl8, uint8> h;
#elif VER == 2 // other order and layout
  std::string f; uint8 pad0; es::Flags<Fl8, uint8> h; Leaf2 g; uint8 e[3]; double pad1; int32 a; En16 d; float b; Vector c;
#elif VER == 3 // two members replaced
  int32 a; float b2; Vector c; En16 d; uint8 e[3]; std::string f; uint64 other[4]; es::Flags<Fl8, uint8> h;
#elif VER == 4 // three members have another type
  std::string a; float b; double c; En16 d; uint8 e[3]; std::string f; Leaf2 g; Leaf h;
#elif VER == 5 // one member less
  int32 a; float b; Vector c; En16 d; uint8 e[3]; std::string f; Leaf2 g;
#elif VER == 6 // one member more
  int32 a; float b; Vector c; En16 d; uint8 e[3]; std::string f; Leaf2 g; es::Flags<Fl8, uint8> h; bool i;
#endif
  void ReflectorTag();
};
}
#if VER == 1
REFLECTOR_CREATE(Ver, 1, VARNAMES, a, b, c, d, e, f, g, h)
#elif VER == 2
REFLECTOR_CREATE(Ver, 1, VARNAMES, h, c, a, f, e, d, g, b)
#elif VER == 3
REFLECTOR_CREATE(Ver, 1, VARNAMES, a, b2, c, d, e, f, other, h)
#elif VER == 4
REFLECTOR_CREATE(Ver, 1, VARNAMES, a, b, c, d, e, f, g, h)
#elif VER == 5
REFLECTOR_CREATE(Ver, 1, VARNAMES, a, b, c, d, e, f, g)
#elif VER == 6
REFLECTOR_CREATE(Ver, 1, VARNAMES, a, b, c, d, e, f, g, h, i)
#endif
#define VCAT_(a, b) a##b
#define VCAT(a, b) VCAT_(a, b)
#define M(x) MemberModel{#x, offsetof(Ver, x), descOf<decltype(Ver::x)>()}
extern const ClassModel &VCAT(verModel, VER)();
extern void VCAT(verMake, VER)(void *p);
extern void VCAT(verKill, VER)(void *p);
const ClassModel &VCAT(verModel, VER)() {
  static ClassModel m = mkClass<Ver>("Ver", {
#if VER == 1
    M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h)
#elif VER == 2
    M(h), M(c), M(a), M(f), M(e), M(d), M(g), M(b)
#elif VER == 3
    M(a), M(b2), M(c), M(d), M(e), M(f), M(other), M(h)
#elif VER == 4
    M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h)
#elif VER == 5
    M(a), M(b), M(c), M(d), M(e), M(f), M(g)
#elif VER == 6
    M(a), M(b), M(c), M(d), M(e), M(f), M(g), M(h), M(i)
#endif
  });
  return m;
}
void VCAT(verMake, VER)(void *p) { new (p) Ver(); }
void VCAT(verKill, VER)(void *p) { ((Ver *)p)->~Ver(); }
#undef M
