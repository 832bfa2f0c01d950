#pragma once
#include "datas/master_printer.hpp"
#include <string>
#include <vector>
enum PieceKind { PText, PChars, PInt, PUint, PFloat, PChar, PHash };
struct Piece { PieceKind kind; std::string text; long long num; double real; };
struct Msg { int type; std::vector<Piece> pieces; int endl; int how; bool other; };
// the same statements in two translation units, which have separate printers
void logHere(const Msg &m);
void logOther(const Msg &m);
template <class P> static void logMessage(P &printer, const Msg &m) {
  switch (m.type) {
  case 1: printer << MPType::WRN; break;
  case 2: printer << MPType::ERR; break;
  case 3: printer << MPType::INF; break;
  case 4: printer << MPType::MSG; break;
  }
  for (auto &p : m.pieces)
    switch (p.kind) {
    case PText: printer << p.text; break;
    case PChars: printer << p.text.c_str(); break;
    case PInt: printer << (long long)p.num; break;
    case PUint: printer << (unsigned)p.num; break;
    case PFloat: printer << p.real; break;
    case PChar: printer << (char)p.num; break;
    case PHash: printer << (short)p.num << ',' << true; break;
    }
  if (m.how) printer.FlushAll();
  else printer >> m.endl; // anything but 0 ends the line
}
