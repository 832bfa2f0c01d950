#include "c18_log.hpp"
void logOther(const Msg &m) { logMessage(printer, m); }
void logHere2(const std::string &a, int b, int t) {
  if (t == 1) { printwarning(a << b) } else if (t == 2) { printerror(a << b) } else { printline(a << b) }
}
