// every public class of the library, with private members visible to the contracts
#pragma once
#include "nvc.hpp"
#define private public
#define protected public
#include "library.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#undef private
#undef protected
using namespace Java::Lang;
// the Java string holds exactly these bytes
static inline bool is(const String &j, const std::string &e) { return j.original.size() == e.size() && nvc_eqrange(j.original.data(), e.data(), (long) e.size()); }
