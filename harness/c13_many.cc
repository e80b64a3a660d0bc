// C13, C14: one operation on vectors with more elements than 8 or 16 bits can count.
#define VT_MAX 140000
#define VT_ARG 70000
#include "vec_env.h"
ENTRY(c13_many_int) { vt::one<int>(true, (unsigned)sym_param("N", 300), (unsigned)sym_param("C", 300)); }
ENTRY(c13_many_byte) { vt::one<unsigned char>(true, (unsigned)sym_param("N", 300), (unsigned)sym_param("C", 300)); }
ENTRY(c13_many_class) { vt::one<vt::Full>(true, (unsigned)sym_param("N", 300), (unsigned)sym_param("C", 300)); }
ENTRY(c13_many_pod) { vt::one<vt::Pod>(true, (unsigned)sym_param("N", 300), (unsigned)sym_param("C", 300)); }
ENTRY(c13_most_int) { vt::one<int>(true, (unsigned)sym_param("N", 300), (unsigned)sym_param("C", 300)); }
ENTRY(c13_most_byte) { vt::one<unsigned char>(true, (unsigned)sym_param("N", 300), (unsigned)sym_param("C", 300)); }
