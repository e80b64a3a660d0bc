// C14: one operation on vectors with more elements than 8 bits can count.
#define VT_MAX 4096
#define VT_ARG 2048
#include "vec_env.h"
#define M(name, T) ENTRY(c14_many_##name) { vt::one<T>(false, (unsigned)sym_param("N", 300), (unsigned)sym_param("C", 300)); }
M(class, vt::Full)
M(moveonly, vt::MoveOnly)
M(copyonly, vt::CopyOnly)
M(relocatable, vt::Rel)
M(plain, vt::Track)
