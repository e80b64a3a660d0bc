// C17: one modifier on strings longer than 8 or 16 bits can count.
#define ST_MAX 140000
#include "str_env.h"
typedef stdb::memory::basic_string<char> S8;
typedef stdb::memory::basic_string<char32_t> S32;
ENTRY(c17_long) { st::one<S8>((size_t)sym_param("N", 1000), (size_t)sym_param("C", 1000)); }
ENTRY(c17_long32) { st::one<S32>((size_t)sym_param("N", 1000), (size_t)sym_param("C", 1000)); }
