// C17: string modifiers produce what std::string would.
#include "str_env.h"
typedef stdb::memory::basic_string<char> S8;
typedef stdb::memory::basic_string<char16_t> S16;
typedef stdb::memory::basic_string<char32_t> S32;
ENTRY(c17_short) { st::history<S8>(false, (unsigned)sym_param("K", 1), sym_param("N", 2)); }
ENTRY(c17_boundary) { st::history<S8>(true, 1, 2); }
ENTRY(c17_short16) { st::history<S16>(false, (unsigned)sym_param("K", 1), sym_param("N", 2)); }
ENTRY(c17_boundary16) { st::history<S16>(true, 1, 2); }
ENTRY(c17_short32) { st::history<S32>(false, (unsigned)sym_param("K", 1), sym_param("N", 2)); }
ENTRY(c17_boundary32) { st::history<S32>(true, 1, 2); }
ENTRY(c17_seq) { st::history<S8>(false, (unsigned)sym_param("K", 2), sym_param("N", 1)); }
