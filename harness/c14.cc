// C14: the lifetimes of stdb_vector's elements are balanced.
// c14_*: one operation on larger vectors; c14_*_seq: sequences of operations on small ones.
#include "vec_env.h"
ENTRY(c14_class) { vt::history<vt::Full>(false); }
ENTRY(c14_class_seq) { vt::history<vt::Full>(false); }
ENTRY(c14_moveonly) { vt::history<vt::MoveOnly>(false); }
ENTRY(c14_moveonly_seq) { vt::history<vt::MoveOnly>(false); }
ENTRY(c14_copyonly) { vt::history<vt::CopyOnly>(false); }
ENTRY(c14_copyonly_seq) { vt::history<vt::CopyOnly>(false); }
ENTRY(c14_relocatable) { vt::history<vt::Rel>(false); }
ENTRY(c14_relocatable_seq) { vt::history<vt::Rel>(false); }
ENTRY(c14_plain) { vt::history<vt::Track>(false); }
ENTRY(c14_plain_seq) { vt::history<vt::Track>(false); }
