// C13: stdb_vector is the sequence its operations describe.
// c13_*: one operation on larger vectors; c13_*_seq: sequences of operations on small ones.
#include "vec_env.h"
ENTRY(c13_int) { vt::history<int>(true); }
ENTRY(c13_int_seq) { vt::history<int>(true); }
ENTRY(c13_byte) { vt::history<unsigned char>(true); }
ENTRY(c13_byte_seq) { vt::history<unsigned char>(true); }
ENTRY(c13_pod) { vt::history<vt::Pod>(true); }
ENTRY(c13_pod_seq) { vt::history<vt::Pod>(true); }
ENTRY(c13_huge) { vt::history<vt::Huge>(true); }
ENTRY(c13_huge_seq) { vt::history<vt::Huge>(true); }
ENTRY(c13_class) { vt::history<vt::Full>(true); }
ENTRY(c13_class_seq) { vt::history<vt::Full>(true); }
ENTRY(c13_moveonly) { vt::history<vt::MoveOnly>(true); }
ENTRY(c13_moveonly_seq) { vt::history<vt::MoveOnly>(true); }
ENTRY(c13_copyonly) { vt::history<vt::CopyOnly>(true); }
ENTRY(c13_copyonly_seq) { vt::history<vt::CopyOnly>(true); }
ENTRY(c13_relocatable) { vt::history<vt::Rel>(true); }
ENTRY(c13_relocatable_seq) { vt::history<vt::Rel>(true); }
