#include_next "llvm/ProfileData/SampleProf.h"
// LLVM 20 dropped the compact-binary format that autofdo still names.
#define SPF_Compact_Binary SPF_Binary
