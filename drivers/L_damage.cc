// link: core prop
#include "llvm_propeller_binary_content.h"
#include "vdamage.inc"
