// link: core
#include "vdamage.inc"
