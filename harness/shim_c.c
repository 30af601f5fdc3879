#include "shim.inc"
