// C12: half-gates garbling is correct on every circuit.
#include "gc.h"
MC_MAIN("C12") { gc::correctness<gc::HG>(); }
