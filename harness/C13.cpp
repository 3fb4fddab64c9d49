// C13: privacy-free garbling is correct on every circuit.
#include "gc.h"
MC_MAIN("C13") { gc::correctness<gc::PF>(); }
