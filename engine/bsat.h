// Bit-blasting decision procedure: gate-level translation of the expression DAG plus a CDCL SAT solver
// whose decisions are restricted to the cone of the current query.
#pragma once
#include "solver.h"
bool bsCheck(const std::vector<Expr*> &cs, const std::vector<u32> &vars, Model &out, SatRes &res, double timeoutS); // false: outside the fragment (division by a non-constant)
