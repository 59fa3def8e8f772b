#pragma once
#include <vector>
struct BcProbe { int normals = 0, solves = 0, gradients = 0; bool materials = false; std::vector<unsigned> mat; std::vector<double> phi, dphi, rhs, gphi, gdphi, K; };
extern BcProbe bcp;
