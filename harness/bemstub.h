#pragma once
#include <array>
#include <map>
#include <string>
#include <vector>
struct StubFMA { std::vector<double> nn, nf, dn, df; mutable std::vector<double> phi, dphi; std::string calls; };
extern StubFMA stub_fma;
struct SolverProbe { int gradients = 0, solves = 0; std::map<unsigned, std::array<unsigned, 3>> where; std::vector<double> residual; };
extern SolverProbe probe;
