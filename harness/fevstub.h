#pragma once
#include <deal.II/base/quadrature.h>
#include <map>
#include <string>
struct Rules { bool on = false, weights = true, normals = true; std::map<std::string, unsigned> ids; };
extern Rules rules;
template <int d> unsigned rule_id(const dealii::Quadrature<d> &q);
