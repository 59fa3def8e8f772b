#pragma once
#include <deal.II/base/parsed_function.h>
#include <deal.II/lac/vector.h>
#include <map>
#include <string>
#include <vector>
using namespace dealii;
// arbitrary functions: one free value per function, place and component
struct FnProbe { std::map<const void *, std::string> name; std::vector<Point<3>> places; };
extern FnProbe fns;
std::string fn_name(const void *f, const Point<3> &p, unsigned c);
