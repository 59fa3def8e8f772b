#pragma once
#include <array>
#include <map>
#include <set>
#include <vector>
// m2p, m2l: the worst ratios of boxes that do not touch, sqrt(3)/3 and sqrt(3)/2
struct Formal { double m2p = 0.57736, m2l = 0.86603; unsigned long bad = 0, far = 0; std::map<std::array<double, 7>, unsigned> ids; std::vector<std::array<double, 7>> src; std::set<std::array<double, 6>> converted, evaluated; };
extern Formal formal;
