#pragma once
#include <map>
#include <vector>
struct PrecProbe { int count = 0, used = 0; const void *which = nullptr; std::vector<std::map<unsigned, double>> row; };
extern PrecProbe prec;
