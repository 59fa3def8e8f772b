#pragma once
#include <map>
#include <string>
#include <vector>
// what the reporting routines print, integrate and write
struct ErrProbe { bool on = false; std::string last; std::map<std::string, double> printed; std::map<std::string, long> counts; std::map<std::string, std::vector<double>> data, integrals; std::map<std::string, std::string> files;
  void clear() { printed.clear(); counts.clear(); data.clear(); integrals.clear(); files.clear(); last = ""; } };
extern ErrProbe erp;
