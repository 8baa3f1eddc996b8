// Damage to the input files, as meets real deployments (p_start.cpp)
#pragma once
#include "plan.hpp"
std::vector<std::string> split_lines(const std::string& s);
std::string join_lines(const std::vector<std::string>& v, const char* eol = "\n");
std::vector<std::pair<size_t, size_t>> words(const std::string& l);
std::string garble(Sim& S, std::string t, std::string& what);
double opt(const std::string& t, const std::string& name, double def); // the last value given to an option
bool heavy(const std::string& was, const std::string& is); // may the garbled file ask for an endless computation?
