// Cooperative scheduler of real threads: one runs at a time, and every switch is a recorded choice.
#pragma once
#include "core.hpp"
#include <functional>
// Runs the tasks to their end. burst(task) gives the number of basic blocks of library code until the next switch.
// Returns the number of switches that happened inside library calls.
long run_threads(Sim& S, std::vector<std::function<void()>> tasks, std::function<long()> burst);
// A point between two calls, where the running task may also be switched
void sched_point();
