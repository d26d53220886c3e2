// the numbers that the quizzes draw come from the harness
#pragma once
#include <random>
extern "C" unsigned ksym_draw();
template <> inline std::mt19937::result_type std::mt19937::operator()() { return ksym_draw(); }
