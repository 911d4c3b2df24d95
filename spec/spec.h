#pragma once
// Reference functions.  Each one states what the named function of placo has to compute; the checker compares the two
// value graphs.  Nothing here is ever run.
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <Eigen/Dense>

#define SPEC(...) __attribute__((annotate(#__VA_ARGS__)))
#define SPECS(text) __attribute__((annotate(text)))

namespace spec
{
// inputs outside the condition are not constrained
void require(bool condition);
// in references of constructors: a reference member refers to x, a class member is constructed as x
template <class T, class U>
void bind(T& member, U& x);
template <class T, class U>
void init(T& member, U&& x);
}  // namespace spec
