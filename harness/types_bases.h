#pragma once
#include <string>
#include <vector>
#include <cstddef>
using FnVI = void(int);
using FnDD = double(double, char const*);
namespace probe { struct Poly; }
using MfnP = void (probe::Poly::*)();
