#pragma once
#include "geodesy/units.hpp"
namespace ngpt = dso;
