#pragma once
#include "datetime/dtfund.hpp"
