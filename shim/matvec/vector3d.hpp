#pragma once
#include "matvec/matvec.hpp"
