#pragma once
#include "vp.h"
#include <HeuristicFlow/Genetic>
struct Var {
  double x;
  mutable bool evald;
  mutable double fit;
};
