#ifndef GUARD_GLMMSR_H
#define GUARD_GLMMSR_H

#include <RcppCommon.h>

#include "ClusterGraph.h"
#include "MixedContinuousBeliefVector.h"
#include "Parameters.h"
#include "accessParameters.h"

#include <glmmsr/RcppR6_pre.hpp>
#include <glmmsr/RcppR6_post.hpp>

#endif // GUARD_GLMMSR_H
