#pragma once
#include "frames.hpp"
#include "frames_io.hpp"
#include "framevel.hpp"
#include "framevel_io.hpp"
#include "frameacc.hpp"
#include "frameacc_io.hpp"
#include "joint.hpp"
#include "segment.hpp"
#include "chain.hpp"
#include "tree.hpp"
#include "kinfam_io.hpp"
#include "jntarray.hpp"
#include "jntarrayvel.hpp"
#include "jntarrayacc.hpp"
#include "jntspaceinertiamatrix.hpp"
#include "jacobian.hpp"
#include "rigidbodyinertia.hpp"
#include "articulatedbodyinertia.hpp"
