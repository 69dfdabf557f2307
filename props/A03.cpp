#include "jetm.hpp"
using namespace g;
LAW(vectors, 60000, "accelerating vectors and scalars; non-trivial: values and velocities non-zero") { Aug<AccT>(s).vectors(); }
LAW(rotations, 40000, "accelerating rotations (all singular cases included); non-trivial: both rotate") { Aug<AccT>(s).rotations(); }
LAW(frames, 40000, "accelerating frames; non-trivial: both rotate and translate") { Aug<AccT>(s).frames(); }
LAW(twists, 40000, "changing twists; non-trivial: value and rate non-zero") { Aug<AccT>(s).twists(); }
