#include "eigen_assert.hpp"
#include <Eigen/Core>
#include <Eigen/Dense>
#include <iostream>
#include <sstream>
#include <vector>
#include <map>
#include <string>
#include <algorithm>
#include <functional>
