// includes of the code under test that several harnesses share
#ifndef CORE_ALL_H
#define CORE_ALL_H
#include <algorithm>
#include <cmath>
#include <memory>
#include <random>
#include <tuple>
#include <vector>
#include "core/math_utils.h"
#include "core/geometry_utils.h"
#include "core/states/state_data.h"
#include "core/states/sensor_data.h"
#include "core/states/robot_pose.h"
#include "core/maps/grid_cell.h"
#include "core/maps/grid_map.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#endif
