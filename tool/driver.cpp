// Driver TU: includes the real headers of /repo and forces the template
// instantiations whose members are put under contract. It adds no behaviour.
#include <memory>
#include <vector>
#include "core/geometry_utils.h"
#include "core/geometry_discrete_primitives.h"
#include "core/math_utils.h"
#include "core/trigonometry_utils.h"
#include "core/serialization.h"
#include "core/random_utils.h"
#include "core/particle_filter.h"
#include "core/features/angle_histogram.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_cell.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/grid_map.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/maps/grid_rasterization.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/scan_matchers/grid_scan_matcher.h"
#include "core/scan_matchers/pose_enumeration_scan_matcher.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/gmapping/gmapping_world.h"
#include "slams/gmapping/gmapping_particle_filter.h"
#include "slams/gmapping/gmapping_occupancy_observation_pe.h"
#include "slams/credibilist/grid_cell.h"
#include "slams/credibilist/TBM_prob_conversion.h"
#include "utils/properties_providers.h"
#include "utils/init_occupancy_mapping.h"
#include "utils/init_scan_matching.h"
#include "utils/init_slam.h"
#include "slams/gmapping/init_gmapping.h"
#include "slams/credibilist/init_slam.h"
#include "utils/map_dumpers.h"
#include "utils/data_generation/grid_map_patcher.h"
#include "utils/data_generation/laser_scan_generator.h"
#include "utils/data_generation/map_primitives.h"

template class FailedRoundsLimitedPoseEnumerator<Distorsion1DPoseEnumerator>;
template class GaussianRV1D<std::mt19937>;
template class UniformRV1D<std::mt19937>;
template class RobotPoseDeltaRV<std::mt19937>;
template class RescalableCachingGridMap<UnboundedPlainGridMap>;
template class M3RSMRescalableGridMap<UnboundedPlainGridMap>;
template class M3RSMRescalableGridMap<PlainGridMap>;
template class ParticleFilter<GmappingWorld>;
template class UniformResamling<std::shared_ptr<GmappingWorld>>;
template void Serializer::add_value<char>(char);
template void Serializer::add_value<short>(short);
template void Serializer::add_value<unsigned>(unsigned);
template char Deserializer::read_value<char>();
template short Deserializer::read_value<short>();
template unsigned Deserializer::read_value<unsigned>();
template void GridMapPatcher::apply_text_raster<GridMap>(GridMap &, std::istream &, const DiscretePoint2D &, int, int);
template void GridMapPatcher::apply_text_raster<GridMap>(GridMap &, std::istream &, int, int);

// Copying is not written in the sources; these name the copies the compiler makes.
LazyTiledGridMap verif_copy(const LazyTiledGridMap &m) { return LazyTiledGridMap(m); }
UnboundedLazyTiledGridMap verif_copy(const UnboundedLazyTiledGridMap &m) { return UnboundedLazyTiledGridMap(m); }
