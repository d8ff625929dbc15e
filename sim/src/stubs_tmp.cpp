#include "core.hpp"
namespace sim { void world_ingest(const Plan&){} void world_proof(const Plan&){} std::vector<std::string> profile_flavors(const std::string&){return {};} }
