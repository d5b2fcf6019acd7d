// Force-included before every translation unit of the monitoring builds.
#include <filesystem>
#include <cstdint>
#include <optional>
#include <string>
