// Headers the tree forgets to include are included first here; whether each
// header stands alone is decided by the check of C35, not by the witnesses.
#pragma once
#include <array>
#include <cassert>
#include <cstddef>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <lager/detail/access.hpp>
#include <lager/detail/smart_lens.hpp>
