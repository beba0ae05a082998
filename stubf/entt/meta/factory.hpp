#include "../entt_stub.hpp"
