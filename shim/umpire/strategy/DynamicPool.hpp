#pragma once
#include <umpire/ResourceManager.hpp>
