#pragma once
#include "reader.hpp"
#include "writer.hpp"
