// fmt 9 has this under another name
#pragma once
#include <fmt/core.h>
#include <fmt/format.h>
