#ifndef SHIM_MSG_BASE_H
#define SHIM_MSG_BASE_H
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/array.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/time.h>
#include <ros/serialization.h>
#endif
