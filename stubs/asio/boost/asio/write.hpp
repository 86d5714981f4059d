#pragma once
#include <boost/asio.hpp>
