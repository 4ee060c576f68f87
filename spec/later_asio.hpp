// Boost 1.83 has no default completion token; the library expects that of later releases (deferred). Supplied here, so that sources
// which rely on it compile.
#pragma once
#include <boost/asio/any_io_executor.hpp>
#include <boost/asio/deferred.hpp>
template<> struct boost::asio::default_completion_token<boost::asio::any_io_executor> { using type = boost::asio::deferred_t; };
